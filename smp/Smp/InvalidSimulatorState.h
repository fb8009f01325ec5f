// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDSIMULATORSTATE_H_
#define SMP_INVALIDSIMULATORSTATE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/SimulatorStateKind.h>
namespace Smp {
class InvalidSimulatorState : public virtual ::Smp::Exception {
public:
  InvalidSimulatorState() noexcept = default;
  InvalidSimulatorState(const InvalidSimulatorState &) noexcept = default;
  InvalidSimulatorState &operator=(const InvalidSimulatorState &) noexcept = default;
  ~InvalidSimulatorState() noexcept override = default;
  virtual ::Smp::SimulatorStateKind GetInvalidState() const noexcept = 0;
};
} // namespace Smp
#endif
