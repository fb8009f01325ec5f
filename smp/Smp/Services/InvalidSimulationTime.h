// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_INVALIDSIMULATIONTIME_H_
#define SMP_SERVICES_INVALIDSIMULATIONTIME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class InvalidSimulationTime : public virtual ::Smp::Exception {
public:
  InvalidSimulationTime() noexcept = default;
  InvalidSimulationTime(const InvalidSimulationTime &) noexcept = default;
  InvalidSimulationTime &operator=(const InvalidSimulationTime &) noexcept = default;
  ~InvalidSimulationTime() noexcept override = default;
  virtual ::Smp::Duration GetCurrentTime() const noexcept = 0;
  virtual ::Smp::Duration GetProvidedTime() const noexcept = 0;
  virtual ::Smp::Duration GetMaximumTime() const noexcept = 0;
};
} // namespace Smp::Services
#endif
