// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDCOMPONENTSTATE_H_
#define SMP_INVALIDCOMPONENTSTATE_H_
#include <Smp/ComponentStateKind.h>
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidComponentState : public virtual ::Smp::Exception {
public:
  InvalidComponentState() noexcept = default;
  InvalidComponentState(const InvalidComponentState &) noexcept = default;
  InvalidComponentState &operator=(const InvalidComponentState &) noexcept = default;
  ~InvalidComponentState() noexcept override = default;
  virtual ::Smp::ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ::Smp::ComponentStateKind GetExpectedState() const noexcept = 0;
};
} // namespace Smp
#endif
