// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_INVALIDCYCLETIME_H_
#define SMP_SERVICES_INVALIDCYCLETIME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class InvalidCycleTime : public virtual ::Smp::Exception {
public:
  InvalidCycleTime() noexcept = default;
  InvalidCycleTime(const InvalidCycleTime &) noexcept = default;
  InvalidCycleTime &operator=(const InvalidCycleTime &) noexcept = default;
  ~InvalidCycleTime() noexcept override = default;
};
} // namespace Smp::Services
#endif
