// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_INVALIDEVENTTIME_H_
#define SMP_SERVICES_INVALIDEVENTTIME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class InvalidEventTime : public virtual ::Smp::Exception {
public:
  InvalidEventTime() noexcept = default;
  InvalidEventTime(const InvalidEventTime &) noexcept = default;
  InvalidEventTime &operator=(const InvalidEventTime &) noexcept = default;
  ~InvalidEventTime() noexcept override = default;
};
} // namespace Smp::Services
#endif
