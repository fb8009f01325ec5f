// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_INVALIDEVENTNAME_H_
#define SMP_SERVICES_INVALIDEVENTNAME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class InvalidEventName : public virtual ::Smp::Exception {
public:
  InvalidEventName() noexcept = default;
  InvalidEventName(const InvalidEventName &) noexcept = default;
  InvalidEventName &operator=(const InvalidEventName &) noexcept = default;
  ~InvalidEventName() noexcept override = default;
};
} // namespace Smp::Services
#endif
