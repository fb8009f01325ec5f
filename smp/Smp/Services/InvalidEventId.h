// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_INVALIDEVENTID_H_
#define SMP_SERVICES_INVALIDEVENTID_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Services/EventId.h>
namespace Smp::Services {
class InvalidEventId : public virtual ::Smp::Exception {
public:
  InvalidEventId() noexcept = default;
  InvalidEventId(const InvalidEventId &) noexcept = default;
  InvalidEventId &operator=(const InvalidEventId &) noexcept = default;
  ~InvalidEventId() noexcept override = default;
  virtual ::Smp::Services::EventId GetInvalidEventId() const noexcept = 0;
};
} // namespace Smp::Services
#endif
