// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H_
#define SMP_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEntryPoint;
}
namespace Smp::Services {
class EntryPointAlreadySubscribed : public virtual ::Smp::Exception {
public:
  EntryPointAlreadySubscribed() noexcept = default;
  EntryPointAlreadySubscribed(const EntryPointAlreadySubscribed &) noexcept = default;
  EntryPointAlreadySubscribed &operator=(const EntryPointAlreadySubscribed &) noexcept = default;
  ~EntryPointAlreadySubscribed() noexcept override = default;
  virtual const ::Smp::IEntryPoint *GetEntryPoint() const noexcept = 0;
  virtual ::Smp::String8 GetEventName() const noexcept = 0;
};
} // namespace Smp::Services
#endif
