// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IEVENTPROVIDER_H_
#define SMP_IEVENTPROVIDER_H_
#include <Smp/IComponent.h>
#include <Smp/IEventSource.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEventProvider : public virtual ::Smp::IComponent {
public:
  virtual ~IEventProvider() noexcept = default;
  virtual const ::Smp::EventSourceCollection *GetEventSources() const = 0;
  virtual ::Smp::IEventSource *GetEventSource(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
