// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IEVENTCONSUMER_H_
#define SMP_IEVENTCONSUMER_H_
#include <Smp/IComponent.h>
#include <Smp/IEventSink.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEventConsumer : public virtual ::Smp::IComponent {
public:
  virtual ~IEventConsumer() noexcept = default;
  virtual const ::Smp::EventSinkCollection *GetEventSinks() const = 0;
  virtual ::Smp::IEventSink *GetEventSink(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
