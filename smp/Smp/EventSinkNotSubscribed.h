// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_EVENTSINKNOTSUBSCRIBED_H_
#define SMP_EVENTSINKNOTSUBSCRIBED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEventSink;
class IEventSource;
}
namespace Smp {
class EventSinkNotSubscribed : public virtual ::Smp::Exception {
public:
  EventSinkNotSubscribed() noexcept = default;
  EventSinkNotSubscribed(const EventSinkNotSubscribed &) noexcept = default;
  EventSinkNotSubscribed &operator=(const EventSinkNotSubscribed &) noexcept = default;
  ~EventSinkNotSubscribed() noexcept override = default;
  virtual const ::Smp::IEventSource *GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink *GetEventSink() const noexcept = 0;
};
} // namespace Smp
#endif
