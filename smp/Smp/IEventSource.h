// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IEVENTSOURCE_H_
#define SMP_IEVENTSOURCE_H_
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEventSink;
}
namespace Smp {
class IEventSource : public virtual ::Smp::IObject {
public:
  virtual ~IEventSource() noexcept = default;
  virtual void Subscribe(::Smp::IEventSink *eventSink) = 0;
  virtual void Unsubscribe(::Smp::IEventSink *eventSink) = 0;
};
using EventSourceCollection = ::Smp::ICollection<::Smp::IEventSource>;
} // namespace Smp
#endif
