// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDEVENTSINK_H_
#define SMP_INVALIDEVENTSINK_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEventSink;
class IEventSource;
}
namespace Smp {
class InvalidEventSink : public virtual ::Smp::Exception {
public:
  InvalidEventSink() noexcept = default;
  InvalidEventSink(const InvalidEventSink &) noexcept = default;
  InvalidEventSink &operator=(const InvalidEventSink &) noexcept = default;
  ~InvalidEventSink() noexcept override = default;
  virtual const ::Smp::IEventSource *GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink *GetEventSink() const noexcept = 0;
};
} // namespace Smp
#endif
