// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IEVENTSINK_H_
#define SMP_IEVENTSINK_H_
#include <Smp/AnySimple.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEventSink : public virtual ::Smp::IObject {
public:
  virtual ~IEventSink() noexcept = default;
  virtual ::Smp::PrimitiveTypeKind GetEventArgType() const = 0;
  virtual void Notify(::Smp::IObject *sender, ::Smp::AnySimple value) = 0;
};
using EventSinkCollection = ::Smp::ICollection<::Smp::IEventSink>;
} // namespace Smp
#endif
