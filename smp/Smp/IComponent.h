// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ICOMPONENT_H_
#define SMP_ICOMPONENT_H_
#include <Smp/ComponentStateKind.h>
#include <Smp/IField.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
namespace Smp {
class IPublication;
class ISimulator;
namespace Services {
class ILogger;
class ILinkRegistry;
}
}
namespace Smp {
class IComponent : public virtual ::Smp::IObject {
public:
  virtual ~IComponent() noexcept = default;
  virtual ::Smp::ComponentStateKind GetState() const = 0;
  virtual void Publish(::Smp::IPublication *receiver) = 0;
  virtual void Configure(::Smp::Services::ILogger *logger, ::Smp::Services::ILinkRegistry *linkRegistry) = 0;
  virtual void Connect(::Smp::ISimulator *simulator) = 0;
  virtual void Disconnect() = 0;
  virtual ::Smp::IField *GetField(::Smp::String8 fullName) const = 0;
  virtual const ::Smp::FieldCollection *GetFields() const = 0;
  virtual const ::Smp::Uuid &GetUuid() const = 0;
};
using ComponentCollection = ::Smp::ICollection<::Smp::IComponent>;
} // namespace Smp
#endif
