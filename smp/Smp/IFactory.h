// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IFACTORY_H_
#define SMP_IFACTORY_H_
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
namespace Smp {
class IComponent;
class IComposite;
}
namespace Smp {
class IFactory : public virtual ::Smp::IObject {
public:
  virtual ~IFactory() noexcept = default;
  virtual ::Smp::Uuid GetUuid() const = 0;
  virtual ::Smp::IComponent *CreateInstance(::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent) = 0;
  virtual void DeleteInstance(::Smp::IComponent *instance) = 0;
  virtual ::Smp::String8 GetTypeName() const = 0;
};
using FactoryCollection = ::Smp::ICollection<::Smp::IFactory>;
} // namespace Smp
#endif
