// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ICONTAINER_H_
#define SMP_ICONTAINER_H_
#include <Smp/IComponent.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IContainer : public virtual ::Smp::IObject {
public:
  virtual ~IContainer() noexcept = default;
  virtual const ::Smp::ComponentCollection *GetComponents() const = 0;
  virtual ::Smp::IComponent *GetComponent(::Smp::String8 name) const = 0;
  virtual void AddComponent(::Smp::IComponent *component) = 0;
  virtual void DeleteComponent(::Smp::IComponent *component) = 0;
  virtual ::Smp::Int64 GetCount() const = 0;
  virtual ::Smp::Int64 GetUpper() const = 0;
  virtual ::Smp::Int64 GetLower() const = 0;
};
using ContainerCollection = ::Smp::ICollection<::Smp::IContainer>;
} // namespace Smp
#endif
