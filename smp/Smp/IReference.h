// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IREFERENCE_H_
#define SMP_IREFERENCE_H_
#include <Smp/IComponent.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IReference : public virtual ::Smp::IObject {
public:
  virtual ~IReference() noexcept = default;
  virtual const ::Smp::ComponentCollection *GetComponents() const = 0;
  virtual ::Smp::IComponent *GetComponent(::Smp::String8 name) const = 0;
  virtual void AddComponent(::Smp::IComponent *component) = 0;
  virtual void RemoveComponent(::Smp::IComponent *component) = 0;
  virtual ::Smp::Int64 GetCount() const = 0;
  virtual ::Smp::Int64 GetUpper() const = 0;
  virtual ::Smp::Int64 GetLower() const = 0;
};
using ReferenceCollection = ::Smp::ICollection<::Smp::IReference>;
} // namespace Smp
#endif
