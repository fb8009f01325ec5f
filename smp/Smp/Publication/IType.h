// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_ITYPE_H_
#define SMP_PUBLICATION_ITYPE_H_
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>
#include <Smp/Uuid.h>
#include <Smp/ViewKind.h>
namespace Smp {
class IPublication;
}
namespace Smp::Publication {
class IType : public virtual ::Smp::IObject {
public:
  virtual ~IType() noexcept = default;
  virtual ::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual ::Smp::Uuid GetUuid() const = 0;
  virtual void Publish(::Smp::IPublication *receiver, ::Smp::String8 name, ::Smp::String8 description, void *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
};
} // namespace Smp::Publication
#endif
