// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_ISTRUCTURETYPE_H_
#define SMP_PUBLICATION_ISTRUCTURETYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>
#include <Smp/Publication/IType.h>
namespace Smp::Publication {
class IStructureType : public virtual ::Smp::Publication::IType {
public:
  virtual ~IStructureType() noexcept = default;
  virtual void AddField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid uuid, ::Smp::Int64 offset, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
};
} // namespace Smp::Publication
#endif
