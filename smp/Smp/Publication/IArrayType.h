// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_IARRAYTYPE_H_
#define SMP_PUBLICATION_IARRAYTYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>
namespace Smp::Publication {
class IArrayType : public virtual ::Smp::Publication::IType {
public:
  virtual ~IArrayType() noexcept = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual const ::Smp::Publication::IType *GetItemType() const = 0;
};
} // namespace Smp::Publication
#endif
