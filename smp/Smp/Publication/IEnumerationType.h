// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_IENUMERATIONTYPE_H_
#define SMP_PUBLICATION_IENUMERATIONTYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>
namespace Smp::Publication {
class IEnumerationType : public virtual ::Smp::Publication::IType {
public:
  virtual ~IEnumerationType() noexcept = default;
  virtual void AddLiteral(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int32 value) = 0;
};
} // namespace Smp::Publication
#endif
