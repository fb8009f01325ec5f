// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_ICLASSTYPE_H_
#define SMP_PUBLICATION_ICLASSTYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IStructureType.h>
namespace Smp::Publication {
class IClassType : public virtual ::Smp::Publication::IStructureType {
public:
  virtual ~IClassType() noexcept = default;
};
} // namespace Smp::Publication
#endif
