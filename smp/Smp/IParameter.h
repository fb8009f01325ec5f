// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IPARAMETER_H_
#define SMP_IPARAMETER_H_
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/ParameterDirectionKind.h>
namespace Smp {
namespace Publication {
class IType;
}
}
namespace Smp {
class IParameter : public virtual ::Smp::IObject {
public:
  virtual ~IParameter() noexcept = default;
  virtual ::Smp::Publication::IType *GetType() const = 0;
  virtual ::Smp::Publication::ParameterDirectionKind GetDirection() const = 0;
};
using ParameterCollection = ::Smp::ICollection<::Smp::IParameter>;
} // namespace Smp
#endif
