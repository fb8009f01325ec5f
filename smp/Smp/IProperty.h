// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IPROPERTY_H_
#define SMP_IPROPERTY_H_
#include <Smp/AccessKind.h>
#include <Smp/AnySimple.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>
namespace Smp {
namespace Publication {
class IType;
}
}
namespace Smp {
class IProperty : public virtual ::Smp::IObject {
public:
  virtual ~IProperty() noexcept = default;
  virtual ::Smp::Publication::IType *GetType() const = 0;
  virtual ::Smp::AccessKind GetAccess() const = 0;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::AnySimple GetValue() const = 0;
  virtual void SetValue(::Smp::AnySimple value) = 0;
};
using PropertyCollection = ::Smp::ICollection<::Smp::IProperty>;
} // namespace Smp
#endif
