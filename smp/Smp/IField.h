// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IFIELD_H_
#define SMP_IFIELD_H_
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>
namespace Smp {
namespace Publication {
class IType;
}
}
namespace Smp {
class IField : public virtual ::Smp::IPersist {
public:
  virtual ~IField() noexcept = default;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::Bool IsState() const = 0;
  virtual ::Smp::Bool IsInput() const = 0;
  virtual ::Smp::Bool IsOutput() const = 0;
  virtual const ::Smp::Publication::IType *GetType() const = 0;
};
using FieldCollection = ::Smp::ICollection<::Smp::IField>;
} // namespace Smp
#endif
