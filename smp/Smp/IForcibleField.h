// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IFORCIBLEFIELD_H_
#define SMP_IFORCIBLEFIELD_H_
#include <Smp/ISimpleField.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IForcibleField : public virtual ::Smp::ISimpleField {
public:
  virtual ~IForcibleField() noexcept = default;
  virtual void Force(::Smp::AnySimple value) = 0;
  virtual void Unforce() = 0;
  virtual ::Smp::Bool IsForced() = 0;
  virtual void Freeze() = 0;
};
} // namespace Smp
#endif
