// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ISIMPLEFIELD_H_
#define SMP_ISIMPLEFIELD_H_
#include <Smp/AnySimple.h>
#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class ISimpleField : public virtual ::Smp::IField {
public:
  virtual ~ISimpleField() noexcept = default;
  virtual ::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual ::Smp::AnySimple GetValue() const = 0;
  virtual void SetValue(::Smp::AnySimple value) = 0;
};
} // namespace Smp
#endif
