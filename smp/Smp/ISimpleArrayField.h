// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ISIMPLEARRAYFIELD_H_
#define SMP_ISIMPLEARRAYFIELD_H_
#include <Smp/AnySimple.h>
#include <Smp/AnySimpleArray.h>
#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class ISimpleArrayField : public virtual ::Smp::IField {
public:
  virtual ~ISimpleArrayField() noexcept = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual ::Smp::AnySimple GetValue(::Smp::UInt64 index) const = 0;
  virtual void SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) = 0;
  virtual void GetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) const = 0;
  virtual void SetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) = 0;
};
} // namespace Smp
#endif
