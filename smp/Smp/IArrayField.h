// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IARRAYFIELD_H_
#define SMP_IARRAYFIELD_H_
#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IArrayField : public virtual ::Smp::IField {
public:
  virtual ~IArrayField() noexcept = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual ::Smp::IField *GetItem(::Smp::UInt64 index) const = 0;
};
} // namespace Smp
#endif
