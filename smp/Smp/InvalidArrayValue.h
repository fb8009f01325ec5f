// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDARRAYVALUE_H_
#define SMP_INVALIDARRAYVALUE_H_
#include <Smp/AnySimple.h>
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidArrayValue : public virtual ::Smp::Exception {
public:
  InvalidArrayValue() noexcept = default;
  InvalidArrayValue(const InvalidArrayValue &) noexcept = default;
  InvalidArrayValue &operator=(const InvalidArrayValue &) noexcept = default;
  ~InvalidArrayValue() noexcept override = default;
  virtual ::Smp::Int64 GetInvalidValueIndex() const noexcept = 0;
  virtual ::Smp::AnySimple GetInvalidValue() const noexcept = 0;
};
} // namespace Smp
#endif
