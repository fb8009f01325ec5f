// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDFIELDVALUE_H_
#define SMP_INVALIDFIELDVALUE_H_
#include <Smp/AnySimple.h>
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidFieldValue : public virtual ::Smp::Exception {
public:
  InvalidFieldValue() noexcept = default;
  InvalidFieldValue(const InvalidFieldValue &) noexcept = default;
  InvalidFieldValue &operator=(const InvalidFieldValue &) noexcept = default;
  ~InvalidFieldValue() noexcept override = default;
  virtual ::Smp::AnySimple GetInvalidFieldValue() const noexcept = 0;
};
} // namespace Smp
#endif
