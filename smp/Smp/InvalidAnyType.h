// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDANYTYPE_H_
#define SMP_INVALIDANYTYPE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidAnyType : public virtual ::Smp::Exception {
public:
  InvalidAnyType() noexcept = default;
  InvalidAnyType(const InvalidAnyType &) noexcept = default;
  InvalidAnyType &operator=(const InvalidAnyType &) noexcept = default;
  ~InvalidAnyType() noexcept override = default;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
} // namespace Smp
#endif
