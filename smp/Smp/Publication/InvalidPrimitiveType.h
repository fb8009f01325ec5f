// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H_
#define SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Publication {
class InvalidPrimitiveType : public virtual ::Smp::Exception {
public:
  InvalidPrimitiveType() noexcept = default;
  InvalidPrimitiveType(const InvalidPrimitiveType &) noexcept = default;
  InvalidPrimitiveType &operator=(const InvalidPrimitiveType &) noexcept = default;
  ~InvalidPrimitiveType() noexcept override = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetType() const noexcept = 0;
};
} // namespace Smp::Publication
#endif
