// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDFIELDTYPE_H_
#define SMP_INVALIDFIELDTYPE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidFieldType : public virtual ::Smp::Exception {
public:
  InvalidFieldType() noexcept = default;
  InvalidFieldType(const InvalidFieldType &) noexcept = default;
  InvalidFieldType &operator=(const InvalidFieldType &) noexcept = default;
  ~InvalidFieldType() noexcept override = default;
};
} // namespace Smp
#endif
