// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDFIELDNAME_H_
#define SMP_INVALIDFIELDNAME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidFieldName : public virtual ::Smp::Exception {
public:
  InvalidFieldName() noexcept = default;
  InvalidFieldName(const InvalidFieldName &) noexcept = default;
  InvalidFieldName &operator=(const InvalidFieldName &) noexcept = default;
  ~InvalidFieldName() noexcept override = default;
  virtual ::Smp::String8 GetFieldName() const noexcept = 0;
};
} // namespace Smp
#endif
