// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDRETURNVALUE_H_
#define SMP_INVALIDRETURNVALUE_H_
#include <Smp/AnySimple.h>
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidReturnValue : public virtual ::Smp::Exception {
public:
  InvalidReturnValue() noexcept = default;
  InvalidReturnValue(const InvalidReturnValue &) noexcept = default;
  InvalidReturnValue &operator=(const InvalidReturnValue &) noexcept = default;
  ~InvalidReturnValue() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
} // namespace Smp
#endif
