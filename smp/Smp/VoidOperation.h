// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_VOIDOPERATION_H_
#define SMP_VOIDOPERATION_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class VoidOperation : public virtual ::Smp::Exception {
public:
  VoidOperation() noexcept = default;
  VoidOperation(const VoidOperation &) noexcept = default;
  VoidOperation &operator=(const VoidOperation &) noexcept = default;
  ~VoidOperation() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
} // namespace Smp
#endif
