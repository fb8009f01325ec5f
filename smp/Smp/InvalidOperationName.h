// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDOPERATIONNAME_H_
#define SMP_INVALIDOPERATIONNAME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidOperationName : public virtual ::Smp::Exception {
public:
  InvalidOperationName() noexcept = default;
  InvalidOperationName(const InvalidOperationName &) noexcept = default;
  InvalidOperationName &operator=(const InvalidOperationName &) noexcept = default;
  ~InvalidOperationName() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
} // namespace Smp
#endif
