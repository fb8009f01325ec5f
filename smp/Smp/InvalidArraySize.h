// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDARRAYSIZE_H_
#define SMP_INVALIDARRAYSIZE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidArraySize : public virtual ::Smp::Exception {
public:
  InvalidArraySize() noexcept = default;
  InvalidArraySize(const InvalidArraySize &) noexcept = default;
  InvalidArraySize &operator=(const InvalidArraySize &) noexcept = default;
  ~InvalidArraySize() noexcept override = default;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
  virtual ::Smp::Int64 GetInvalidSize() const noexcept = 0;
};
} // namespace Smp
#endif
