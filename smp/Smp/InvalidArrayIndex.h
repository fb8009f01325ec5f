// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDARRAYINDEX_H_
#define SMP_INVALIDARRAYINDEX_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidArrayIndex : public virtual ::Smp::Exception {
public:
  InvalidArrayIndex() noexcept = default;
  InvalidArrayIndex(const InvalidArrayIndex &) noexcept = default;
  InvalidArrayIndex &operator=(const InvalidArrayIndex &) noexcept = default;
  ~InvalidArrayIndex() noexcept override = default;
  virtual ::Smp::Int64 GetInvalidIndex() const noexcept = 0;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
};
} // namespace Smp
#endif
