// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDPARAMETERINDEX_H_
#define SMP_INVALIDPARAMETERINDEX_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidParameterIndex : public virtual ::Smp::Exception {
public:
  InvalidParameterIndex() noexcept = default;
  InvalidParameterIndex(const InvalidParameterIndex &) noexcept = default;
  InvalidParameterIndex &operator=(const InvalidParameterIndex &) noexcept = default;
  ~InvalidParameterIndex() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterIndex() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterCount() const noexcept = 0;
};
} // namespace Smp
#endif
