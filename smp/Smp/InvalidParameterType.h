// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDPARAMETERTYPE_H_
#define SMP_INVALIDPARAMETERTYPE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidParameterType : public virtual ::Smp::Exception {
public:
  InvalidParameterType() noexcept = default;
  InvalidParameterType(const InvalidParameterType &) noexcept = default;
  InvalidParameterType &operator=(const InvalidParameterType &) noexcept = default;
  ~InvalidParameterType() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
} // namespace Smp
#endif
