// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDPARAMETERCOUNT_H_
#define SMP_INVALIDPARAMETERCOUNT_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidParameterCount : public virtual ::Smp::Exception {
public:
  InvalidParameterCount() noexcept = default;
  InvalidParameterCount(const InvalidParameterCount &) noexcept = default;
  InvalidParameterCount &operator=(const InvalidParameterCount &) noexcept = default;
  ~InvalidParameterCount() noexcept override = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetOperationParameters() const noexcept = 0;
  virtual ::Smp::Int32 GetRequestParameters() const noexcept = 0;
};
} // namespace Smp
#endif
