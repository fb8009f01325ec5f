// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IREQUEST_H_
#define SMP_IREQUEST_H_
#include <Smp/AnySimple.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IRequest {
public:
  virtual ~IRequest() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const = 0;
  virtual ::Smp::Int32 GetParameterCount() const = 0;
  virtual ::Smp::Int32 GetParameterIndex(::Smp::String8 parameterName) const = 0;
  virtual void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) = 0;
  virtual ::Smp::AnySimple GetParameterValue(::Smp::Int32 index) const = 0;
  virtual void SetReturnValue(::Smp::AnySimple value) = 0;
  virtual ::Smp::AnySimple GetReturnValue() const = 0;
};
} // namespace Smp
#endif
