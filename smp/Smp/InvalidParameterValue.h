// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDPARAMETERVALUE_H_
#define SMP_INVALIDPARAMETERVALUE_H_
#include <Smp/AnySimple.h>
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidParameterValue : public virtual ::Smp::Exception {
public:
  InvalidParameterValue() noexcept = default;
  InvalidParameterValue(const InvalidParameterValue &) noexcept = default;
  InvalidParameterValue &operator=(const InvalidParameterValue &) noexcept = default;
  ~InvalidParameterValue() noexcept override = default;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
} // namespace Smp
#endif
