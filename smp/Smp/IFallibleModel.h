// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IFALLIBLEMODEL_H_
#define SMP_IFALLIBLEMODEL_H_
#include <Smp/IFailure.h>
#include <Smp/IModel.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IFallibleModel : public virtual ::Smp::IModel {
public:
  virtual ~IFallibleModel() noexcept = default;
  virtual ::Smp::Bool IsFailed() const = 0;
  virtual const ::Smp::FailureCollection *GetFailures() const = 0;
  virtual ::Smp::IFailure *GetFailure(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
