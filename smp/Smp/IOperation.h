// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IOPERATION_H_
#define SMP_IOPERATION_H_
#include <Smp/IObject.h>
#include <Smp/IParameter.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>
namespace Smp {
class IRequest;
}
namespace Smp {
class IOperation : public virtual ::Smp::IObject {
public:
  virtual ~IOperation() noexcept = default;
  virtual const ::Smp::ParameterCollection *GetParameters() const = 0;
  virtual ::Smp::IParameter *GetParameter(::Smp::String8 name) const = 0;
  virtual ::Smp::IParameter *GetReturnParameter() const = 0;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::IRequest *CreateRequest() = 0;
  virtual void Invoke(::Smp::IRequest *request) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
};
using OperationCollection = ::Smp::ICollection<::Smp::IOperation>;
} // namespace Smp
#endif
