// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IDYNAMICINVOCATION_H_
#define SMP_IDYNAMICINVOCATION_H_
#include <Smp/IComponent.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IRequest;
}
namespace Smp {
class IDynamicInvocation : public virtual ::Smp::IComponent {
public:
  virtual ~IDynamicInvocation() noexcept = default;
  virtual ::Smp::IRequest *CreateRequest(::Smp::String8 operationName) = 0;
  virtual void Invoke(::Smp::IRequest *request) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
  virtual const ::Smp::PropertyCollection *GetProperties() const = 0;
  virtual const ::Smp::OperationCollection *GetOperations() const = 0;
};
} // namespace Smp
#endif
