// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ICOMPOSITE_H_
#define SMP_ICOMPOSITE_H_
#include <Smp/IContainer.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IComposite : public virtual ::Smp::IObject {
public:
  virtual ~IComposite() noexcept = default;
  virtual const ::Smp::ContainerCollection *GetContainers() const = 0;
  virtual ::Smp::IContainer *GetContainer(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
