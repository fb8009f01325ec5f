// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IMODEL_H_
#define SMP_IMODEL_H_
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IModel : public virtual ::Smp::IComponent {
public:
  virtual ~IModel() noexcept = default;
};
using ModelCollection = ::Smp::ICollection<::Smp::IModel>;
} // namespace Smp
#endif
