// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ISERVICE_H_
#define SMP_ISERVICE_H_
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IService : public virtual ::Smp::IComponent {
public:
  virtual ~IService() noexcept = default;
};
using ServiceCollection = ::Smp::ICollection<::Smp::IService>;
} // namespace Smp
#endif
