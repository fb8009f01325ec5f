// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ILINKINGCOMPONENT_H_
#define SMP_ILINKINGCOMPONENT_H_
#include <Smp/IComponent.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class ILinkingComponent : public virtual ::Smp::IComponent {
public:
  virtual ~ILinkingComponent() noexcept = default;
  virtual void RemoveLinks(const ::Smp::IComponent *target) = 0;
};
} // namespace Smp
#endif
