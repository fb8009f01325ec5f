// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_ILINKREGISTRY_H_
#define SMP_SERVICES_ILINKREGISTRY_H_
#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class ILinkRegistry : public virtual ::Smp::IService {
public:
  virtual ~ILinkRegistry() noexcept = default;
  virtual void AddLink(::Smp::IComponent *source, const ::Smp::IComponent *target) = 0;
  virtual ::Smp::UInt32 GetLinkCount(const ::Smp::IComponent *source, const ::Smp::IComponent *target) const = 0;
  virtual ::Smp::Bool RemoveLink(::Smp::IComponent *source, const ::Smp::IComponent *target) = 0;
  virtual const ::Smp::ComponentCollection *GetLinkSources(const ::Smp::IComponent *target) const = 0;
  virtual ::Smp::Bool CanRemove(const ::Smp::IComponent *target) = 0;
  virtual void RemoveLinks(const ::Smp::IComponent *target) = 0;
};
} // namespace Smp::Services
#endif
