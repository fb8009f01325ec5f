// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_IRESOLVER_H_
#define SMP_SERVICES_IRESOLVER_H_
#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
class IResolver : public virtual ::Smp::IService {
public:
  virtual ~IResolver() noexcept = default;
  virtual ::Smp::IObject *ResolveAbsolute(::Smp::String8 absolutePath) = 0;
  virtual ::Smp::IObject *ResolveRelative(::Smp::String8 relativePath, const ::Smp::IComponent *sender) = 0;
};
} // namespace Smp::Services
#endif
