// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IENTRYPOINTPUBLISHER_H_
#define SMP_IENTRYPOINTPUBLISHER_H_
#include <Smp/IEntryPoint.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEntryPointPublisher : public virtual ::Smp::IObject {
public:
  virtual ~IEntryPointPublisher() noexcept = default;
  virtual const ::Smp::EntryPointCollection *GetEntryPoints() const = 0;
  virtual ::Smp::IEntryPoint *GetEntryPoint(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
