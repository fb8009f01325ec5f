// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IENTRYPOINT_H_
#define SMP_IENTRYPOINT_H_
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IEntryPoint : public virtual ::Smp::IObject {
public:
  virtual ~IEntryPoint() noexcept = default;
  virtual void Execute() const = 0;
};
using EntryPointCollection = ::Smp::ICollection<::Smp::IEntryPoint>;
} // namespace Smp
#endif
