// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_NOTCONTAINED_H_
#define SMP_NOTCONTAINED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class NotContained : public virtual ::Smp::Exception {
public:
  NotContained() noexcept = default;
  NotContained(const NotContained &) noexcept = default;
  NotContained &operator=(const NotContained &) noexcept = default;
  ~NotContained() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
};
} // namespace Smp
#endif
