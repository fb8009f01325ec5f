// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_CANNOTDELETE_H_
#define SMP_CANNOTDELETE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class CannotDelete : public virtual ::Smp::Exception {
public:
  CannotDelete() noexcept = default;
  CannotDelete(const CannotDelete &) noexcept = default;
  CannotDelete &operator=(const CannotDelete &) noexcept = default;
  ~CannotDelete() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
} // namespace Smp
#endif
