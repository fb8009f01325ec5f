// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_CANNOTREMOVE_H_
#define SMP_CANNOTREMOVE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class CannotRemove : public virtual ::Smp::Exception {
public:
  CannotRemove() noexcept = default;
  CannotRemove(const CannotRemove &) noexcept = default;
  CannotRemove &operator=(const CannotRemove &) noexcept = default;
  ~CannotRemove() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
} // namespace Smp
#endif
