// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_NOTREFERENCED_H_
#define SMP_NOTREFERENCED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IComponent;
}
namespace Smp {
class NotReferenced : public virtual ::Smp::Exception {
public:
  NotReferenced() noexcept = default;
  NotReferenced(const NotReferenced &) noexcept = default;
  NotReferenced &operator=(const NotReferenced &) noexcept = default;
  ~NotReferenced() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent *GetComponent() const noexcept = 0;
};
} // namespace Smp
#endif
