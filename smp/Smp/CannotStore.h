// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_CANNOTSTORE_H_
#define SMP_CANNOTSTORE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class CannotStore : public virtual ::Smp::Exception {
public:
  CannotStore() noexcept = default;
  CannotStore(const CannotStore &) noexcept = default;
  CannotStore &operator=(const CannotStore &) noexcept = default;
  ~CannotStore() noexcept override = default;
};
} // namespace Smp
#endif
