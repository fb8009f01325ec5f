// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_CANNOTRESTORE_H_
#define SMP_CANNOTRESTORE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class CannotRestore : public virtual ::Smp::Exception {
public:
  CannotRestore() noexcept = default;
  CannotRestore(const CannotRestore &) noexcept = default;
  CannotRestore &operator=(const CannotRestore &) noexcept = default;
  ~CannotRestore() noexcept override = default;
};
} // namespace Smp
#endif
