// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_DUPLICATENAME_H_
#define SMP_DUPLICATENAME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class DuplicateName : public virtual ::Smp::Exception {
public:
  DuplicateName() noexcept = default;
  DuplicateName(const DuplicateName &) noexcept = default;
  DuplicateName &operator=(const DuplicateName &) noexcept = default;
  ~DuplicateName() noexcept override = default;
  virtual ::Smp::String8 GetDuplicateName() const noexcept = 0;
};
} // namespace Smp
#endif
