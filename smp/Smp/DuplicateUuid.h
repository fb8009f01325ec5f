// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_DUPLICATEUUID_H_
#define SMP_DUPLICATEUUID_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class DuplicateUuid : public virtual ::Smp::Exception {
public:
  DuplicateUuid() noexcept = default;
  DuplicateUuid(const DuplicateUuid &) noexcept = default;
  DuplicateUuid &operator=(const DuplicateUuid &) noexcept = default;
  ~DuplicateUuid() noexcept override = default;
  virtual ::Smp::String8 GetOldName() const noexcept = 0;
  virtual ::Smp::String8 GetNewName() const noexcept = 0;
};
} // namespace Smp
#endif
