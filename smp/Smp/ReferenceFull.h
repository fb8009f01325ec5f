// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_REFERENCEFULL_H_
#define SMP_REFERENCEFULL_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class ReferenceFull : public virtual ::Smp::Exception {
public:
  ReferenceFull() noexcept = default;
  ReferenceFull(const ReferenceFull &) noexcept = default;
  ReferenceFull &operator=(const ReferenceFull &) noexcept = default;
  ~ReferenceFull() noexcept override = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::Int64 GetReferenceSize() const noexcept = 0;
};
} // namespace Smp
#endif
