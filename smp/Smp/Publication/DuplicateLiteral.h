// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_DUPLICATELITERAL_H_
#define SMP_PUBLICATION_DUPLICATELITERAL_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp::Publication {
class DuplicateLiteral : public virtual ::Smp::Exception {
public:
  DuplicateLiteral() noexcept = default;
  DuplicateLiteral(const DuplicateLiteral &) noexcept = default;
  DuplicateLiteral &operator=(const DuplicateLiteral &) noexcept = default;
  ~DuplicateLiteral() noexcept override = default;
  virtual ::Smp::String8 GetLiteralName() const noexcept = 0;
  virtual ::Smp::Int32 GetLiteralValue() const noexcept = 0;
};
} // namespace Smp::Publication
#endif
