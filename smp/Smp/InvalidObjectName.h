// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDOBJECTNAME_H_
#define SMP_INVALIDOBJECTNAME_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidObjectName : public virtual ::Smp::Exception {
public:
  InvalidObjectName() noexcept = default;
  InvalidObjectName(const InvalidObjectName &) noexcept = default;
  InvalidObjectName &operator=(const InvalidObjectName &) noexcept = default;
  ~InvalidObjectName() noexcept override = default;
  virtual ::Smp::String8 GetInvalidName() const noexcept = 0;
};
} // namespace Smp
#endif
