// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDOBJECTTYPE_H_
#define SMP_INVALIDOBJECTTYPE_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IObject;
}
namespace Smp {
class InvalidObjectType : public virtual ::Smp::Exception {
public:
  InvalidObjectType() noexcept = default;
  InvalidObjectType(const InvalidObjectType &) noexcept = default;
  InvalidObjectType &operator=(const InvalidObjectType &) noexcept = default;
  ~InvalidObjectType() noexcept override = default;
  virtual ::Smp::IObject *GetInvalidObject() const noexcept = 0;
};
} // namespace Smp
#endif
