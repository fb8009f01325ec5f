// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_TYPEALREADYREGISTERED_H_
#define SMP_PUBLICATION_TYPEALREADYREGISTERED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
namespace Publication {
class IType;
}
}
namespace Smp::Publication {
class TypeAlreadyRegistered : public virtual ::Smp::Exception {
public:
  TypeAlreadyRegistered() noexcept = default;
  TypeAlreadyRegistered(const TypeAlreadyRegistered &) noexcept = default;
  TypeAlreadyRegistered &operator=(const TypeAlreadyRegistered &) noexcept = default;
  ~TypeAlreadyRegistered() noexcept override = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual const ::Smp::Publication::IType *GetType() const noexcept = 0;
};
} // namespace Smp::Publication
#endif
