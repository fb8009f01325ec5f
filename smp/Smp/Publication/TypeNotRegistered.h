// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_TYPENOTREGISTERED_H_
#define SMP_PUBLICATION_TYPENOTREGISTERED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
namespace Smp::Publication {
class TypeNotRegistered : public virtual ::Smp::Exception {
public:
  TypeNotRegistered() noexcept = default;
  TypeNotRegistered(const TypeNotRegistered &) noexcept = default;
  TypeNotRegistered &operator=(const TypeNotRegistered &) noexcept = default;
  ~TypeNotRegistered() noexcept override = default;
  virtual ::Smp::Uuid GetUuid() const noexcept = 0;
};
} // namespace Smp::Publication
#endif
