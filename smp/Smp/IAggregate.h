// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IAGGREGATE_H_
#define SMP_IAGGREGATE_H_
#include <Smp/IComponent.h>
#include <Smp/IReference.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IAggregate : public virtual ::Smp::IComponent {
public:
  virtual ~IAggregate() noexcept = default;
  virtual const ::Smp::ReferenceCollection *GetReferences() const = 0;
  virtual ::Smp::IReference *GetReference(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
