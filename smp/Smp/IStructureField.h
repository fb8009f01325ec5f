// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ISTRUCTUREFIELD_H_
#define SMP_ISTRUCTUREFIELD_H_
#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IStructureField : public virtual ::Smp::IField {
public:
  virtual ~IStructureField() noexcept = default;
  virtual const ::Smp::FieldCollection *GetFields() const = 0;
  virtual ::Smp::IField *GetField(::Smp::String8 name) const = 0;
};
} // namespace Smp
#endif
