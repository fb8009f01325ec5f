// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IDATAFLOWFIELD_H_
#define SMP_IDATAFLOWFIELD_H_
#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IDataflowField : public virtual ::Smp::IField {
public:
  virtual ~IDataflowField() noexcept = default;
  virtual void Connect(::Smp::IField *target) = 0;
  virtual void Push() = 0;
};
} // namespace Smp
#endif
