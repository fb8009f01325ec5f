// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_FIELDALREADYCONNECTED_H_
#define SMP_FIELDALREADYCONNECTED_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IDataflowField;
class IField;
}
namespace Smp {
class FieldAlreadyConnected : public virtual ::Smp::Exception {
public:
  FieldAlreadyConnected() noexcept = default;
  FieldAlreadyConnected(const FieldAlreadyConnected &) noexcept = default;
  FieldAlreadyConnected &operator=(const FieldAlreadyConnected &) noexcept = default;
  ~FieldAlreadyConnected() noexcept override = default;
  virtual const ::Smp::IDataflowField *GetSource() const noexcept = 0;
  virtual const ::Smp::IField *GetTarget() const noexcept = 0;
};
} // namespace Smp
#endif
