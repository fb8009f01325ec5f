// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IOBJECT_H_
#define SMP_IOBJECT_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual ::Smp::String8 GetName() const = 0;
  virtual ::Smp::String8 GetDescription() const = 0;
  virtual ::Smp::IObject *GetParent() const = 0;
};
} // namespace Smp
#endif
