// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ACCESSKIND_H_
#define SMP_ACCESSKIND_H_
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class AccessKind : ::Smp::Int32 {
  AK_ReadWrite,
  AK_ReadOnly,
  AK_WriteOnly
};
::std::ostream &operator<<(::std::ostream &os, const AccessKind &obj);
} // namespace Smp
#endif
