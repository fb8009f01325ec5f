// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_COMPONENTSTATEKIND_H_
#define SMP_COMPONENTSTATEKIND_H_
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class ComponentStateKind : ::Smp::Int32 {
  CSK_Created,
  CSK_Publishing,
  CSK_Configured,
  CSK_Connected,
  CSK_Disconnected
};
::std::ostream &operator<<(::std::ostream &os, const ComponentStateKind &obj);
} // namespace Smp
#endif
