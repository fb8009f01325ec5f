// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_VIEWKIND_H_
#define SMP_VIEWKIND_H_
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class ViewKind : ::Smp::Int32 {
  VK_None,
  VK_Debug,
  VK_Expert,
  VK_All
};
::std::ostream &operator<<(::std::ostream &os, const ViewKind &obj);
} // namespace Smp
#endif
