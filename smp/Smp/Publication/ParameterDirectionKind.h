// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H_
#define SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H_
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp::Publication {
enum class ParameterDirectionKind : ::Smp::Int32 {
  PDK_In,
  PDK_Out,
  PDK_InOut,
  PDK_Return
};
::std::ostream &operator<<(::std::ostream &os, const ParameterDirectionKind &obj);
} // namespace Smp::Publication
#endif
