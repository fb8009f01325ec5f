// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_TIMEKIND_H_
#define SMP_SERVICES_TIMEKIND_H_
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp::Services {
enum class TimeKind : ::Smp::Int32 {
  TK_SimulationTime,
  TK_MissionTime,
  TK_EpochTime,
  TK_ZuluTime
};
::std::ostream &operator<<(::std::ostream &os, const TimeKind &obj);
} // namespace Smp::Services
#endif
