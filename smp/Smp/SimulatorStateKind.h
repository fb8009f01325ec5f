// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SIMULATORSTATEKIND_H_
#define SMP_SIMULATORSTATEKIND_H_
#include <Smp/PrimitiveTypes.h>
#include <iosfwd>
namespace Smp {
enum class SimulatorStateKind : ::Smp::Int32 {
  SSK_Building,
  SSK_Connecting,
  SSK_Initialising,
  SSK_Standby,
  SSK_Executing,
  SSK_Storing,
  SSK_Restoring,
  SSK_Reconnecting,
  SSK_Exiting,
  SSK_Aborting
};
::std::ostream &operator<<(::std::ostream &os, const SimulatorStateKind &obj);
} // namespace Smp
#endif
