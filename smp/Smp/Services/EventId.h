// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_SERVICES_EVENTID_H_
#define SMP_SERVICES_EVENTID_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp::Services {
using EventId = ::Smp::Int64;
} // namespace Smp::Services
#endif
