// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ANYSIMPLEARRAY_H_
#define SMP_ANYSIMPLEARRAY_H_
#include <Smp/AnySimple.h>
namespace Smp {
using AnySimpleArray = ::Smp::AnySimple *;
} // namespace Smp
#endif
