// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IFAILURE_H_
#define SMP_IFAILURE_H_
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IFailure : public virtual ::Smp::IPersist {
public:
  virtual ~IFailure() noexcept = default;
  virtual void Fail() = 0;
  virtual void Unfail() = 0;
  virtual ::Smp::Bool IsFailed() const = 0;
};
using FailureCollection = ::Smp::ICollection<::Smp::IFailure>;
} // namespace Smp
#endif
