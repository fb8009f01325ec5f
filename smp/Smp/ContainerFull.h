// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_CONTAINERFULL_H_
#define SMP_CONTAINERFULL_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class ContainerFull : public virtual ::Smp::Exception {
public:
  ContainerFull() noexcept = default;
  ContainerFull(const ContainerFull &) noexcept = default;
  ContainerFull &operator=(const ContainerFull &) noexcept = default;
  ~ContainerFull() noexcept override = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::Int64 GetContainerSize() const noexcept = 0;
};
} // namespace Smp
#endif
