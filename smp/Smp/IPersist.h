// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_IPERSIST_H_
#define SMP_IPERSIST_H_
#include <Smp/IObject.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IStorageReader;
class IStorageWriter;
}
namespace Smp {
class IPersist : public virtual ::Smp::IObject {
public:
  virtual ~IPersist() noexcept = default;
  virtual void Restore(::Smp::IStorageReader *reader) = 0;
  virtual void Store(::Smp::IStorageWriter *writer) = 0;
};
} // namespace Smp
#endif
