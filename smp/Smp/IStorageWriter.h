// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ISTORAGEWRITER_H_
#define SMP_ISTORAGEWRITER_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class IStorageWriter {
public:
  virtual ~IStorageWriter() noexcept = default;
  virtual void Store(void *address, ::Smp::UInt64 size) = 0;
  virtual ::Smp::String8 GetStateVectorFileName() const = 0;
  virtual ::Smp::String8 GetStateVectorFilePath() const = 0;
};
} // namespace Smp
#endif
