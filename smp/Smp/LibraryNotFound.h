// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_LIBRARYNOTFOUND_H_
#define SMP_LIBRARYNOTFOUND_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class LibraryNotFound : public virtual ::Smp::Exception {
public:
  LibraryNotFound() noexcept = default;
  LibraryNotFound(const LibraryNotFound &) noexcept = default;
  LibraryNotFound &operator=(const LibraryNotFound &) noexcept = default;
  ~LibraryNotFound() noexcept override = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
} // namespace Smp
#endif
