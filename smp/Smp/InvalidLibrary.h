// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_INVALIDLIBRARY_H_
#define SMP_INVALIDLIBRARY_H_
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
namespace Smp {
class InvalidLibrary : public virtual ::Smp::Exception {
public:
  InvalidLibrary() noexcept = default;
  InvalidLibrary(const InvalidLibrary &) noexcept = default;
  InvalidLibrary &operator=(const InvalidLibrary &) noexcept = default;
  ~InvalidLibrary() noexcept override = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
} // namespace Smp
#endif
