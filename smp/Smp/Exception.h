// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_EXCEPTION_H_
#define SMP_EXCEPTION_H_
#include <Smp/PrimitiveTypes.h>
#include <exception>
namespace Smp {
class IObject;
}
namespace Smp {
class Exception : public std::exception {
public:
  Exception() noexcept = default;
  Exception(const Exception &) noexcept = default;
  Exception &operator=(const Exception &) noexcept = default;
  ~Exception() noexcept override = default;
  const ::Smp::Char8 *what() const noexcept override = 0;
  virtual ::Smp::String8 GetName() const noexcept = 0;
  virtual ::Smp::String8 GetDescription() const noexcept = 0;
  virtual ::Smp::String8 GetMessage() const noexcept = 0;
  virtual const ::Smp::IObject *GetSender() const noexcept = 0;
};
} // namespace Smp
#endif
