// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ICOLLECTION_H_
#define SMP_ICOLLECTION_H_
#include <Smp/CollectionIterator.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <cstddef>
namespace Smp {
template <typename T> class ICollection : public virtual ::Smp::IObject {
public:
  using const_iterator = CollectionIterator<T>;
  using iterator = CollectionIterator<T>;
  virtual ~ICollection() noexcept = default;
  virtual T *at(::Smp::String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
} // namespace Smp
#endif
