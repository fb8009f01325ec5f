// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_COLLECTIONITERATOR_H_
#define SMP_COLLECTIONITERATOR_H_
#include <cstddef>
#include <iterator>
namespace Smp {
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T *;
  using difference_type = std::ptrdiff_t;
  using pointer = T **;
  using reference = T *;
  CollectionIterator(const ICollection<T> &owner, std::size_t index)
      : _owner(&owner), _index(index) {}
  CollectionIterator(const CollectionIterator &) = default;
  CollectionIterator &operator=(const CollectionIterator &) = default;
  CollectionIterator &operator++() {
    ++_index;
    return *this;
  }
  CollectionIterator operator++(int) {
    auto tmp(*this);
    ++_index;
    return tmp;
  }
  CollectionIterator &operator--() {
    --_index;
    return *this;
  }
  CollectionIterator operator--(int) {
    auto tmp(*this);
    --_index;
    return tmp;
  }
  CollectionIterator &operator+=(difference_type n) {
    _index += n;
    return *this;
  }
  CollectionIterator &operator-=(difference_type n) {
    _index -= n;
    return *this;
  }
  CollectionIterator operator+(difference_type n) const {
    return {*_owner, _index + n};
  }
  CollectionIterator operator-(difference_type n) const {
    return {*_owner, _index - n};
  }
  difference_type operator-(const CollectionIterator &o) const {
    return static_cast<difference_type>(_index) -
           static_cast<difference_type>(o._index);
  }
  reference operator*() const { return _owner->at(_index); }
  reference operator->() const { return _owner->at(_index); }
  reference operator[](difference_type n) const {
    return _owner->at(_index + n);
  }
  bool operator==(const CollectionIterator &o) const {
    return _owner == o._owner && _index == o._index;
  }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
  bool operator<(const CollectionIterator &o) const {
    return _index < o._index;
  }
  bool operator>(const CollectionIterator &o) const {
    return _index > o._index;
  }
  bool operator<=(const CollectionIterator &o) const {
    return _index <= o._index;
  }
  bool operator>=(const CollectionIterator &o) const {
    return _index >= o._index;
  }

private:
  const ICollection<T> *_owner;
  std::size_t _index;
};
} // namespace Smp
#endif
