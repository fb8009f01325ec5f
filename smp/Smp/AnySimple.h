// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_ANYSIMPLE_H_
#define SMP_ANYSIMPLE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>
#include <iosfwd>
namespace Smp {
class AnySimple {
public:
  AnySimple();
  AnySimple(::Smp::PrimitiveTypeKind kind);
  template <typename T>
  AnySimple(::Smp::PrimitiveTypeKind kind, T newValue) : AnySimple() {
    SetValue(kind, newValue);
  }
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);
  ~AnySimple() noexcept;
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::String8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt8 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int16 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt16 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int32 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt32 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Int64 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::UInt64 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Float32 newValue);
  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Float64 newValue);
  operator ::Smp::Bool() const;
  operator ::Smp::Char8() const;
  operator ::Smp::String8() const;
  operator ::Smp::Int8() const;
  operator ::Smp::UInt8() const;
  operator ::Smp::Int16() const;
  operator ::Smp::UInt16() const;
  operator ::Smp::Int32() const;
  operator ::Smp::UInt32() const;
  operator ::Smp::Int64() const;
  operator ::Smp::UInt64() const;
  operator ::Smp::Float32() const;
  operator ::Smp::Float64() const;

  ::Smp::String8 MoveString();
  ::Smp::PrimitiveTypeKind GetType() const noexcept;
  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;

  ::Smp::PrimitiveTypeKind type;
  union {
    ::Smp::Char8 char8Value;
    ::Smp::Bool boolValue;
    ::Smp::Int8 int8Value;
    ::Smp::UInt8 uInt8Value;
    ::Smp::Int16 int16Value;
    ::Smp::UInt16 uInt16Value;
    ::Smp::Int32 int32Value;
    ::Smp::UInt32 uInt32Value;
    ::Smp::Int64 int64Value;
    ::Smp::UInt64 uInt64Value;
    ::Smp::Float32 float32Value;
    ::Smp::Float64 float64Value;
    ::Smp::Duration durationValue;
    ::Smp::DateTime dateTimeValue;
    ::Smp::String8 string8Value;
  } value;
};
::std::ostream &operator<<(::std::ostream &os, const AnySimple &obj);
} // namespace Smp
#endif
