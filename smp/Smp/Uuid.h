// Interface declarations reconstructed from the public ECSS-E-ST-40-07C (SMP)
// standard, for building /repo offline.  Only declarations that the standard
// prescribes; no behaviour lives here.
#ifndef SMP_UUID_H_
#define SMP_UUID_H_
#include <Smp/PrimitiveTypes.h>
#include <array>
#include <cstddef>
#include <functional>
#include <iosfwd>
namespace Smp {
struct Uuid {
  ::Smp::UInt32 Data1;
  std::array<::Smp::UInt16, 3> Data2;
  std::array<::Smp::UInt8, 6> Data3;
  constexpr Uuid() : Data1{}, Data2{}, Data3{} {}
  constexpr Uuid(::Smp::UInt32 d1, const std::array<::Smp::UInt16, 3> &d2,
                 const std::array<::Smp::UInt8, 6> &d3)
      : Data1{d1}, Data2(d2), Data3(d3) {}
  constexpr Uuid(::Smp::UInt32 d1, ::Smp::UInt16 d2, ::Smp::UInt16 d3,
                 ::Smp::UInt16 d4, ::Smp::UInt64 d5)
      : Data1{d1}, Data2{{d2, d3, d4}},
        Data3{{static_cast<::Smp::UInt8>((d5 >> 40U) & 0xFFU),
               static_cast<::Smp::UInt8>((d5 >> 32U) & 0xFFU),
               static_cast<::Smp::UInt8>((d5 >> 24U) & 0xFFU),
               static_cast<::Smp::UInt8>((d5 >> 16U) & 0xFFU),
               static_cast<::Smp::UInt8>((d5 >> 8U) & 0xFFU),
               static_cast<::Smp::UInt8>(d5 & 0xFFU)}} {}
  Uuid(const char *value);
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
::std::ostream &operator<<(::std::ostream &os, const Uuid &uuid);
namespace Uuids {
inline constexpr ::Smp::Uuid Uuid_Char8{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x00}}};
inline constexpr ::Smp::Uuid Uuid_Bool{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x01}}};
inline constexpr ::Smp::Uuid Uuid_Int8{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x02}}};
inline constexpr ::Smp::Uuid Uuid_UInt8{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x03}}};
inline constexpr ::Smp::Uuid Uuid_Int16{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x04}}};
inline constexpr ::Smp::Uuid Uuid_UInt16{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x05}}};
inline constexpr ::Smp::Uuid Uuid_Int32{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x06}}};
inline constexpr ::Smp::Uuid Uuid_UInt32{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x07}}};
inline constexpr ::Smp::Uuid Uuid_Int64{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x08}}};
inline constexpr ::Smp::Uuid Uuid_UInt64{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x09}}};
inline constexpr ::Smp::Uuid Uuid_Float32{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x0a}}};
inline constexpr ::Smp::Uuid Uuid_Float64{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x0b}}};
inline constexpr ::Smp::Uuid Uuid_Duration{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x0c}}};
inline constexpr ::Smp::Uuid Uuid_DateTime{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x0d}}};
inline constexpr ::Smp::Uuid Uuid_String8{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x0e}}};
inline constexpr ::Smp::Uuid Uuid_PrimitiveTypeKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x0f}}};
inline constexpr ::Smp::Uuid Uuid_Void{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x10}}};
inline constexpr ::Smp::Uuid Uuid_Uuid{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x11}}};
inline constexpr ::Smp::Uuid Uuid_AccessKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x12}}};
inline constexpr ::Smp::Uuid Uuid_ComponentStateKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x13}}};
inline constexpr ::Smp::Uuid Uuid_SimulatorStateKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x14}}};
inline constexpr ::Smp::Uuid Uuid_ViewKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x15}}};
inline constexpr ::Smp::Uuid Uuid_TimeKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x16}}};
inline constexpr ::Smp::Uuid Uuid_ParameterDirectionKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x17}}};
inline constexpr ::Smp::Uuid Uuid_EventId{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x18}}};
inline constexpr ::Smp::Uuid Uuid_LogMessageKind{0x5a5a0000u, {{0x0001, 0x11e0, 0x8000}}, {{0x53, 0x4d, 0x50, 0x00, 0x00, 0x19}}};
} // namespace Uuids
} // namespace Smp
namespace std {
template <> struct hash<::Smp::Uuid> {
  size_t operator()(const ::Smp::Uuid &uuid) const;
};
} // namespace std
#endif
