// C07: values of any simple type.
#include "smp.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <cmath>
#include <limits>
#include <utility>
using Smp::AnySimple;
using Kind = Smp::PrimitiveTypeKind;
static std::map<std::string, AnySimple> vars;
static const std::vector<std::pair<std::string, Kind>> kinds = {
    {"None", Kind::PTK_None},         {"Bool", Kind::PTK_Bool},
    {"Char8", Kind::PTK_Char8},       {"String8", Kind::PTK_String8},
    {"Int8", Kind::PTK_Int8},         {"Int16", Kind::PTK_Int16},
    {"Int32", Kind::PTK_Int32},       {"Int64", Kind::PTK_Int64},
    {"UInt8", Kind::PTK_UInt8},       {"UInt16", Kind::PTK_UInt16},
    {"UInt32", Kind::PTK_UInt32},     {"UInt64", Kind::PTK_UInt64},
    {"Float32", Kind::PTK_Float32},   {"Float64", Kind::PTK_Float64},
    {"Duration", Kind::PTK_Duration}, {"DateTime", Kind::PTK_DateTime}};
static Kind kind(const std::string &n) {
  for (auto &k : kinds)
    if (k.first == n)
      return k.second;
  std::abort();
}
static std::string name(Kind k) {
  for (auto &x : kinds)
    if (x.second == k)
      return x.first;
  return "?";
}
using Code = std::vector<long long>;
static Code code(bool b) { return {1, b}; }
static Code code(char c) { return {2, static_cast<unsigned char>(c)}; }
static Code code(const char *s) {
  if (!s)
    return {4};
  Code r{3};
  for (; *s; ++s)
    r.push_back(static_cast<unsigned char>(*s));
  return r;
}
static Code bits(bool neg, unsigned long long m) {
  Code r{5, neg};
  for (int i = 0; i < 64; ++i)
    if (m >> i & 1)
      r.push_back(i);
  return r;
}
template <class T>
static std::enable_if_t<std::is_integral_v<T>, Code> code(T x) {
  using U = std::make_unsigned_t<T>;
  return x < 0 ? bits(true, static_cast<U>(-static_cast<U>(x)))
               : bits(false, static_cast<U>(x));
}
static Code code(double x) {
  if (std::isnan(x))
    return {6};
  if (std::isinf(x))
    return {7, x < 0};
  int e;
  const double f = std::frexp(std::fabs(x), &e);
  Code r{5, x < 0};
  const auto m = static_cast<unsigned long long>(std::ldexp(f, 53));
  for (int i = 0; i < 53; ++i)
    if (m >> i & 1)
      r.push_back(i + e - 53);
  return r;
}
static Code code(float x) { return code(static_cast<double>(x)); }
static std::string txt(const Code &c) {
  std::string s = "[";
  for (auto i : c)
    s += (s.size() > 1 ? "," : "") + std::to_string(i);
  return s + "]";
}
static std::string okC(const Code &c) { return vh::out("ok", txt(c)); }
// what a variable holds, without any conversion
static Code held(const AnySimple &a) {
  switch (a.type) {
  case Kind::PTK_None:
    return {0};
  case Kind::PTK_Bool:
    return code(a.value.boolValue);
  case Kind::PTK_Char8:
    return code(a.value.char8Value);
  case Kind::PTK_String8:
    return code(a.value.string8Value);
  case Kind::PTK_Int8:
    return code(a.value.int8Value);
  case Kind::PTK_Int16:
    return code(a.value.int16Value);
  case Kind::PTK_Int32:
    return code(a.value.int32Value);
  case Kind::PTK_Int64:
    return code(a.value.int64Value);
  case Kind::PTK_UInt8:
    return code(a.value.uInt8Value);
  case Kind::PTK_UInt16:
    return code(a.value.uInt16Value);
  case Kind::PTK_UInt32:
    return code(a.value.uInt32Value);
  case Kind::PTK_UInt64:
    return code(a.value.uInt64Value);
  case Kind::PTK_Float32:
    return code(a.value.float32Value);
  case Kind::PTK_Float64:
    return code(a.value.float64Value);
  case Kind::PTK_Duration:
    return code(a.value.durationValue);
  case Kind::PTK_DateTime:
    return code(a.value.dateTimeValue);
  }
  return {-1};
}
template <class T> static T value(const Code &c) {
  if constexpr (std::is_floating_point_v<T>) {
    if (c[0] == 6)
      return std::numeric_limits<T>::quiet_NaN();
    if (c[0] == 7)
      return c[1] ? -std::numeric_limits<T>::infinity()
                  : std::numeric_limits<T>::infinity();
    double r = 0;
    for (size_t i = 2; i < c.size(); ++i)
      r += std::ldexp(1., static_cast<int>(c[i]));
    return static_cast<T>(c[1] ? -r : r);
  } else {
    unsigned long long m = 0;
    for (size_t i = 2; i < c.size(); ++i)
      m |= 1ULL << c[i];
    return static_cast<T>(c[1] ? -m : m);
  }
}
// f(a value of C++ type s)
template <class F>
static void with(const std::string &s, const Code &c, F &&f) {
  if (s == "Bool")
    return f(static_cast<Smp::Bool>(c[1] != 0));
  if (s == "Char8")
    return f(static_cast<Smp::Char8>(c[1]));
  if (s == "String8") {
    if (c[0] == 4)
      return f(static_cast<Smp::String8>(nullptr));
    std::vector<char> t;
    for (size_t i = 1; i < c.size(); ++i)
      t.push_back(static_cast<char>(c[i]));
    t.push_back('\0');
    t.shrink_to_fit();
    f(static_cast<Smp::String8>(t.data()));
    // the text was copied
    for (auto &x : t)
      x = '#';
    return;
  }
  if (s == "Int8")
    return f(value<Smp::Int8>(c));
  if (s == "Int16")
    return f(value<Smp::Int16>(c));
  if (s == "Int32")
    return f(value<Smp::Int32>(c));
  if (s == "Int64")
    return f(value<Smp::Int64>(c));
  if (s == "UInt8")
    return f(value<Smp::UInt8>(c));
  if (s == "UInt16")
    return f(value<Smp::UInt16>(c));
  if (s == "UInt32")
    return f(value<Smp::UInt32>(c));
  if (s == "UInt64")
    return f(value<Smp::UInt64>(c));
  if (s == "Float32")
    return f(value<Smp::Float32>(c));
  return f(value<Smp::Float64>(c));
}
template <class T> static Code as(const AnySimple &a) {
  return code(static_cast<T>(a));
}
static Code get(const std::string &t, const AnySimple &a) {
  return t == "Bool"      ? as<Smp::Bool>(a)
         : t == "Char8"   ? as<Smp::Char8>(a)
         : t == "String8" ? as<Smp::String8>(a)
         : t == "Int8"    ? as<Smp::Int8>(a)
         : t == "Int16"   ? as<Smp::Int16>(a)
         : t == "Int32"   ? as<Smp::Int32>(a)
         : t == "Int64"   ? as<Smp::Int64>(a)
         : t == "UInt8"   ? as<Smp::UInt8>(a)
         : t == "UInt16"  ? as<Smp::UInt16>(a)
         : t == "UInt32"  ? as<Smp::UInt32>(a)
         : t == "UInt64"  ? as<Smp::UInt64>(a)
         : t == "Float32" ? as<Smp::Float32>(a)
                          : as<Smp::Float64>(a);
}
// the error: the kind that was given and the one it should have been
static std::string told(const Smp::InvalidAnyType &t) {
  return std::string(t.GetName()) + " " + name(t.GetInvalidType()) + " for " +
         name(t.GetExpectedType());
}
static void reset() { vars = {{"a", {}}, {"b", {}}, {"c", {}}}; }
static std::string run(const vh::Op &o) {
  const auto &n = o.name;
  auto &x = vars[o.s("x")];
  auto &y = o.has("y") ? vars[o.s("y")] : x;
  if (n == "set" || n == "make") {
    std::string e = "ok";
    with(o.s("s"), o.ints("v"), [&](auto v) {
      try {
        if (n == "set")
          x.SetValue(kind(o.s("k")), v);
        else
          x = AnySimple(kind(o.s("k")), v);
      } catch (const Smp::InvalidAnyType &t) {
        e = t.GetName();
      }
    });
    if (e == "ok" && x.GetType() != kind(o.s("k")))
      return vh::out("kind");
    return vh::out(e, txt(held(x)));
  }
  if (n == "clear") {
    x = AnySimple(kind(o.s("k")));
    return x.GetType() == kind(o.s("k")) ? okC(held(x)) : vh::out("kind");
  }
  if (n == "get") {
    try {
      return okC(get(o.s("t"), x));
    } catch (const Smp::InvalidAnyType &t) {
      return vh::out(told(t), "[]");
    }
  }
  if (n == "gets") {
    std::string r = "[";
    for (auto &t : o.strs("ts")) {
      r += r.size() > 1 ? "," : "";
      try {
        r += txt(get(t, x));
      } catch (const Smp::InvalidAnyType &) {
        r += "[]";
      }
    }
    return vh::out("ok", r + "]");
  }
  if (n == "copy") {
    if (o.s("how") == "assign") {
      const AnySimple &z = y;
      x = z;
    } else {
      AnySimple z(y);
      std::swap(x, z);
    }
    return okC(held(x));
  }
  if (n == "move") {
    if (o.s("how") == "assign")
      x = std::move(y);
    else {
      AnySimple z(std::move(y));
      x = std::move(z);
    }
    return okC(held(x));
  }
  if (n == "swap") {
    std::swap(x, y);
    return okC(held(x));
  }
  if (n == "text") {
    Smp::String8 s;
    try {
      s = static_cast<Smp::String8>(y);
    } catch (const Smp::InvalidAnyType &t) {
      return vh::out(told(t), "[]");
    }
    x.SetValue(Kind::PTK_String8, s);
    return okC(held(x));
  }
  if (n == "take") {
    try {
      const char *s = x.MoveString();
      auto r = okC(code(s));
      delete[] s;
      return r;
    } catch (const Smp::InvalidAnyType &t) {
      return vh::out(told(t), "[]");
    }
  }
  if (n == "eq") {
    const bool e = x == y;
    return e == (x != y) ? vh::out("inconsistent") : okC({e});
  }
  if (n == "show") {
    std::ostringstream s;
    s << x;
    if (!s)
      return vh::out("stream");
    auto t = s.str();
    bool plain = true;
    switch (x.GetType()) {
    case Kind::PTK_Float32:
    case Kind::PTK_Float64:
    case Kind::PTK_Duration:
    case Kind::PTK_DateTime:
      plain = false;
      break;
    default:
      break;
    }
    const auto h = held(x);
    if (h[0] == 5 && h.back() > 29 && h.size() > 2)
      plain = false;
    Code r;
    for (char ch : t)
      r.push_back(static_cast<unsigned char>(ch));
    return plain ? okC(r) : t.empty() ? vh::out("empty") : okC({});
  }
  if (n == "kind")
    return vh::out(name(x.GetType()), "[]");
  return vh::out("unknown operation");
}
int main() {
  return vh::drive(reset, [](const vh::Op &o) {
    return vm::guard([&] { return run(o); });
  });
}
