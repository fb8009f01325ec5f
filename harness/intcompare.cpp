// Drives the integer comparisons of Smp::utility for every pair of types.
#include "vh.h"
#include <Smp/utility.h>
#include <cstdint>
using namespace vh;
namespace {
std::vector<std::string> table; // rank (from 1) -> decimal value
template <class T> T val(long long rank) {
  const auto &s = table.at(rank - 1);
  if constexpr (std::is_signed_v<T>)
    return static_cast<T>(std::strtoll(s.c_str(), nullptr, 10));
  else
    return static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
}
template <class F> std::string byType(const std::string &t, F f) {
  if (t == "i8")
    return f(std::int8_t{});
  if (t == "u8")
    return f(std::uint8_t{});
  if (t == "i16")
    return f(std::int16_t{});
  if (t == "u16")
    return f(std::uint16_t{});
  if (t == "i32")
    return f(std::int32_t{});
  if (t == "u32")
    return f(std::uint32_t{});
  if (t == "i64")
    return f(std::int64_t{});
  if (t == "u64")
    return f(std::uint64_t{});
  if (t == "ll")
    return f((long long)0);
  return f((unsigned long long)0);
}
template <class A, class B> bool cmp(const std::string &f, A a, B b) {
  namespace u = Smp::utility;
  if (f == "equal")
    return u::cmp_equal(a, b);
  if (f == "not_equal")
    return u::cmp_not_equal(a, b);
  if (f == "less")
    return u::cmp_less(a, b);
  if (f == "less_equal")
    return u::cmp_less_equal(a, b);
  if (f == "greater")
    return u::cmp_greater(a, b);
  return u::cmp_greater_equal(a, b);
}
std::string exec(const Op &op) {
  return byType(op.s("t"), [&](auto t) {
    using T = decltype(t);
    const T x = val<T>(op.i("x"));
    std::vector<int> r;
    if (op.name == "compare")
      return byType(op.s("u"), [&](auto u) {
        using U = decltype(u);
        for (auto y : op.ints("ys"))
          r.push_back(cmp(op.s("f"), x, val<U>(y)));
        return ok(jints(r));
      });
    for (const auto &n : op.strs("us"))
      byType(n, [&](auto u) {
        r.push_back(Smp::utility::in_range<decltype(u)>(x));
        return std::string();
      });
    return ok(jints(r));
  });
}
} // namespace
int main(int, char **argv) {
  std::istringstream is(argv[1]);
  for (std::string s; std::getline(is, s, ',');)
    table.push_back(s);
  return drive([] {}, exec);
}
