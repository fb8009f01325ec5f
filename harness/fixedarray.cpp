// Drives real Xsmp::Array objects of several sizes and element types.
#include "vh.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <utility>
#include <memory>
#include <Xsmp/Array.h>
#include <Xsmp/String.h>
using namespace vh;
namespace {
template <class T> T mk(long long x) { return static_cast<T>(x); }
template <class T> long long rd(const T &x) { return static_cast<long long>(x); }
template <> std::string mk<std::string>(long long x) {
  return std::string("some long text with a number ") + std::to_string(100 + x);
}
template <> long long rd<std::string>(const std::string &x) {
  return x.empty() ? 0 : std::atoll(x.c_str() + 29) - 100;
}
template <class T> struct Objects {
  unsigned char g0[16];
  Xsmp::Array<T, 3> x;
  unsigned char g1[16];
  Xsmp::Array<T, 3> y;
  unsigned char g2[16];
  Xsmp::Array<T, 3> z;
  unsigned char g3[16];
  Xsmp::Array<T, 1> o;
  unsigned char g4[16];
  Xsmp::Array<T, 0> e;
  unsigned char g5[16];
  Xsmp::Array<T, 7, Xsmp::Annotation::simpleArray> w;
  unsigned char g6[16];
  Objects() : x{}, y{}, z{}, o{}, e{}, w{} {
    for (auto *g : {g0, g1, g2, g3, g4, g5, g6})
      std::memset(g, 0xA5, 16);
  }
  bool guards() const {
    for (auto *g : {g0, g1, g2, g3, g4, g5, g6})
      for (int i = 0; i < 16; ++i)
        if (g[i] != 0xA5)
          return false;
    return true;
  }
};
template <class C> std::string js(const C &c) {
  std::string r = "[";
  for (const auto &v : c) {
    if (r.size() > 1)
      r += ",";
    r += std::to_string(rd(v));
  }
  return r + "]";
}
struct IDriver {
  virtual ~IDriver() = default;
  virtual std::string exec(const Op &op) = 0;
};
template <class T> struct Driver : IDriver {
  std::unique_ptr<Objects<T>> p = std::make_unique<Objects<T>>();
  template <class F> std::string with(const std::string &k, F f) {
    switch (k[0]) {
    case 'x':
      return f(p->x);
    case 'y':
      return f(p->y);
    case 'z':
      return f(p->z);
    case 'o':
      return f(p->o);
    case 'e':
      return f(p->e);
    default:
      return f(p->w);
    }
  }
  std::string all() {
    if (!p->guards())
      return out("overflow");
    return ok("{\"x\":" + js(p->x) + ",\"y\":" + js(p->y) + ",\"z\":" +
              js(p->z) + ",\"o\":" + js(p->o) + ",\"e\":" + js(p->e) +
              ",\"w\":" + js(p->w) + "}");
  }
  template <class A> static bool rel(const std::string &r, const A &a, const A &b) {
    if (r == "eq")
      return a == b;
    if (r == "ne")
      return a != b;
    if (r == "lt")
      return a < b;
    if (r == "le")
      return a <= b;
    if (r == "gt")
      return a > b;
    return a >= b;
  }
  std::string exec(const Op &op) override {
    const auto &n = op.name;
    const std::string k = op.s("k");
    const std::string how = op.has("how") ? op.s("how") : "";
    try {
      if (n == "fill")
        return with(k, [&](auto &a) {
          a.fill(mk<T>(op.i("x")));
          return all();
        });
      if (n == "build")
        return with(k, [&](auto &a) {
          const auto s = op.ints("s");
          auto v = [&](size_t i) { return mk<T>(s[i]); };
          using A = std::decay_t<decltype(a)>;
          constexpr size_t N = sizeof(A) / sizeof(T);
          if constexpr (std::is_same_v<A, Xsmp::Array<T, 0>>) {
            a = A{};
          } else {
            if constexpr (N >= 3)
              if (s.size() == 3) {
                a = A{v(0), v(1), v(2)};
                return all();
              }
            if constexpr (N >= 2)
              if (s.size() == 2) {
                a = A{v(0), v(1)};
                return all();
              }
            if (s.size() == 1)
              a = A{v(0)};
            else
              a = A{};
          }
          return all();
        });
      if (n == "put_at")
        return with(k, [&](auto &a) {
          a.at(static_cast<size_t>(op.i("i"))) = mk<T>(op.i("x"));
          return all();
        });
      if (n == "put_raw")
        return with(k, [&](auto &a) {
          const auto i = static_cast<size_t>(op.i("i"));
          if (i >= a.size())
            return out("skipped");
          const T v = mk<T>(op.i("x"));
          if (how == "front" && i == 0)
            a.front() = v;
          else if (how == "back" && i + 1 == a.size())
            a.back() = v;
          else if (how == "data")
            a.data()[i] = v;
          else if (how == "begin")
            *(a.begin() + i) = v;
          else if (how == "end")
            *(a.end() - (a.size() - i)) = v;
          else if (how == "rbegin")
            *(a.rbegin() + (a.size() - 1 - i)) = v;
          else if (how == "rend")
            *(a.rend() - (i + 1)) = v;
          else
            a[i] = v;
          return all();
        });
      if (n == "at")
        return with(k, [&](auto &a) {
          const auto i = static_cast<size_t>(op.i("i"));
          const auto &c = a;
          return okI(rd(how == "const" ? c.at(i) : a.at(i)));
        });
      if (n == "get")
        return with(k, [&](auto &a) {
          const auto i = static_cast<size_t>(op.i("i"));
          if (i >= a.size())
            return out("skipped");
          const auto &c = a;
          if (how == "front" && i == 0)
            return c.front() == a.front() ? okI(rd(c.front())) : out("const");
          if (how == "back" && i + 1 == a.size())
            return c.back() == a.back() ? okI(rd(c.back())) : out("const");
          if (how == "data")
            return c.data() == a.data() ? okI(rd(c.data()[i])) : out("const");
          return &c[i] == &a[i] ? okI(rd(c[i])) : out("const");
        });
      if (n == "content")
        return with(k, [&](auto &a) {
          const auto &c = a;
          if (how == "reverse") {
            std::vector<T> v(a.rbegin(), a.rend());
            if (v != std::vector<T>(c.rbegin(), c.rend()) ||
                v != std::vector<T>(c.crbegin(), c.crend()))
              return out("reverse_disagrees");
            return ok(js(v));
          }
          std::vector<T> v(a.begin(), a.end());
          if (v != std::vector<T>(c.begin(), c.end()) ||
              v != std::vector<T>(c.cbegin(), c.cend()) ||
              static_cast<size_t>(std::distance(a.begin(), a.end())) != a.size())
            return out("forward_disagrees");
          return ok(js(v));
        });
      if (n == "sizes")
        return with(k, [&](auto &a) {
          return ok("[" + std::to_string(a.size()) + "," +
                    std::to_string(a.max_size()) + "," + (a.empty() ? "1" : "0") +
                    "]");
        });
      if (n == "copy")
        return with(k, [&](auto &a) {
          return with(op.s("j"), [&](auto &b) {
            if constexpr (std::is_same_v<decltype(a), decltype(b)>) {
              if (how == "move" && &a != &b) {
                auto t = b;
                a = std::move(t);
              } else if (how == "ctor") {
                std::decay_t<decltype(a)> t(b);
                a = t;
              } else
                a = b;
              return all();
            } else
              return out("skipped");
          });
        });
      if (n == "swap")
        return with(k, [&](auto &a) {
          return with(op.s("j"), [&](auto &b) {
            if constexpr (std::is_same_v<decltype(a), decltype(b)>) {
              if (how == "free") {
                using std::swap;
                swap(a, b);
              } else if (&a != &b)
                a.swap(b);
              return all();
            } else
              return out("skipped");
          });
        });
      if (n == "rel")
        return with(k, [&](auto &a) {
          return with(op.s("j"), [&](auto &b) {
            if constexpr (std::is_same_v<decltype(a), decltype(b)>)
              return okB(rel(op.s("r"), a, b));
            else
              return out("skipped");
          });
        });
    } catch (const std::out_of_range &) {
      return out("out_of_range");
    }
    return out("unknown_op");
  }
};
std::unique_ptr<IDriver> d;
} // namespace
int main(int, char **argv) {
  const std::string t = argv[1];
  return drive(
      [&] {
        if (t == "int")
          d = std::make_unique<Driver<int>>();
        else if (t == "double")
          d = std::make_unique<Driver<double>>();
        else if (t == "char")
          d = std::make_unique<Driver<signed char>>();
        else if (t == "bool")
          d = std::make_unique<Driver<bool>>();
        else
          d = std::make_unique<Driver<std::string>>();
      },
      [](const Op &o) { return d->exec(o); });
}
