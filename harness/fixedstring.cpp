// Drives real Xsmp::String objects of several capacities.
#include "vh.h"
#include <Xsmp/String.h>
#include <cstring>
#include <unordered_set>
using namespace vh;
namespace {
struct Objects {
  unsigned char g0[16];
  Xsmp::String<0> a;
  unsigned char g1[16];
  Xsmp::String<1> b;
  unsigned char g2[16];
  Xsmp::String<3> c;
  unsigned char g3[16];
  Xsmp::String<3> d;
  unsigned char g4[16];
  Xsmp::String<8> e;
  unsigned char g5[16];
};
Objects *o = nullptr;
bool guards() {
  for (auto *g : {o->g0, o->g1, o->g2, o->g3, o->g4, o->g5})
    for (int i = 0; i < 16; ++i)
      if (g[i] != 0xA5)
        return false;
  return true;
}
template <class F> std::string with(const std::string &k, F f) {
  switch (k[0]) {
  case 'a':
    return f(o->a);
  case 'b':
    return f(o->b);
  case 'c':
    return f(o->c);
  case 'd':
    return f(o->d);
  default:
    return f(o->e);
  }
}
template <class F> void each(F f) {
  f("a", o->a);
  f("b", o->b);
  f("c", o->c);
  f("d", o->d);
  f("e", o->e);
}
std::string bytes(const Op &op, const char *k) {
  std::string r;
  for (auto x : op.ints(k))
    r += static_cast<char>(static_cast<unsigned char>(x));
  return r;
}
std::string all() {
  if (!guards())
    return out("overflow");
  std::string r = "{";
  bool terminated = true;
  each([&](const char *n, auto &s) {
    if (r.size() > 1)
      r += ",";
    if (std::memchr(s.internalString, 0, sizeof s.internalString) == nullptr)
      terminated = false;
    else
      r += jstr(n) + ":" + jchars(std::string(s.c_str()));
  });
  return terminated ? ok(r + "}") : out("unterminated");
}
template <size_t N> constexpr size_t cap(const Xsmp::String<N> &) { return N; }
int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
long long npos(size_t x) {
  return x == std::string_view::npos ? -1 : static_cast<long long>(x);
}
size_t posArg(long long p) {
  return p < 0 ? std::string_view::npos : static_cast<size_t>(p);
}
template <class A, class B> bool rel(const std::string &r, const A &x, const B &y) {
  if (r == "eq")
    return x == y;
  if (r == "ne")
    return x != y;
  if (r == "lt")
    return x < y;
  if (r == "le")
    return x <= y;
  if (r == "gt")
    return x > y;
  return x >= y;
}
template <class S>
size_t search(const S &s, const std::string &f, const std::string &t, size_t p,
              const std::string &how) {
#define VH_FIND(FN, DEFPOS)                                                     \
  if (f == #FN) {                                                              \
    if (how == "char" && t.size() == 1)                                        \
      return p == (DEFPOS) ? s.FN(t[0]) : s.FN(t[0], p);                       \
    if (how == "cstr")                                                         \
      return p == (DEFPOS) ? s.FN(t.c_str()) : s.FN(t.c_str(), p);             \
    if (how == "len") {                                                        \
      const std::string padded = t + "zz";                                     \
      return s.FN(padded.c_str(), p, t.size());                                \
    }                                                                          \
    return p == (DEFPOS) ? s.FN(std::string_view(t))                           \
                         : s.FN(std::string_view(t), p);                       \
  }
  VH_FIND(find, 0)
  VH_FIND(rfind, std::string_view::npos)
  VH_FIND(find_first_of, 0)
  VH_FIND(find_last_of, std::string_view::npos)
  VH_FIND(find_first_not_of, 0)
  VH_FIND(find_last_not_of, std::string_view::npos)
#undef VH_FIND
  return 0;
}
std::string exec(const Op &op) {
  const auto &n = op.name;
  const std::string k = op.s("k");
  const std::string how = op.has("how") ? op.s("how") : "";
  try {
    if (n == "assign")
      return with(k, [&](auto &s) {
        using S = std::decay_t<decltype(s)>;
        const std::string t = bytes(op, "s");
        if (how == "cstr")
          s = t.c_str();
        else if (how == "string")
          s = t;
        else if (how == "len")
          s.assign((t + "xyz").c_str(), t.size());
        else if (how == "ctor_cstr")
          s = S(t.c_str());
        else if (how == "ctor_len")
          s = S((t + "xyz").c_str(), t.size());
        else if (how == "ctor_sv") {
          s.~S();
          new (&s) S(std::string_view(t));
        } else if (how == "ctor_string") {
          s.~S();
          new (&s) S(t);
        } else if (how == "assign_cstr")
          s.assign(t.c_str());
        else
          s.assign(std::string_view(t));
        return all();
      });
    if (n == "assign_from")
      return with(k, [&](auto &s) {
        return with(op.s("j"), [&](auto &t) {
          using S = std::decay_t<decltype(s)>;
          if (how == "assign" && static_cast<const void *>(&s) !=
                                     static_cast<const void *>(&t))
            s.assign(t);
          else if (how == "ctor") {
            S x(t);
            s = x;
          } else
            s = t;
          return all();
        });
      });
    if (n == "append")
      return with(k, [&](auto &s) {
        const std::string t = bytes(op, "s");
        if (how == "plus")
          s += std::string_view(t);
        else if (how == "len")
          s.append((t + "xyz").c_str(), t.size());
        else if (how == "plus_cstr")
          s += t.c_str();
        else if (how == "plus_string")
          s += t;
        else
          s.append(std::string_view(t));
        return all();
      });
    if (n == "append_from")
      return with(k, [&](auto &s) {
        return with(op.s("j"), [&](auto &t) {
          if (how == "append")
            s.append(t);
          else
            s += t;
          return all();
        });
      });
    if (n == "push_back")
      return with(k, [&](auto &s) {
        const char c = static_cast<char>(op.i("c"));
        if (how == "plus")
          s += c;
        else
          s.push_back(c);
        return all();
      });
    if (n == "pop_back")
      return with(k, [&](auto &s) { s.pop_back(); return all(); });
    if (n == "remove_suffix")
      return with(k, [&](auto &s) { s.remove_suffix(op.i("n")); return all(); });
    if (n == "remove_prefix")
      return with(k, [&](auto &s) {
        if (static_cast<size_t>(op.i("n")) > s.size())
          return out("skipped");
        s.remove_prefix(op.i("n"));
        return all();
      });
    if (n == "clear")
      return with(k, [&](auto &s) { s.clear(); return all(); });
    if (n == "swap")
      return with(k, [&](auto &s) {
        return with(op.s("j"), [&](auto &t) {
          if constexpr (std::is_same_v<decltype(s), decltype(t)>) {
            if (how == "member")
              s.swap(t);
            else {
              using std::swap;
              swap(s, t);
            }
          }
          return all();
        });
      });
    if (n == "stream_in")
      return with(k, [&](auto &s) {
        std::istringstream is(bytes(op, "s"));
        is >> s;
        return all();
      });
    if (n == "put_at")
      return with(k, [&](auto &s) {
        s.at(static_cast<size_t>(op.i("i"))) = static_cast<char>(op.i("c"));
        return all();
      });
    if (n == "put_raw")
      return with(k, [&](auto &s) {
        const auto i = static_cast<size_t>(op.i("i"));
        const char c = static_cast<char>(op.i("c"));
        if (how == "front" && i == 0)
          s.front() = c;
        else if (how == "back" && i + 1 == s.size())
          s.back() = c;
        else if (how == "data")
          s.data()[i] = c;
        else
          s[i] = c;
        return all();
      });
    if (n == "at")
      return with(k, [&](auto &s) {
        const auto i = static_cast<size_t>(op.i("i"));
        const auto &cs = s;
        const unsigned char c = how == "const" ? cs.at(i) : s.at(i);
        if (static_cast<unsigned char>(cs[i]) != c)
          return out("index_disagrees");
        return okI(c);
      });
    if (n == "front")
      return with(k, [&](auto &s) {
        const auto &cs = s;
        return cs.front() == s.front()
                   ? okI(static_cast<unsigned char>(cs.front()))
                   : out("const_disagrees");
      });
    if (n == "back")
      return with(k, [&](auto &s) {
        const auto &cs = s;
        return cs.back() == s.back()
                   ? okI(static_cast<unsigned char>(cs.back()))
                   : out("const_disagrees");
      });
    if (n == "sizes")
      return with(k, [&](auto &s) {
        if (s.size() != s.length())
          return out("length_disagrees");
        return ok("[" + std::to_string(s.size()) + "," +
                  std::to_string(s.max_size()) + "," + (s.empty() ? "1" : "0") +
                  "]");
      });
    if (n == "content")
      return with(k, [&](auto &s) {
        const auto &cs = s;
        std::string r;
        if (how == "forward")
          r.assign(s.begin(), s.end());
        else if (how == "cforward")
          r.assign(cs.cbegin(), cs.cend());
        else if (how == "const")
          r.assign(cs.begin(), cs.end());
        else if (how == "reverse") {
          r.assign(s.rbegin(), s.rend());
          if (r != std::string(cs.rbegin(), cs.rend()) ||
              r != std::string(cs.crbegin(), cs.crend()) ||
              r != std::string(s.crbegin(), s.crend()))
            return out("reverse_disagrees");
        } else if (how == "stream") {
          std::ostringstream os;
          os << s;
          r = os.str();
        } else if (how == "data")
          r = std::string(cs.data());
        else
          r = s.c_str();
        return ok(jchars(r));
      });
    if (n == "substr")
      return with(k, [&](auto &s) {
        const auto p = static_cast<size_t>(op.i("p"));
        const long long cnt = op.i("n");
        std::string_view v =
            cnt < 0 ? s.substr(p) : s.substr(p, static_cast<size_t>(cnt));
        return ok(jchars(std::string(v)));
      });
    if (n == "search")
      return with(k, [&](auto &s) {
        return okI(npos(search(s, op.s("f"), bytes(op, "s"), posArg(op.i("p")), how)));
      });
    if (n == "compare")
      return with(k, [&](auto &s) {
        return okI(sign(s.compare(std::string_view(bytes(op, "s")))));
      });
    if (n == "compare_from")
      return with(k, [&](auto &s) {
        return with(op.s("j"), [&](auto &t) { return okI(sign(s.compare(t))); });
      });
    if (n == "rel")
      return with(k, [&](auto &s) {
        const std::string t = bytes(op, "s");
        if (how == "cstr") {
          if (op.s("r") == "le")
            return okB(s <= t.c_str());
          return okB(rel(op.s("r"), s, std::string_view(t.c_str())));
        }
        return okB(rel(op.s("r"), s, std::string_view(t)));
      });
    if (n == "rel_rev")
      return with(k, [&](auto &s) {
        const std::string t = bytes(op, "s");
        if (how == "cstr" && op.s("r") == "le")
          return okB(t.c_str() <= s);
        return okB(rel(op.s("r"), std::string_view(t), s));
      });
    if (n == "rel_from")
      return with(k, [&](auto &s) {
        return with(op.s("j"),
                    [&](auto &t) { return okB(rel(op.s("r"), s, t)); });
      });
    if (n == "concat")
      return with(k, [&](auto &s) {
        const std::string t = bytes(op, "s");
        if (how == "char" && t.size() == 1)
          return ok(jchars(s + t[0]));
        return ok(jchars(s + std::string_view(t)));
      });
    if (n == "concat_rev")
      return with(k, [&](auto &s) {
        const std::string t = bytes(op, "s");
        if (how == "char" && t.size() == 1)
          return ok(jchars(t[0] + s));
        return ok(jchars(std::string_view(t) + s));
      });
    if (n == "concat_from")
      return with(k, [&](auto &s) {
        return with(op.s("j"), [&](auto &t) { return ok(jchars(s + t)); });
      });
    if (n == "hash")
      return with(k, [&](auto &s) {
        return with(op.s("j"), [&](auto &t) {
          using S = std::decay_t<decltype(s)>;
          using T = std::decay_t<decltype(t)>;
          const bool same = std::hash<S>()(s) == std::hash<T>()(t);
          // contents decide; unequal contents may or may not collide
          return okS(s == t ? (same ? "equal" : "differ") : "any");
        });
      });
    if (n == "hash_view")
      return with(k, [&](auto &s) {
        using S = std::decay_t<decltype(s)>;
        return okB(std::hash<S>()(s) ==
                   std::hash<std::string_view>()(std::string_view(s.c_str())));
      });
  } catch (const std::out_of_range &) {
    return out("out_of_range");
  }
  return out("unknown_op");
}
} // namespace
int main() {
  return drive(
      [] {
        delete o;
        o = static_cast<Objects *>(::operator new(sizeof(Objects)));
        std::memset(static_cast<void *>(o), 0xA5, sizeof(Objects));
        each([](const char *, auto &s) {
          using S = std::decay_t<decltype(s)>;
          new (&s) S();
        });
      },
      exec);
}
