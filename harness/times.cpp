// C09: durations and dates.
#include "smp.h"
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <chrono>
#include <cstring>
using Xsmp::DateTime;
using Xsmp::Duration;
using namespace Xsmp::literals;
using I = __int128;
using Clock = std::chrono::system_clock;
using days = std::chrono::duration<std::int64_t, std::ratio<86400>>;
using weeks = std::chrono::duration<std::int64_t, std::ratio<604800>>;
static Duration dur;
static DateTime dat;
static const I Giga = 1000000000, DayNs = 86400 * Giga;
static void reset() {
  dur = Duration();
  dat = DateTime();
}
static std::string triple(I n) {
  I d = n / DayNs;
  if (n % DayNs < 0)
    --d;
  I r = n - d * DayNs;
  auto t = [](I x) { return std::to_string(static_cast<long long>(x)); };
  return "[" + t(d) + "," + t(r / Giga) + "," + t(r % Giga) + "]";
}
static long long ns(const std::vector<long long> &v) {
  return static_cast<long long>(v[0] * DayNs + v[1] * Giga + v[2]);
}
static std::string okT(I n) { return vh::out("ok", triple(n)); }
static long long D() { return static_cast<Smp::Duration>(dur); }
static long long T() { return static_cast<Smp::DateTime>(dat); }
// f(a duration of k units)
template <class F> static auto with(const std::string &u, long long k, F &&f) {
  if (u == "ns")
    return f(std::chrono::nanoseconds(k));
  if (u == "us")
    return f(std::chrono::microseconds(k));
  if (u == "ms")
    return f(std::chrono::milliseconds(k));
  if (u == "s")
    return f(std::chrono::seconds(k));
  if (u == "mn")
    return f(std::chrono::minutes(k));
  if (u == "h")
    return f(std::chrono::hours(k));
  if (u == "d")
    return f(days(k));
  return f(weeks(k));
}
static Duration function(const std::string &u, long long k) {
  return u == "ns"   ? Duration::nanoseconds(k)
         : u == "us" ? Duration::microseconds(k)
         : u == "ms" ? Duration::milliseconds(k)
         : u == "s"  ? Duration::seconds(k)
         : u == "mn" ? Duration::minutes(k)
         : u == "h"  ? Duration::hours(k)
         : u == "d"  ? Duration::days(k)
                     : Duration::weeks(k);
}
static Duration literal(const std::string &u, long long x) {
  const auto k = static_cast<unsigned long long>(x < 0 ? -x : x);
  auto r = u == "ns"   ? operator""_ns(k)
           : u == "us" ? operator""_us(k)
           : u == "ms" ? operator""_ms(k)
           : u == "s"  ? operator""_s(k)
           : u == "mn" ? operator""_mn(k)
           : u == "h"  ? operator""_h(k)
           : u == "d"  ? operator""_d(k)
                       : operator""_w(k);
  return x < 0 ? -r : +r;
}
template <class A, class B> static std::string rel(const A &a, const B &b) {
  const bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b,
             ne = a != b;
  if (eq == ne || lt == ge || gt == le || lt + gt + eq != 1)
    return "inconsistent";
  return lt ? "lt" : gt ? "gt" : "eq";
}
static std::string inv(const std::string &r) {
  return r == "lt" ? "gt" : r == "gt" ? "lt" : r;
}
static std::string agree(const std::string &a, const std::string &b) {
  return vh::okS(a == b ? a : a + "/" + b);
}
static bool digits(const std::string &s, size_t b, size_t n, long &v) {
  v = 0;
  if (b + n > s.size())
    return false;
  for (size_t i = b; i < b + n; ++i) {
    if (s[i] < '0' || s[i] > '9')
      return false;
    v = v * 10 + (s[i] - '0');
  }
  return true;
}
// [-]hours:mm:ss.nnnnnnnnn, with two digits or more of hours
static bool clock(const std::string &s, bool &neg, long &h, long &m, long &c,
                  long &n) {
  neg = !s.empty() && s[0] == '-';
  const auto t = neg ? s.substr(1) : s;
  const auto p = t.find(':');
  return p != std::string::npos && p >= 2 && (p == 2 || t[0] != '0') &&
         digits(t, 0, p, h) && digits(t, p + 1, 2, m) && t[p + 3] == ':' &&
         digits(t, p + 4, 2, c) && t.size() == p + 16 && t[p + 6] == '.' &&
         digits(t, p + 7, 9, n);
}
static std::string kv(const char *k, long v) {
  return std::string("\"") + k + "\":" + std::to_string(v) + ",";
}
static std::string okClock(const std::string &s) {
  bool neg;
  long h, m, c, n;
  if (!clock(s, neg, h, m, c, n))
    return vh::out("text:" + s);
  return vh::out("ok", "{" + kv("hh", h) + kv("mi", m) + kv("ss", c) +
                           kv("ns", n) + "\"neg\":" + (neg ? "true" : "false") +
                           "}");
}
static std::string okCivil(const std::string &s) {
  bool neg;
  long y, mo, d, h, m, c, n;
  if (s.size() < 12 || !digits(s, 0, 4, y) || s[4] != '-' ||
      !digits(s, 5, 2, mo) || s[7] != '-' || !digits(s, 8, 2, d) ||
      s[10] != ' ' || !clock(s.substr(11), neg, h, m, c, n) || neg)
    return vh::out("text:" + s);
  auto r = "{" + kv("y", y) + kv("m", mo) + kv("d", d) + kv("hh", h) +
           kv("mi", m) + kv("ss", c) + kv("ns", n);
  r.back() = '}';
  return vh::out("ok", r);
}
template <class X>
static std::string write(const std::string &how, const X &x, const char *fmt) {
  std::ostringstream s;
  if (how == "text")
    return x.format();
  if (how == "string")
    return x.format(std::string(fmt));
  if (how == "stream")
    x.to_stream(s);
  else if (how == "file")
    x.to_stream(s, std::string(fmt));
  else
    s << x;
  return s.str();
}
static std::string two(long n, int w = 2) {
  auto s = std::to_string(n);
  return s.size() < static_cast<size_t>(w) ? std::string(w - s.size(), '0') + s
                                           : s;
}
static std::string sec(const vh::Op &o) {
  auto s = two(o.i("hh")) + ":" + two(o.i("mi")) + ":" + two(o.i("ss"));
  if (auto n = o.i("ns"); n != 0) {
    s += "." + two(n, 9);
    while (s.back() == '0')
      s.pop_back();
  }
  return s;
}
static std::string exec(const vh::Op &o) {
  const auto &n = o.name;
  const auto how = o.has("how") ? o.s("how") : std::string();
  const auto u = o.has("u") ? o.s("u") : std::string();
  const auto k = o.has("k") ? o.i("k") : 0;
  const auto a = o.has("a") ? ns(o.ints("a")) : 0;
  const vh::Op c = o.has("c") ? o.ops("c")[0] : o;
  const Duration cd = dur;
  const DateTime ct = dat;
  if (n == "dset") {
    if (how == "made")
      dur = Duration(Smp::Duration{a});
    else if (how == "number")
      dur = Smp::Duration{a};
    else if (how == "chrono")
      dur = std::chrono::nanoseconds(a);
    else
      dur = Duration(std::chrono::nanoseconds(a));
    return okT(D());
  }
  if (n == "dmade") {
    if (how == "function")
      dur = function(u, k);
    else if (how == "literal")
      dur = literal(u, k);
    else if (how == "chrono")
      dur = with(u, k, [](auto x) { return Duration(x); });
    else
      with(u, k, [](auto x) { dur = x; });
    return okT(D());
  }
  if (n == "dadd") {
    auto &r = (dur += Smp::Duration{a});
    return &r == &dur ? okT(D()) : vh::out("other");
  }
  if (n == "dsub") {
    auto &r = (dur -= Smp::Duration{a});
    return &r == &dur ? okT(D()) : vh::out("other");
  }
  if (n == "dplus") {
    if (how == "own")
      k < 0 ? dur -= function(u, -k) : dur += function(u, k);
    else
      with(u, k < 0 ? -k : k,
           [&](auto x) { k < 0 ? dur -= x : dur += x; });
    return okT(D());
  }
  if (n == "dmul") {
    dur *= static_cast<int>(k);
    return okT(D());
  }
  if (n == "dneg") {
    dur = -(+cd);
    return okT(D());
  }
  if (n == "dinc") {
    const bool post = o.b("post");
    const Duration r = k > 0 ? (post ? dur++ : ++dur) : (post ? dur-- : --dur);
    return okT(static_cast<Smp::Duration>(r));
  }
  if (n == "dcmp")
    return agree(rel(cd, Smp::Duration{a}), rel(cd, Duration(a)));
  if (n == "dcmpu")
    return with(u, k, [&](auto x) { return agree(rel(cd, x), inv(rel(x, cd))); });
  if (n == "dto" || n == "dtoc")
    return with(u, 0, [&](auto x) {
      using C = decltype(x);
      const I unit = std::chrono::nanoseconds(C(1)).count();
      return okT(unit * (n == "dto" ? static_cast<C>(dur).count()
                                    : static_cast<C>(cd).count()));
    });
  if (n == "dfmt")
    return okClock(write(how, cd, "%T"));
  if (n == "dparse") {
    const auto t = sec(c);
    if (how == "text")
      dur = Duration(t);
    else {
      std::istringstream s(t + " next");
      dur = Duration(s);
      std::string r;
      if (!(s >> r) || r != "next")
        return vh::out("stream");
    }
    return okT(D());
  }
  if (n == "dback") {
    if (D() < 0 || D() >= DayNs)
      return okT(0);
    return okT(static_cast<Smp::Duration>(Duration(cd.format())));
  }
  if (n == "dbad") {
    std::istringstream s(o.s("t"));
    const auto x = static_cast<Smp::Duration>(Duration(s));
    dur = Duration(o.s("t"));
    return x == D() ? okT(D()) : vh::out("indeterminate");
  }
  if (n == "tset") {
    if (how == "made")
      dat = DateTime(Smp::DateTime{a});
    else if (how == "number")
      dat = Smp::DateTime{a};
    else if (how == "chrono")
      dat = DateTime(std::chrono::nanoseconds(a));
#ifndef NO_DATE_ASSIGN
    else if (how == "assign")
      dat = std::chrono::nanoseconds(a);
#endif
    else
      dat = DateTime(std::chrono::microseconds(a / 1000)) + a % 1000;
    return okT(T());
  }
  if (n == "tadd" || n == "tsub") {
    const bool add = n == "tadd";
    if (how == "in")
      add ? dat += Smp::Duration{a} : dat -= Smp::Duration{a};
    else if (how == "left")
      dat = add ? ct + Duration(a) : ct - Duration(a);
    else
      dat = add ? Smp::Duration{a} + ct : ct - Smp::Duration{a};
    return okT(T());
  }
  if (n == "taddu") {
    with(u, k, [&](auto x) {
      if (how == "in")
        dat += x;
      else if (how == "left")
        dat = x + ct;
      else if (how == "right")
        dat = ct + x;
      else if (how == "minus")
        dat = ct - -x;
      else
        dat -= -x;
    });
    return okT(T());
  }
  if (n == "tinc") {
    const bool post = o.b("post");
    const DateTime r = k > 0 ? (post ? dat++ : ++dat) : (post ? dat-- : --dat);
    return okT(static_cast<Smp::DateTime>(r));
  }
  if (n == "tcmp")
    return agree(rel(ct, DateTime(Smp::DateTime{a})), rel(ct, Smp::DateTime{a}));
  if (n == "tfmt")
    return okCivil(write(how, ct, "%F %T"));
  if (n == "tpoint")
    return with(u, 0, [&](auto x) {
      using C = decltype(x);
      return okT(I(static_cast<std::chrono::time_point<Clock, C>>(ct)
                       .time_since_epoch()
                       .count()) *
                 std::chrono::nanoseconds(C(1)).count());
    });
  if (n == "tfrom") {
    const DateTime::time_point p{std::chrono::nanoseconds(a)};
    if (how == "made")
      dat = DateTime(p);
    else
      dat = p;
    return okT(T());
  }
  if (n == "tparse") {
    const auto t = two(c.i("y"), 4) + "-" + two(c.i("m")) + "-" +
                   two(c.i("d")) + " " + sec(c);
    if (how == "text")
      dat = DateTime(t);
    else {
      std::istringstream s(t + " next");
      dat = DateTime(s);
      std::string r;
      if (!(s >> r) || r != "next")
        return vh::out("stream");
    }
    return okT(T());
  }
  if (n == "tback")
    return okT(static_cast<Smp::DateTime>(DateTime(ct.format())));
  return vh::out("unknown operation");
}
int main() {
  return vh::drive(reset, [](const vh::Op &o) {
    return vm::guard([&] { return exec(o); });
  });
}
