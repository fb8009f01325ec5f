// C06: dynamic libraries and package initialisation. The six sub packages of
// xsmp_services are replaced by recorders; LibraryHelper, xsmp_services and the
// package entry points are the real code.
#include "vh.h"
#include <Xsmp/LibraryHelper.h>
#include <dlfcn.h>
#include <link.h>
#include <set>
#include <xsmp_services.h>

static std::vector<std::string> calls;
static std::set<std::string> bad; // packages reporting a failure
static char sims[4], regs[2];
static std::string simName(void *p) {
  if (!p)
    return "null";
  for (int i = 0; i < 4; ++i)
    if (p == &sims[i])
      return "s" + std::to_string(i);
  return "foreign";
}
static std::string regName(void *p) {
  return !p ? "null" : p == &regs[0] ? "r0" : p == &regs[1] ? "r1" : "foreign";
}
static bool rec(const char *pkg, const std::string &what) {
  calls.push_back(std::string(pkg) + what);
  return !bad.count(pkg);
}
#define PKG(x)                                                                 \
  extern "C" bool Initialise_xsmp_##x(Smp::ISimulator *s,                      \
                                      Smp::Publication::ITypeRegistry *t) {    \
    return rec(#x, "+" + simName(s) + regName(t));                             \
  }                                                                            \
  extern "C" bool Finalise_xsmp_##x() { return rec(#x, "-"); }
PKG(logger)
PKG(time_keeper)
PKG(resolver)
PKG(event_manager)
PKG(link_registry)
PKG(scheduler)

static void *sim(const std::string &n) {
  return n == "null" ? nullptr : &sims[n[1] - '0'];
}
static void *reg(const std::string &n) {
  return n == "null" ? nullptr : &regs[n[1] - '0'];
}

struct Lib {
  void *handle;
  int count;
};
static std::map<std::string, Lib> libs;
static std::string dir;
static bool resident(const std::string &n) {
  // looks without touching the loader's error state
  std::string want = "/lib" + n + ".so";
  struct Q {
    const std::string &w;
    bool found;
  } q{want, false};
  dl_iterate_phdr(
      [](dl_phdr_info *i, size_t, void *p) {
        auto &q = *static_cast<Q *>(p);
        const std::string f = i->dlpi_name ? i->dlpi_name : "";
        q.found |= f.size() >= q.w.size() &&
                   f.compare(f.size() - q.w.size(), q.w.size(), q.w) == 0;
        return 0;
      },
      &q);
  return q.found;
}
using InitF = bool (*)(void *, void *);
using FinF = bool (*)(void *);

static std::string result(bool r) {
  const std::string v = std::string("{\"r\":") + (r ? "true" : "false") +
                        ",\"calls\":" + vh::jstrs(calls) + "}";
  calls.clear();
  return vh::ok(v);
}

static std::string exec(const vh::Op &o) {
  calls.clear();
  if (o.name == "load") {
    const auto n = o.s("lib");
    void *h = Xsmp::LoadLibrary(n == "null" ? nullptr : n.c_str());
    if (!h)
      return vh::ok("{\"r\":\"none\",\"loaded\":" +
                    std::string(n != "null" && resident(n) ? "true" : "false") +
                    "}");
    auto &l = libs[n];
    const bool same = l.count == 0 || l.handle == h;
    l.handle = h;
    ++l.count;
    return vh::ok(std::string("{\"r\":") + (same ? "\"handle\"" : "\"other\"") +
                  ",\"loaded\":" + (resident(n) ? "true" : "false") + "}");
  }
  if (o.name == "close") {
    auto &l = libs[o.s("lib")];
    if (!l.count)
      return vh::out("skipped");
    Xsmp::CloseLibrary(l.handle);
    --l.count;
    return vh::okB(resident(o.s("lib")));
  }
  if (o.name == "last_error")
    return vh::okB(!Xsmp::GetLastError().empty());
  if (o.name == "symbol") {
    auto &l = libs[o.s("lib")];
    if (!l.count)
      return vh::out("skipped");
    const auto n = o.s("name");
    void *p = Xsmp::GetSymbol(l.handle, n == "null" ? nullptr : n.c_str());
    void *q = n == "null" ? nullptr : dlsym(l.handle, n.c_str());
    if (p != q)
      return vh::okS("wrong");
    if (!q && n != "null")
      dlerror(); // the check above must not be what the error comes from
    if (!p && n != "null")
      (void)Xsmp::GetSymbol<int *>(l.handle, n.c_str());
    if (p && Xsmp::GetSymbol<InitF>(l.handle, n.c_str()) !=
                 reinterpret_cast<InitF>(p))
      return vh::okS("wrong");
    return vh::okS(p ? "found" : "none");
  }
  bad.clear();
  if (o.has("bad"))
    for (auto &x : o.strs("bad"))
      bad.insert(x);
  if (o.name == "init") {
    void *s = sim(o.s("sim")), *t = reg(o.s("reg"));
    if (o.s("lib") == "static")
      return result(Initialise_xsmp_services(
          static_cast<Smp::ISimulator *>(s),
          static_cast<Smp::Publication::ITypeRegistry *>(t)));
    auto &l = libs[o.s("lib")];
    if (!l.count)
      return vh::out("skipped");
    return result(Xsmp::GetSymbol<InitF>(l.handle, "Initialise")(s, t));
  }
  if (o.name == "fin") {
    if (o.s("lib") == "static")
      return result(Finalise_xsmp_services());
    auto &l = libs[o.s("lib")];
    if (!l.count)
      return vh::out("skipped");
    return result(Xsmp::GetSymbol<FinF>(l.handle, "Finalise")(sim("s0")));
  }
  return vh::out("unknown");
}

int main(int argc, char **argv) {
  dir = argv[1];
  // the stub TU reproduces no state of the packages: start from a clean slate
  return vh::drive(
      [] {
        for (auto &[n, l] : libs)
          for (; l.count > 0; --l.count)
            dlclose(l.handle);
        libs.clear();
        bad.clear();
        Finalise_xsmp_services();
        calls.clear();
        dlerror();
      },
      exec);
}
