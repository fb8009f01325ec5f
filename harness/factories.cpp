// C25: factories and the instances they make.
#include "smp.h"
#include <Smp/DuplicateUuid.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Simulator.h>
#include <algorithm>
#include <memory>
static int factories, instances;
static std::unique_ptr<Xsmp::Simulator> sim;
static std::map<std::string, Smp::IComponent *> made;
static const std::vector<std::pair<std::string, Smp::Uuid>> ids = {
    {"u1", "00000001-0000-0000-0000-000000000000"},
    {"u2", "00000001-0000-0000-0000-000000000001"},
    {"u3", "00000001-0001-0000-0000-000000000000"},
    {"u4", "00000001-0000-0000-0000-000100000001"},
    {"w", "00000002-0000-0000-0000-000000000000"}};
static Smp::Uuid id(const std::string &n) {
  for (auto &i : ids)
    if (i.first == n)
      return i.second;
  std::abort();
}
static std::string name(const Smp::Uuid &u) {
  for (auto &i : ids)
    if (i.second == u)
      return i.first;
  return "?";
}
struct Token {
  Token() { ++factories; }
  ~Token() { --factories; }
  Token(const Token &) = delete;
};
// an instance, and whose it is
struct Instance : Xsmp::Model {
  Instance(Smp::String8 n, Smp::String8 d, Smp::IComposite *p,
           Smp::ISimulator *s, Smp::Uuid u)
      : Model(n, d, p, s), uuid(u), simulator(s) {
    ++instances;
  }
  ~Instance() override { --instances; }
  const Smp::Uuid &GetUuid() const override { return uuid; }
  Smp::Uuid uuid;
  Smp::ISimulator *simulator;
};
namespace lib {
struct First : Instance {
  using Instance::Instance;
};
} // namespace lib
template <class T> struct Second : Instance {
  using Instance::Instance;
};
struct Thrown : Smp::Exception {
  const char *what() const noexcept override { return "thrown"; }
  Smp::String8 GetName() const noexcept override { return "Thrown"; }
  Smp::String8 GetDescription() const noexcept override { return ""; }
  Smp::String8 GetMessage() const noexcept override { return ""; }
  const Smp::IObject *GetSender() const noexcept override { return nullptr; }
};
static Smp::IFactory *make(const std::string &n, const std::string &u,
                           const std::string &k) {
  auto token = std::make_shared<Token>();
  const auto own = id(k == "wrong" ? "w" : u);
  return Xsmp::Factory::Create(
      n.c_str(), "", sim.get(), id(u),
      k == "type2" ? typeid(Second<int>) : typeid(lib::First),
      [token, own, k](Smp::String8 nm, Smp::String8 d, Smp::IComposite *p,
                      Smp::ISimulator *s) -> std::unique_ptr<Smp::IComponent> {
        if (k == "throws")
          throw Thrown();
        if (k == "type2")
          return std::make_unique<Second<int>>(nm, d, p, s, own);
        return std::make_unique<lib::First>(nm, d, p, s, own);
      });
}
static void reset() {
  for (auto &i : made)
    delete i.second;
  made.clear();
  sim = std::make_unique<Xsmp::Simulator>("sim");
  factories = instances = 0;
}
static std::string out(const std::string &e,
                       const std::vector<std::string> &v = {}) {
  return "{\"e\":" + vh::jstr(e) + ",\"v\":" + vh::jstrs(v) +
         ",\"facs\":" + std::to_string(factories) +
         ",\"insts\":" + std::to_string(instances) + "}";
}
static std::string run(const vh::Op &o) {
  const auto &n = o.name;
  if (n == "register") {
    // the name is copied
    auto *f = make(o.s("n"), o.s("u"), o.s("k"));
    try {
      sim->RegisterFactory(f);
    } catch (const Smp::DuplicateUuid &e) {
      return out(e.GetName(), {e.GetOldName(), e.GetNewName()});
    }
    return out("ok");
  }
  if (n == "get") {
    auto *f = sim->GetFactory(id(o.s("u")));
    return f ? out("ok", {f->GetName(), name(f->GetUuid()), f->GetTypeName()})
             : out("ok", {"none"});
  }
  if (n == "atn" || n == "ati") {
    auto *c = sim->GetFactories();
    const std::string nm = o.has("n") ? o.s("n") : "";
    auto *f = n == "atn" ? c->at(nm.c_str())
                         : c->at(static_cast<size_t>(o.i("i")));
    return out("ok", {f ? name(f->GetUuid()) : "none"});
  }
  if (n == "all") {
    std::vector<std::string> v;
    size_t k = 0;
    for (auto *f : *sim->GetFactories()) {
      v.push_back(f->GetName());
      v.push_back(name(f->GetUuid()));
      ++k;
    }
    return k == sim->GetFactories()->size() ? out("ok", v) : out("size");
  }
  if (n == "create") {
    const auto nm = o.b("bad") ? std::string("1bad") : o.s("n");
    Smp::IComposite *p = o.s("p") == "sim" ? sim.get() : nullptr;
    Smp::IComponent *c = nullptr;
    if (o.s("via") == "sim")
      c = sim->CreateInstance(id(o.s("u")), nm.c_str(), o.s("d").c_str(), p);
    else if (auto *f = sim->GetFactory(id(o.s("u"))))
      c = f->CreateInstance(nm.c_str(), o.s("d").c_str(), p);
    if (!c)
      return out("ok", {"none"});
    made[o.s("n")] = c;
    auto *i = dynamic_cast<Instance *>(c);
    auto *par = c->GetParent();
    return out("ok",
               {c->GetName(), c->GetDescription(), name(c->GetUuid()),
                par == nullptr                             ? "none"
                : par == static_cast<Smp::IObject *>(
                             static_cast<Smp::ISimulator *>(sim.get()))
                    ? "sim"
                    : "?",
                i->simulator == sim.get() ? "sim" : "?"});
  }
  if (n == "delete") {
    auto it = made.find(o.s("n"));
    sim->GetFactory(id(o.s("f")))->DeleteInstance(it->second);
    made.erase(it);
    return out("ok");
  }
  if (n == "drop") {
    for (auto &i : made)
      delete i.second;
    made.clear();
    sim.reset();
    auto r = out("ok");
    sim = std::make_unique<Xsmp::Simulator>("sim");
    return r;
  }
  return out("unknown operation");
}
static std::string exec(const vh::Op &o) {
  try {
    return run(o);
  } catch (const Smp::Exception &e) {
    return out(e.GetName());
  } catch (const std::exception &) {
    return out("std");
  }
}
int main() { return vh::drive(reset, exec); }
