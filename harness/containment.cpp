// C19: containers and references of a composite.
#include "smp.h"
#include <Smp/AccessKind.h>
#include <Smp/IPublication.h>
#include <Smp/IEntryPointPublisher.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>

static std::vector<std::string> tape;
static void note(const std::string &k, const std::string &c) {
  tape.push_back("{\"k\":" + vh::jstr(k) + ",\"c\":" + vh::jstr(c) + "}");
}
static const char *const Slots[] = {"m1", "m2", "m3", "m4", "m5", "m6"};
static std::map<std::string, Smp::IComponent *> slot;
static std::set<std::string> busy;
static std::map<std::string, std::deque<std::vector<vh::Op>>> scripts;
static std::string basic(const vh::Op &o);

struct Root : Xsmp::Model,
              virtual Xsmp::Composite,
              virtual Xsmp::Aggregate,
              virtual Xsmp::EntryPointPublisher,
              virtual Xsmp::EventProvider,
              virtual Xsmp::EventConsumer,
              virtual Xsmp::FallibleModel {
  Root(const char *n, Smp::Publication::ITypeRegistry *types);
  Xsmp::EntryPoint ep;
  Xsmp::EventSource<void> src;
  Xsmp::EventSink<void> snk;
  Xsmp::Field<bool>::failure fail;
  int value = 0;
  void publish(Smp::IPublication *p) {
    Model::Publish(p);
    p->PublishField("fld", "", &value, Smp::ViewKind::VK_All, true, false,
                    false);
    p->PublishOperation("op", "", Smp::ViewKind::VK_All);
    p->PublishProperty("prop", "", Smp::Uuids::Uuid_Int32,
                       Smp::AccessKind::AK_ReadWrite, Smp::ViewKind::VK_All);
  }
  struct SpecialModel;
  Xsmp::Container<Smp::IModel> c1;
  Xsmp::Container<SpecialModel> c2;
  Xsmp::Container<Smp::IComponent> c3;
  Xsmp::Reference<Smp::IModel> r1;
  Xsmp::Reference<SpecialModel> r2;
};
static Root *root;
template <class B> struct Comp : B {
  Comp(const std::string &id, const char *n, Smp::IComposite *p)
      : B(n, "", p, nullptr), id(id) {}
  ~Comp() override {
    note("deleted", id);
    slot.erase(id);
    if (root)
      root->RemoveLinks(this);
  }
  void Disconnect() override {
    hook();
    B::Disconnect();
  }
  void hook() {
    note("hook", id);
    auto &todo = scripts[id];
    if (todo.empty())
      return;
    struct Busy {
      std::string id;
      explicit Busy(const std::string &i) : id(i) { busy.insert(i); }
      ~Busy() { busy.erase(id); }
    } guard(id);
    const auto acts = todo.front();
    todo.pop_front();
    for (auto &a : acts) {
      if (a.name == "throw")
        throw std::runtime_error("failure of a hook");
      note(basic(a), "did");
    }
  }
  std::string id;
};
struct PlainModel : Xsmp::Model {
  using Model::Model;
};
struct Root::SpecialModel : Xsmp::Model {
  using Model::Model;
};
struct PlainService : Xsmp::Service {
  using Service::Service;
};
Root::Root(const char *n, Smp::Publication::ITypeRegistry *types)
    : Model(n, "", nullptr, nullptr), ep("ep", "", this, [] {}),
      src("src", "", this), snk("snk", "", this, [](Smp::IObject *) {}),
      fail(types, Smp::Uuids::Uuid_Bool, "fail", "", this,
           Smp::ViewKind::VK_None),
      c1("c1", "", this, 0, -1), c2("c2", "", this, 1, 2),
      c3("c3", "", this, 0, 3), r1("r1", "", this, 1, 3),
      r2("r2", "", this, 0, -1) {}

static std::unique_ptr<Xsmp::Publication::TypeRegistry> types;
static std::unique_ptr<Xsmp::Publication::Publication> rootPub, compPub;
static std::unique_ptr<Root> rootOwner, other;

static std::string basic(const vh::Op &o) {
  if (!root)
    return "none";
  const auto &n = o.name;
  Smp::IComponent *c = nullptr;
  if (o.has("c") && n != "create") {
    if (o.s("c") != "null") {
      auto it = slot.find(o.s("c"));
      if (it == slot.end())
        return "none";
      c = it->second;
    }
  }
  if (!c && (n == "connect" || n == "unlink" || n == "script"))
    return "none";
  auto container = [&] { return root->GetContainer(o.s("x").c_str()); };
  auto reference = [&] { return root->GetReference(o.s("x").c_str()); };
  if (n == "create") {
    const auto &id = o.s("c");
    if (slot.count(id))
      return "none";
    scripts[id].clear();
    auto *p = o.s("p") == "r"   ? root
              : o.s("p") == "o" ? other.get()
                                : nullptr;
    const auto *name = o.s("n").c_str();
    if (o.s("k") == "model")
      slot[id] = new Comp<PlainModel>(id, name, p);
    else if (o.s("k") == "special")
      slot[id] = new Comp<Root::SpecialModel>(id, name, p);
    else
      slot[id] = new Comp<PlainService>(id, name, p);
    return "ok";
  }
  if (n == "connect") {
    if (c->GetState() != Smp::ComponentStateKind::CSK_Created)
      return "none";
    c->Publish(compPub.get());
    c->Configure(nullptr, nullptr);
    c->Connect(nullptr);
    return "ok";
  }
  if (n == "script") {
    scripts[o.s("c")].push_back(o.ops("acts"));
    return "ok";
  }
  if (n == "publish") {
    if (root->GetState() == Smp::ComponentStateKind::CSK_Created)
      root->publish(rootPub.get());
    return "ok";
  }
  if (n == "del" && c && busy.count(o.s("c")))
    return "none";
  return vm::err([&] {
    if (n == "add")
      container()->AddComponent(c);
    else if (n == "del") {
      if (c)
        root->RemoveLinks(c);
      container()->DeleteComponent(c);
    } else if (n == "ref")
      reference()->AddComponent(c);
    else if (n == "unref")
      reference()->RemoveComponent(c);
    else if (n == "unlink")
      root->RemoveLinks(c);
    else if (n == "destroy") {
      root = nullptr;
      rootOwner.reset();
    } else {
      std::fprintf(stderr, "unknown operation %s\n", n.c_str());
      std::exit(3);
    }
  });
}
static std::string idOf(const Smp::IComponent *c) {
  for (auto &x : slot)
    if (x.second == c)
      return x.first;
  return c ? "?" : "null";
}
// every way to look at a container or reference must give the same
template <class I, class X> static std::string look(const I *i, X &x) {
  std::vector<std::string> a, b, c, d, e;
  const auto *all = i->GetComponents();
  for (auto *m : *all)
    a.push_back(idOf(m));
  for (size_t k = 0; k < all->size(); ++k)
    b.push_back(idOf(all->at(k)));
  for (auto *m : x)
    c.push_back(idOf(dynamic_cast<Smp::IComponent *>(m)));
  for (auto it = x.rbegin(); it != x.rend(); ++it)
    d.push_back(idOf(dynamic_cast<Smp::IComponent *>(*it)));
  std::reverse(d.begin(), d.end());
  for (size_t k = 0; k < x.size(); ++k)
    e.push_back(idOf(dynamic_cast<Smp::IComponent *>(x[k])));
  bool ok = a == b && a == c && a == d && a == e &&
            i->GetCount() == static_cast<Smp::Int64>(a.size()) &&
            all->at(a.size()) == nullptr && x.empty() == a.empty() &&
            all->at(static_cast<const char *>(nullptr)) == nullptr &&
            i->GetComponent(nullptr) == nullptr;
  try {
    (void)x.at(a.size());
    ok = false;
  } catch (const std::out_of_range &) {
  }
  if (!a.empty())
    ok = ok && idOf(dynamic_cast<Smp::IComponent *>(x.front())) == a.front() &&
         idOf(dynamic_cast<Smp::IComponent *>(x.back())) == a.back();
  std::set<std::string> names{"a", "b", "c", "d", "e", "fld", "ep", "r1"};
  for (auto &s : slot)
    names.insert(s.second->GetName());
  for (auto &n : names) {
    const Smp::IComponent *first = nullptr;
    for (auto &id : a)
      if (!first && slot.count(id) && slot[id]->GetName() == n)
        first = slot[id];
    ok = ok && i->GetComponent(n.c_str()) == first &&
         all->at(n.c_str()) == first;
    try {
      ok = ok && dynamic_cast<Smp::IComponent *>(x.at(n)) == first;
    } catch (const std::out_of_range &) {
      ok = ok && !first;
    }
  }
  return ok ? vh::jstrs(a) : vh::jstr("views differ");
}
static std::string exec(const vh::Op &op) {
  const auto e = basic(op);
  std::string log, st;
  for (auto &x : tape)
    log += (log.empty() ? "" : ",") + x;
  tape.clear();
  for (auto *s : Slots)
    st += (st.empty() ? "" : ",") + vh::jstr(s) + ":" +
          vh::jstr(slot.count(s) ? vm::name(slot[s]->GetState()) : "none");
  std::string ct = "\"c1\":[],\"c2\":[],\"c3\":[]", rf = "\"r1\":[],\"r2\":[]";
  if (root) {
    ct = "\"c1\":" + look(root->GetContainer("c1"), root->c1) +
         ",\"c2\":" + look(root->GetContainer("c2"), root->c2) +
         ",\"c3\":" + look(root->GetContainer("c3"), root->c3);
    rf = "\"r1\":" + look(root->GetReference("r1"), root->r1) +
         ",\"r2\":" + look(root->GetReference("r2"), root->r2);
  }
  return vh::out(e, "{\"log\":[" + log + "],\"ct\":{" + ct + "},\"rf\":{" + rf +
                        "},\"st\":{" + st + "}}");
}
static void finish() {
  root = nullptr;
  rootOwner.reset();
  while (!slot.empty())
    delete slot.begin()->second;
  other.reset();
  tape.clear();
}
static void reset() {
  scripts.clear();
  busy.clear();
  types = std::make_unique<Xsmp::Publication::TypeRegistry>();
  rootOwner = std::make_unique<Root>("r", types.get());
  other = std::make_unique<Root>("o", types.get());
  root = rootOwner.get();
  rootPub = std::make_unique<Xsmp::Publication::Publication>(root, types.get());
  compPub = std::make_unique<Xsmp::Publication::Publication>(other.get(),
                                                             types.get());
  tape.clear();
}
int main() { return vh::drive(reset, exec, finish); }
