// C17: paths of objects, and what the resolver makes of a path.
#include "smp.h"
#include <Smp/AccessKind.h>
#include <Smp/IArrayField.h>
#include <Smp/IPublication.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Simulator.h>
#include <memory>
#include <set>

struct Plain : Xsmp::Model {
  using Model::Model;
};
struct Node : Xsmp::Model,
              virtual Xsmp::Composite,
              virtual Xsmp::Aggregate,
              virtual Xsmp::EntryPointPublisher,
              virtual Xsmp::EventProvider,
              virtual Xsmp::EventConsumer,
              virtual Xsmp::FallibleModel {
  Node(const char *n, Smp::IComposite *p)
      : Model(n, "", p, nullptr), A("A", "", this, 0, -1), b("b", "", this, 0, -1),
        R("R", "", this, 0, -1), a("a", "", this, 0, -1) {}
  Xsmp::Container<Smp::IModel> A, b;
  Xsmp::Reference<Smp::IComponent> R, a;
  std::vector<std::unique_ptr<Smp::IObject>> own;
};
struct Info {
  std::string kind, name;
  Smp::IObject *obj;
  size_t parent;
};
static std::vector<Info> objs; // index 0 is no object
static std::map<size_t, Smp::IPublication *> pubs;
static std::vector<std::unique_ptr<Xsmp::Publication::Publication>> owned;
static std::unique_ptr<Xsmp::Simulator> sim;
static Smp::Publication::ITypeRegistry *types;
static char memory[4096];
static const Smp::Uuid S{0x11111111, 0x1111, 1, 1, 1},
    A{0x11111111, 0x1111, 1, 1, 2}, T{0x11111111, 0x1111, 1, 1, 3},
    L{0x11111111, 0x1111, 1, 1, 4};

static size_t put(const std::string &k, const std::string &n, Smp::IObject *o,
                  size_t p) {
  objs.push_back({k, n, o, p});
  return objs.size() - 1;
}
static void grow(const std::string &kind, Smp::IField *f, size_t p) {
  const auto i = put(kind, f->GetName(), f, p);
  if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) {
    for (Smp::UInt64 k = 0; k < a->GetSize(); ++k)
      grow("fld", a->GetItem(k), i);
  } else if (auto *s = dynamic_cast<Smp::IStructureField *>(f))
    for (auto *m : *s->GetFields())
      grow("fld", m, i);
}
static void addPub(size_t i, Smp::IComponent *c) {
  owned.push_back(std::make_unique<Xsmp::Publication::Publication>(c, types));
  c->Publish(owned.back().get());
  pubs[i] = owned.back().get();
}
static void reset() {
  pubs.clear();
  objs.clear();
  sim = std::make_unique<Xsmp::Simulator>("s");
  types = sim->GetTypeRegistry();
  auto *s = types->AddStructureType("S", "", S);
  s->AddField("a", "", Smp::Uuids::Uuid_Int32, 0);
  s->AddField("b", "", Smp::Uuids::Uuid_Int32, 4);
  types->AddArrayType("A", "", A, S, 8, 3, false);
  types->AddArrayType("L", "", L, Smp::Uuids::Uuid_Int32, 4, 4, true);
  auto *t = types->AddStructureType("T", "", T);
  t->AddField("c", "", A, 0);
  t->AddField("a", "", S, 24);
  t->AddField("d", "", L, 32);
  auto *res =
      new Xsmp::Services::XsmpResolver("res", "", sim.get(), sim.get());
  sim->AddService(res);
  put("none", "", nullptr, 0);
  put("sim", "s", sim.get(), 0);
  put("ctn", "Models", sim->GetContainer("Models"), 1);
  put("ctn", "Services", sim->GetContainer("Services"), 1);
  put("plain", "res", res, 1);
}
static std::string text(const vh::Op &o, const std::string &k) {
  std::string r;
  for (auto &c : o.strs(k))
    r += c;
  return r;
}
static bool is(size_t i, const std::set<std::string> &ks) {
  return i > 0 && i < objs.size() && ks.count(objs[i].kind);
}
static std::string none() { return vh::out("none", "0"); }
static std::string make(const vh::Op &o) {
  const auto p = static_cast<size_t>(o.i("p")), c = static_cast<size_t>(o.i("c"));
  const auto &k = o.s("k");
  if (!p || p >= objs.size())
    return none();
  const auto pk = objs[p].kind;
  size_t size = 0;
  for (auto &x : objs)
    size += x.parent == p;
  auto n = pk == "darr" ? "[" + std::to_string(size) + "]" : text(o, "n");
  for (auto &x : objs)
    if (x.parent == p && x.name == n && x.kind != "ctn" && x.kind != "ref")
      return none();
  if (pk == "darr" && size > 8)
    return none();
  const auto id = objs.size();
  auto *po = objs[p].obj;
  const char *nm = n.c_str();
  if (k == "plain" || k == "node") {
    if (!is(c, {"ctn"}) || objs[c].parent != p || c == 3)
      return none();
    auto *parent = dynamic_cast<Smp::IComposite *>(po);
    Smp::IModel *m = nullptr;
    Node *node = nullptr;
    if (k == "plain")
      m = new Plain(nm, "", parent, nullptr);
    else
      m = node = new Node(nm, parent);
    dynamic_cast<Smp::IContainer *>(objs[c].obj)->AddComponent(m);
    put(k, n, m, p);
    addPub(id, m);
    if (node) {
      put("ctn", "A", &node->A, id);
      put("ctn", "b", &node->b, id);
      put("ref", "R", &node->R, id);
      put("ref", "a", &node->a, id);
    }
  } else if (k == "ep" || k == "src" || k == "snk" || k == "fail") {
    auto *node = dynamic_cast<Node *>(po);
    if (!node)
      return none();
    std::unique_ptr<Smp::IObject> e;
    if (k == "ep")
      e = std::make_unique<Xsmp::EntryPoint>(
          nm, "", static_cast<Xsmp::EntryPointPublisher *>(node), [] {});
    else if (k == "src")
      e = std::make_unique<Xsmp::EventSource<void>>(nm, "", node);
    else if (k == "snk")
      e = std::make_unique<Xsmp::EventSink<void>>(nm, "", node,
                                                  [](Smp::IObject *) {});
    else
      e = std::make_unique<Xsmp::Field<bool>::failure>(
          types, Smp::Uuids::Uuid_Bool, nm, "", node, Smp::ViewKind::VK_None);
    put(k, n, e.get(), p);
    node->own.push_back(std::move(e));
  } else {
    if (!pubs.count(p))
      return none();
    auto *pub = pubs[p];
    const auto view = Smp::ViewKind::VK_All;
    auto *comp = dynamic_cast<Smp::IDynamicInvocation *>(po);
    if (k == "op" || k == "prop") {
      if (!comp)
        return none();
      if (k == "op") {
        pub->PublishOperation(nm, "", view);
        put(k, n, comp->GetOperations()->at(nm), p);
      } else {
        pub->PublishProperty(nm, "", Smp::Uuids::Uuid_Int32,
                             Smp::AccessKind::AK_ReadWrite, view);
        put(k, n, comp->GetProperties()->at(nm), p);
      }
      return vh::okI(id);
    }
    Smp::IPublication *inner = nullptr;
    if (k == "dstr")
      inner = pub->PublishStructure(nm, "", view, true);
    else if (k == "darr")
      inner = pub->PublishArray(nm, "", view, true);
    else if (k == "list")
      pub->PublishArray(nm, "", 4, memory, Smp::PrimitiveTypeKind::PTK_Int32,
                        view, true, false, false);
    else
      pub->PublishField(nm, "", memory,
                        k == "int" ? Smp::Uuids::Uuid_Int32
                        : k == "S" ? S
                        : k == "A" ? A
                                   : T,
                        view, true, false, false);
    auto *f = inner ? dynamic_cast<Smp::IField *>(inner)
                    : pub->GetField(nm);
    grow(inner ? k : "fld", f, p);
    if (inner)
      pubs[id] = inner;
  }
  return vh::okI(id);
}
static std::string found(const Smp::IObject *o) {
  if (!o)
    return vh::okI(0);
  for (size_t i = 1; i < objs.size(); ++i)
    if (dynamic_cast<const void *>(objs[i].obj) ==
            dynamic_cast<const void *>(o))
      return vh::okI(i);
  return vh::okI(-1);
}
static std::string exec(const vh::Op &o) {
  const auto &n = o.name;
  return vm::guard([&]() -> std::string {
    if (n == "make")
      return make(o);
    const auto i = o.has("o") ? static_cast<size_t>(o.i("o")) : 1;
    const auto path = o.has("path") ? text(o, "path") : "";
    if (i >= objs.size())
      return none();
    const bool comp = is(i, {"plain", "node"});
    auto *cmp = dynamic_cast<Smp::IComponent *>(objs[i].obj);
    if (n == "ref") {
      const auto r = o.i("r"), c = o.i("c");
      if (!is(r, {"ref"}) || !is(c, {"plain", "node"}))
        return none();
      dynamic_cast<Smp::IReference *>(objs[r].obj)
          ->AddComponent(dynamic_cast<Smp::IComponent *>(objs[c].obj));
      return vh::okI(0);
    }
    if (n == "abs")
      return found(sim->GetResolver()->ResolveAbsolute(path.c_str()));
    if (n == "rel") {
      if (i && !comp)
        return none();
      return found(sim->GetResolver()->ResolveRelative(path.c_str(), cmp));
    }
    if (n == "from")
      return found(Xsmp::Helper::Resolve(objs[i].obj, path.c_str()));
    if (!i)
      return none();
    if (n == "field") {
      if (!comp || i == 4)
        return none();
      auto r = vm::guard([&] { return found(cmp->GetField(path.c_str())); });
      return r;
    }
    if (n == "path") {
      const auto p = Xsmp::Helper::GetPath(objs[i].obj);
      std::vector<std::string> cs;
      for (auto c : p)
        cs.emplace_back(1, c);
      return vh::ok(vh::jstrs(cs));
    }
    if (n == "anc") {
      const auto a = static_cast<size_t>(o.i("a"));
      if (!a || a >= objs.size())
        return none();
      return vh::okI(Xsmp::Helper::IsAncestor(objs[a].obj, objs[i].obj));
    }
    std::fprintf(stderr, "unknown operation %s\n", n.c_str());
    std::exit(3);
  });
}
static void finish() {
  // published fields go before what they were published in
  sim.reset();
  owned.clear();
}
int main() { return vh::drive(reset, exec, finish); }
