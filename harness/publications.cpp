// C23: types, and what is published with them.
#include "smp.h"
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/IProperty.h>
#include <Smp/IPublication.h>
#include <Smp/IRequest.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Field.h>
#include <Xsmp/Simulator.h>
#include <memory>
using Kind = Smp::PrimitiveTypeKind;
using Dir = Smp::Publication::ParameterDirectionKind;
static const char *const kinds[] = {
    "None",   "Char8",  "Bool",    "Int8",    "UInt8",    "Int16",
    "UInt16", "Int32",  "UInt32",  "Int64",   "UInt64",   "Float32",
    "Float64", "Duration", "DateTime", "String8"};
static Kind kind(const std::string &n) {
  for (int i = 0; i < 16; ++i)
    if (n == kinds[i])
      return static_cast<Kind>(i);
  return static_cast<Kind>(99);
}
static std::string name(Kind k) {
  auto i = static_cast<int>(k);
  return i >= 0 && i < 16 ? kinds[i] : "?";
}
static const char *const dirs[] = {"In", "Out", "InOut", "Return"};
static const std::vector<std::pair<std::string, Smp::Uuid>> &ids() {
#define U(x) {#x, Smp::Uuids::Uuid_##x}
  static const std::vector<std::pair<std::string, Smp::Uuid>> r = {
      U(Char8), U(Bool), U(Int8), U(UInt8), U(Int16), U(UInt16), U(Int32),
      U(UInt32), U(Int64), U(UInt64), U(Float32), U(Float64), U(Duration),
      U(DateTime), U(String8), U(Void), U(PrimitiveTypeKind), U(EventId),
      U(LogMessageKind), U(TimeKind), U(ViewKind), U(ParameterDirectionKind),
      U(ComponentStateKind), U(AccessKind), U(SimulatorStateKind),
      {"u1", "00000001-0000-0000-0000-000000000000"},
      {"u2", "00000001-0000-0000-0000-000000000001"},
      {"u3", "00000001-0001-0000-0000-000000000000"},
      {"u4", "00000001-0000-0000-0000-000100000001"},
      {"u5", "00000002-0000-0000-0000-000000000000"},
      {"u6", "10000001-0000-0000-0000-000000000000"}};
  return r;
}
static Smp::Uuid id(const std::string &n) {
  for (auto &i : ids())
    if (i.first == n)
      return i.second;
  std::abort();
}
static std::string name(const Smp::Uuid &u) {
  for (auto &i : ids())
    if (i.second == u)
      return i.first;
  return "?";
}
struct Comp : Xsmp::Model {
  using Model::Model;
  void Publish(Smp::IPublication *r) override {
    Model::Publish(r);
    receiver = r;
  }
  void Invoke(Smp::IRequest *) override {}
  Smp::IPublication *receiver = nullptr;
};
struct Sim {
  Sim() {
    // the simulator owns its models
    sim.AddModel(&comp);
    sim.AddModel(&scratch);
    sim.Publish();
  }
  Xsmp::Simulator sim{"sim"};
  Comp &comp = *new Comp("c", "", &sim, &sim);
  Comp &scratch = *new Comp("s", "", &sim, &sim);
  Smp::Publication::ITypeRegistry *GetTypeRegistry() {
    return sim.GetTypeRegistry();
  }
};
alignas(16) static unsigned char memory[8192];
static std::unique_ptr<Sim> sim;
static std::vector<Smp::IPublication *> pubs;
static std::vector<size_t> ups;
static std::vector<std::unique_ptr<Smp::IField>> given;
static std::map<std::string, Smp::Publication::IPublishOperation *> operations;
static std::map<std::string, Smp::Publication::IEnumerationType *> enums;
static std::map<std::string, Smp::Publication::IStructureType *> structs;
static Smp::Publication::ITypeRegistry *types() {
  return sim->GetTypeRegistry();
}
static void reset() {
  sim.reset();
  given.clear();
  operations.clear();
  enums.clear();
  structs.clear();
  sim = std::make_unique<Sim>();
  pubs = {sim->comp.receiver};
  ups = {0};
}
static std::string out(const std::string &e, const std::string &v = "[]") {
  return "{\"e\":" + vh::jstr(e) + ",\"v\":" + v + "}";
}
static std::string strs(const std::vector<std::string> &v) {
  return vh::jstrs(v);
}
struct Text {
  explicit Text(const std::string &t) : text(t), null(t == "<null>") {}
  operator const char *() const { return null ? nullptr : text.c_str(); }
  std::string text;
  bool null;
};
// a value of a kind made from an integer (floats: halves, strings: a length)
static Smp::AnySimple value(Kind k, long long x) {
  switch (k) {
  case Kind::PTK_Bool:
    return {k, x != 0};
  case Kind::PTK_Float32:
    return {k, static_cast<Smp::Float32>(x) / 2};
  case Kind::PTK_Float64:
    return {k, static_cast<Smp::Float64>(x) / 2};
  case Kind::PTK_String8: {
    const std::string s(static_cast<size_t>(x), 'a');
    return {k, s.c_str()};
  }
  case Kind::PTK_Char8:
    return {k, static_cast<Smp::Char8>(x)};
  case Kind::PTK_Int8:
    return {k, static_cast<Smp::Int8>(x)};
  case Kind::PTK_UInt8:
    return {k, static_cast<Smp::UInt8>(x)};
  case Kind::PTK_Int16:
    return {k, static_cast<Smp::Int16>(x)};
  case Kind::PTK_UInt16:
    return {k, static_cast<Smp::UInt16>(x)};
  case Kind::PTK_Int32:
    return {k, static_cast<Smp::Int32>(x)};
  case Kind::PTK_UInt32:
    return {k, static_cast<Smp::UInt32>(x)};
  case Kind::PTK_UInt64:
    return {k, static_cast<Smp::UInt64>(x)};
  default:
    return {k, static_cast<Smp::Int64>(x)};
  }
}
// where a value is: integers by reading a pattern, others by writing
template <class Get, class Set> long where(Kind k, Get &&get, Set &&set) {
  switch (k) {
  case Kind::PTK_Bool:
  case Kind::PTK_Char8:
  case Kind::PTK_Float32:
  case Kind::PTK_Float64:
  case Kind::PTK_String8: {
    std::memset(memory, 0, sizeof memory);
    set(value(k, k == Kind::PTK_Float32 || k == Kind::PTK_Float64 ? 4 : 1));
    long at = -1;
    size_t bytes = 0;
    for (size_t i = 0; i < sizeof memory; ++i)
      if (memory[i] != 0) {
        if (at < 0)
          at = static_cast<long>(i);
        ++bytes;
      }
    // 2.0 only has its last byte
    if (k == Kind::PTK_Float32)
      at -= 3;
    if (k == Kind::PTK_Float64)
      at -= 7;
    return bytes == 1 ? at : -2;
  }
  default: {
    long at = 0;
    for (int pass = 0; pass < 2; ++pass) {
      for (size_t i = 0; i < sizeof memory; ++i)
        memory[i] = static_cast<unsigned char>(pass ? i / 128 : i % 128);
      const auto v = static_cast<unsigned long>(get()) & 0x7f;
      at += static_cast<long>(pass ? v * 128 : v);
    }
    return at;
  }
  }
}
static std::uint64_t bits(const Smp::AnySimple &v) {
  switch (v.GetType()) {
  case Kind::PTK_Int8:
  case Kind::PTK_Int16:
  case Kind::PTK_Int32:
  case Kind::PTK_Int64:
  case Kind::PTK_Duration:
  case Kind::PTK_DateTime:
    return static_cast<std::uint64_t>(static_cast<Smp::Int64>(v));
  default:
    return static_cast<Smp::UInt64>(v);
  }
}
static std::string path(const std::string &p, bool item, size_t j,
                        const Smp::IField *f) {
  if (item)
    return p + "[" + std::to_string(j) + "]";
  return p.empty() ? f->GetName() : p + "." + f->GetName();
}
// one field and those in it
static void show(const Smp::IPublication *pub, Smp::IField *f,
                 const std::string &p, std::vector<std::string> &r) {
  std::vector<long> at;
  std::string c = "?", k = "None";
  size_t z = 0;
  std::vector<Smp::IField *> in;
  bool items = false;
  if (auto *s = dynamic_cast<Smp::ISimpleField *>(f)) {
    c = "simple";
    k = name(s->GetPrimitiveTypeKind());
    bool ours = false;
    for (auto &g : given)
      ours = ours || g.get() == f;
    at.push_back(ours ? -1
                      : where(
                            s->GetPrimitiveTypeKind(),
                            [&] { return bits(s->GetValue()); },
                            [&](const Smp::AnySimple &v) { s->SetValue(v); }));
  } else if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
    c = "values";
    z = a->GetSize();
    auto *t = dynamic_cast<const Smp::Publication::IArrayType *>(f->GetType());
    const auto kd = t ? t->GetItemType()->GetPrimitiveTypeKind()
                      : f->GetType()->GetPrimitiveTypeKind();
    k = name(kd);
    for (size_t i = 0; i < z; ++i)
      at.push_back(where(
          kd, [&] { return bits(a->GetValue(i)); },
          [&](const Smp::AnySimple &v) { a->SetValue(i, v); }));
  } else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) {
    c = "array";
    z = a->GetSize();
    items = true;
    for (size_t i = 0; i < z; ++i)
      in.push_back(a->GetItem(i));
  } else if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
    c = "struct";
    z = s->GetFields()->size();
    for (auto *x : *s->GetFields()) {
      in.push_back(x);
      if (s->GetField(x->GetName()) != x)
        c = "struct with a lost field";
    }
  }
  if ((dynamic_cast<Smp::IDataflowField *>(f) != nullptr) != f->IsOutput())
    c += " of the wrong sort";
  if (pub && pub->GetField(p.c_str()) != f)
    c += " that is not found";
  std::string as;
  for (auto x : at)
    as += (as.empty() ? "" : ",") + std::to_string(x);
  auto b = [](bool x) { return x ? "true" : "false"; };
  r.push_back("{\"p\":" + vh::jstr(p) + ",\"n\":" + vh::jstr(f->GetName()) +
              ",\"d\":" + vh::jstr(f->GetDescription()) +
              ",\"c\":" + vh::jstr(c) + ",\"k\":" + vh::jstr(k) + ",\"u\":" +
              vh::jstr(f->GetType() ? name(f->GetType()->GetUuid()) : "none") +
              ",\"v\":" + std::to_string(static_cast<int>(f->GetView())) +
              ",\"s\":" + b(f->IsState()) + ",\"i\":" + b(f->IsInput()) +
              ",\"o\":" + b(f->IsOutput()) + ",\"z\":" + std::to_string(z) +
              ",\"as\":[" + as + "]}");
  for (size_t i = 0; i < in.size(); ++i)
    show(pub, in[i], path(p, items, i, in[i]), r);
}
// all the fields of a receiver, as its user sees them
static std::string tree(Smp::IPublication *pub) {
  std::vector<std::string> r;
  // a structure only finds its own fields
  auto *from = dynamic_cast<Smp::IStructureField *>(pub) ? nullptr : pub;
  for (auto *f : *pub->GetFields())
    show(from, f, f->GetName(), r);
  std::string s;
  for (auto &x : r)
    s += (s.empty() ? "" : ",") + x;
  return "[" + s + "]";
}
static std::string param(const Smp::IParameter *p) {
  return "{\"n\":" + vh::jstr(p->GetName()) +
         ",\"d\":" + vh::jstr(p->GetDescription()) +
         ",\"t\":" + vh::jstr(name(p->GetType()->GetUuid())) + ",\"dir\":" +
         vh::jstr(dirs[static_cast<int>(p->GetDirection())]) + "}";
}
static void publish(Smp::IPublication *p, const vh::Op &o) {
  const Text n(o.s("n"));
  const auto d = o.s("d");
  void *a = memory + o.i("a");
  const auto v = static_cast<Smp::ViewKind>(o.i("v"));
  const bool s = o.b("s"), i = o.b("i"), q = o.b("o");
  const auto u = o.s("u");
  if (o.s("via") == "native") {
#define N(x)                                                                   \
  if (u == #x)                                                                 \
    p->PublishField(n, d.c_str(), static_cast<Smp::x *>(a), v, s, i, q);
    N(Char8) N(Bool) N(Int8) N(UInt8) N(Int16) N(UInt16) N(Int32) N(UInt32)
    N(Int64) N(UInt64) N(Float32) N(Float64)
    return;
  }
  auto *t = types()->GetType(id(u));
  if (o.s("via") == "type" && t)
    t->Publish(p, n, d.c_str(), a, v, s, i, q);
  else
    p->PublishField(n, d.c_str(), a, id(u), v, s, i, q);
}
static std::string shown(const Smp::Publication::IType *t) {
  return t ? strs({t->GetName(), name(t->GetPrimitiveTypeKind()),
                   name(t->GetUuid())})
           : strs({"none"});
}
static std::string run(const vh::Op &o) {
  const auto &n = o.name;
  const Text nm(o.has("n") ? o.s("n") : "");
  const std::string d = o.has("d") ? o.s("d") : "";
  const Smp::Uuid u = o.has("u") ? id(o.s("u")) : Smp::Uuid{};
  const auto p = o.has("p") ? static_cast<size_t>(o.i("p")) - 1 : 0;
  if (p >= pubs.size() || !pubs[p])
    return out("no receiver");
  auto *pub = pubs[p];
  if (n == "addFloat")
    types()->AddFloatType(nm, d.c_str(), u, static_cast<double>(o.i("lo")) / 2,
                          static_cast<double>(o.i("hi")) / 2, o.b("li"),
                          o.b("hx"), "", kind(o.s("k")));
  else if (n == "addInt")
    types()->AddIntegerType(nm, d.c_str(), u, o.i("lo"), o.i("hi"), "",
                            kind(o.s("k")));
  else if (n == "addEnum")
    enums[o.s("u")] = types()->AddEnumerationType(
        nm, d.c_str(), u, static_cast<Smp::Int16>(o.i("z")));
  else if (n == "addArray")
    types()->AddArrayType(nm, d.c_str(), u, id(o.s("item")), o.i("isz"),
                          o.i("cnt"), o.b("simple"));
  else if (n == "addString")
    types()->AddStringType(nm, d.c_str(), u, o.i("len"));
  else if (n == "addStruct")
    structs[o.s("u")] = types()->AddStructureType(nm, d.c_str(), u);
  else if (n == "addClass")
    structs[o.s("u")] =
        types()->AddClassType(nm, d.c_str(), u, id(o.s("base")));
  else if (n == "literal") {
    if (!enums.count(o.s("u")))
      return out("no enumeration");
    try {
      enums[o.s("u")]->AddLiteral(nm, d.c_str(),
                                  static_cast<Smp::Int32>(o.i("x")));
    } catch (const Smp::Publication::DuplicateLiteral &e) {
      return out(e.GetName(), strs({e.GetLiteralName()}));
    }
  } else if (n == "sfield") {
    if (!structs.count(o.s("u")))
      return out("no structure");
    structs[o.s("u")]->AddField(nm, d.c_str(), id(o.s("t")), o.i("off"),
                                static_cast<Smp::ViewKind>(o.i("v")), o.b("s"),
                                o.b("i"), o.b("o"));
  } else if (n == "getType")
    return out("ok", shown(types()->GetType(u)));
  else if (n == "getKind")
    return out("ok", shown(types()->GetType(kind(o.s("k")))));
  else if (n == "takes") {
    auto *t = types()->GetType(u);
    std::vector<std::string> r;
    if (t) {
      auto *s = sim->scratch.receiver;
      s->PublishOperation("op", "")->PublishParameter("p", "", u);
      if (auto *q = s->CreateRequest("op")) {
        for (auto x : o.ints("xs"))
          r.push_back(vm::err([&] {
            q->SetParameterValue(0, value(t->GetPrimitiveTypeKind(), x));
          }));
        s->DeleteRequest(q);
      } else
        r.push_back("none");
    } else
      r.push_back("none");
    return out("ok", strs(r));
  } else if (n == "field")
    publish(pub, o);
  else if (n == "values")
    pub->PublishArray(nm, d.c_str(), o.i("cnt"), memory + o.i("a"),
                      kind(o.s("k")), static_cast<Smp::ViewKind>(o.i("v")),
                      o.b("s"), o.b("i"), o.b("o"));
  else if (n == "anon") {
    const auto v = static_cast<Smp::ViewKind>(o.i("v"));
    auto *made = o.s("c") == "array"
                     ? pub->PublishArray(nm, d.c_str(), v, o.b("s"))
                     : pub->PublishStructure(nm, d.c_str(), v, o.b("s"));
    pubs.push_back(made);
    ups.push_back(p);
  } else if (n == "give") {
    given.push_back(std::make_unique<Xsmp::Field<Smp::Int32>>(
        types(), Smp::Uuids::Uuid_Int32, nm, "given", &sim->comp,
        Smp::ViewKind::VK_All));
    pub->PublishField(given.back().get());
  } else if (n == "tree")
    return out("ok", tree(pub));
  else if (n == "find") {
    auto *f = pub->GetField(o.s("path").c_str());
    std::string c = "?", k = "None";
    if (auto *s = dynamic_cast<Smp::ISimpleField *>(f)) {
      c = "simple";
      k = name(s->GetPrimitiveTypeKind());
    } else if (dynamic_cast<Smp::ISimpleArrayField *>(f)) {
      c = "values";
      auto *t =
          dynamic_cast<const Smp::Publication::IArrayType *>(f->GetType());
      k = name(t ? t->GetItemType()->GetPrimitiveTypeKind()
                 : f->GetType()->GetPrimitiveTypeKind());
    } else if (dynamic_cast<Smp::IArrayField *>(f))
      c = "array";
    else if (dynamic_cast<Smp::IStructureField *>(f))
      c = "struct";
    return out("ok", strs({f->GetName(), c, k}));
  } else if (n == "op")
    operations[o.s("n")] = pub->PublishOperation(
        nm, d.c_str(), static_cast<Smp::ViewKind>(o.i("v")));
  else if (n == "param") {
    if (!operations.count(o.s("m")))
      return out("no operation");
    Dir dir = Dir::PDK_In;
    for (int i = 0; i < 4; ++i)
      if (o.s("dir") == dirs[i])
        dir = static_cast<Dir>(i);
    operations[o.s("m")]->PublishParameter(nm, d.c_str(), id(o.s("t")), dir);
  } else if (n == "showOps") {
    std::string r;
    for (auto *m : *pub->GetOperations()) {
      std::string ps;
      for (auto *q : *m->GetParameters())
        ps += (ps.empty() ? "" : ",") + param(q);
      r += std::string(r.empty() ? "" : ",") +
           "{\"n\":" + vh::jstr(m->GetName()) +
           ",\"d\":" + vh::jstr(m->GetDescription()) +
           ",\"v\":" + std::to_string(static_cast<int>(m->GetView())) +
           ",\"ps\":[" + ps + "],\"r\":[" +
           (m->GetReturnParameter() ? param(m->GetReturnParameter()) : "") +
           "]}";
    }
    return out("ok", "[" + r + "]");
  } else if (n == "showParam") {
    auto *m = pub->GetOperations()->at(o.s("m").c_str());
    auto *q = m ? m->GetParameter(nm) : nullptr;
    return out("ok", q ? strs({q->GetName(), q->GetDescription(),
                               name(q->GetType()->GetUuid()),
                               dirs[static_cast<int>(q->GetDirection())]})
                       : strs({"none"}));
  } else if (n == "prop")
    pub->PublishProperty(nm, d.c_str(), id(o.s("t")),
                         static_cast<Smp::AccessKind>(o.i("ak")),
                         static_cast<Smp::ViewKind>(o.i("v")));
  else if (n == "showProps") {
    std::string r;
    for (auto *m : *pub->GetProperties())
      r += std::string(r.empty() ? "" : ",") +
           "{\"n\":" + vh::jstr(m->GetName()) +
           ",\"d\":" + vh::jstr(m->GetDescription()) +
           ",\"t\":" + vh::jstr(name(m->GetType()->GetUuid())) +
           ",\"a\":" + std::to_string(static_cast<int>(m->GetAccess())) +
           ",\"v\":" + std::to_string(static_cast<int>(m->GetView())) + "}";
    return out("ok", "[" + r + "]");
  } else if (n == "unpublish") {
    // what was published in it goes too
    pub->Unpublish();
    if (p == 0)
      operations.clear();
    for (size_t q = p + 1; q < pubs.size(); ++q)
      if (pubs[q] && (ups[q] == p || !pubs[ups[q]]))
        pubs[q] = nullptr;
  } else
    std::abort();
  return out("ok");
}
int main() {
  return vh::drive(reset, [](const vh::Op &o) {
    try {
      return run(o);
    } catch (const Smp::Exception &e) {
      return out(e.GetName());
    } catch (const std::exception &e) {
      return out("std:" + vm::demangle(typeid(e).name()));
    }
  });
}
