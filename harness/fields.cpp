// C21: fields, their values, forcing and data flow.
#include "smp.h"
#include <Smp/AnySimple.h>
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IForcibleField.h>
#include <Smp/ILinkingComponent.h>
#include <Smp/IPublication.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Array.h>
#include <Xsmp/Field.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <cmath>
#include <functional>
#include <memory>
using Kind = Smp::PrimitiveTypeKind;
using I = Smp::Int32;
using D = Smp::Float64;
enum class En : Smp::Int32 { l0, l1, l2, l3, l4, l5 };
static const Smp::Uuid SI{"11111111-1111-1111-1111-111111111111"},
    SD{"22222222-2222-2222-2222-222222222222"},
    AI{"33333333-3333-3333-3333-333333333333"},
    TI{"44444444-4444-4444-4444-444444444444"},
    TD{"55555555-5555-5555-5555-555555555555"},
    RI{"66666666-6666-6666-6666-666666666666"},
    EN{"77777777-7777-7777-7777-777777777777"},
    SE{"88888888-8888-8888-8888-888888888888"},
    AD{"99999999-9999-9999-9999-999999999999"};
using SimpleI = Xsmp::Array<I, 2>::simple;
using SimpleD = Xsmp::Array<D, 2>::simple;
using ArrayI = Xsmp::Array<I, 2>;
using ArrayD = Xsmp::Array<D, 2>;
template <class T> struct Struct {
  T p{};
  SimpleI q{};
  template <typename Base> struct _Field : public Base {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid u, Smp::String8 name,
           Smp::String8 d = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Struct &v = {})
        : Base(r, u, name, d, parent, view),
          p{r,
            std::is_same_v<T, I> ? Smp::Uuids::Uuid_Int32
                                 : Smp::Uuids::Uuid_Float64,
            "p", "", this, view, v.p},
          q{r, SI, "q", "", this, view, v.q} {}
    typename Base::template Field<T> p;
    typename Base::template Field<SimpleI> q;
  };
};
using StructI = Struct<I>;
using StructD = Struct<D>;
using Structs = Xsmp::Array<StructI, 2>;
// the values are multiples of a half where they can be
template <class T> static T typed(long long v) {
  if constexpr (std::is_same_v<T, D>)
    return static_cast<D>(v) * 0.5;
  else
    return static_cast<T>(v);
}

static std::unique_ptr<Xsmp::Simulator> sim;
static std::map<std::string, Smp::IField *> fields;
// sets a leaf in one of the ways of its type
static std::map<std::string, std::function<void(int, long long)>> leaves;
static std::map<std::string,
                std::function<bool(int, const std::vector<long long> &)>>
    wholes;
static Smp::AnySimple any(Kind k, long long v) {
  return k == Kind::PTK_Float64 ? Smp::AnySimple{k, typed<D>(v)}
                                : Smp::AnySimple{k, static_cast<I>(v)};
}
static long long number(const Smp::AnySimple &v) {
  if (v.type == Kind::PTK_Float64) {
    const double d = static_cast<D>(v) * 2;
    return d == std::floor(d) && std::abs(d) < 1e9 ? static_cast<long long>(d)
                                                   : -1000;
  }
  return v.type == Kind::PTK_Int32 ? static_cast<long long>(static_cast<I>(v))
                                   : -2000;
}
static Kind kindOf(Smp::ISimpleArrayField *f) {
  return f->GetValue(0).type;
}
static void leaf(const std::string &n, Smp::ISimpleField *f) {
  if (!leaves.count(n))
    leaves[n] = [f](int, long long v) {
      f->SetValue(any(f->GetPrimitiveTypeKind(), v));
    };
}
// names of all that is in a field
static void name(const std::string &n, Smp::IField *f) {
  fields[n] = f;
  if (auto *s = dynamic_cast<Smp::ISimpleField *>(f))
    leaf(n, s);
  else if (auto *s = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
    for (Smp::UInt64 i = 0; i < s->GetSize(); ++i) {
      const auto item = n + "[" + std::to_string(i) + "]";
      if (!leaves.count(item))
        leaves[item] = [s, i](int, long long v) {
          s->SetValue(i, any(kindOf(s), v));
        };
    }
  } else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) {
    for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
      name(n + "[" + std::to_string(i) + "]", a->GetItem(i));
  } else if (auto *t = dynamic_cast<Smp::IStructureField *>(f)) {
    for (auto *x : *t->GetFields())
      name(n + "." + x->GetName(), x);
  }
}
// typed access
template <class T, class F> static void simple(const std::string &n, F &f) {
  leaves[n] = [&f](int how, long long v) {
    const T x = typed<T>(v), now = *f;
    switch (how) {
    case 0:
      static_cast<Smp::ISimpleField &>(f).SetValue(
          any(f.GetPrimitiveTypeKind(), v));
      break;
    case 1:
      f += x - now;
      break;
    case 2:
      f -= now - x;
      break;
    case 3:
      if (x == now + 1)
        ++f;
      else if (x == now - 1)
        --f;
      else
        f = x;
      break;
    default:
      f = x;
    }
  };
}
template <class T, class A, class F>
static void simpleArray(const std::string &n, F &f) {
  for (size_t i = 0; i < 2; ++i)
    leaves[n + "[" + std::to_string(i) + "]"] = [&f, i](int how, long long v) {
      const T x = typed<T>(v);
      switch (how) {
      case 0:
        f.SetValue(i, any(kindOf(&f), v));
        break;
      case 1:
        f.at(i) = x;
        break;
      case 2: {
        auto it = f.begin();
        if (i)
          ++it;
        *it = x;
        break;
      }
      case 3:
        if (i)
          f.back() = x;
        else
          f.front() = x;
        break;
      case 4: {
        const T now = f[i];
        f[i] += x - now;
        break;
      }
      default:
        f[i] = x;
      }
    };
  wholes[n] = [&f](int how, const std::vector<long long> &vs) {
    if (how == 0)
      return false;
    if (how == 1 && vs[0] == vs[1])
      f.fill(typed<T>(vs[0]));
    else {
      A a{};
      a[0] = typed<T>(vs[0]);
      a[1] = typed<T>(vs[1]);
      f.swap(a);
    }
    return true;
  };
}
template <class T, class A, class F>
static void array(const std::string &n, F &f) {
  simple<T>(n + "[0]", f[0]);
  simple<T>(n + "[1]", f.at(1));
  wholes[n] = [&f](int how, const std::vector<long long> &vs) {
    if (how == 0)
      return false;
    if (how == 1 && vs[0] == vs[1])
      f.fill(typed<T>(vs[0]));
    else {
      A a{};
      a[0] = typed<T>(vs[0]);
      a[1] = typed<T>(vs[1]);
      f = a;
    }
    return true;
  };
}
template <class T, class F>
static void structure(const std::string &n, F &f) {
  simple<T>(n + ".p", f.p);
  simpleArray<I, SimpleI>(n + ".q", f.q);
}

class Comp : public Xsmp::Model {
public:
  Comp(const char *n, Smp::Publication::ITypeRegistry *r)
      : Model(n, "", sim.get(), sim.get()), reg(r) {}
  Smp::Publication::ITypeRegistry *reg;
  std::vector<std::shared_ptr<void>> all;
  std::vector<Smp::IField *> published;
  template <class F> F &add(const char *n, Smp::Uuid u) {
    auto f = std::make_shared<F>(reg, u, n, "", this, Smp::ViewKind::VK_All);
    all.push_back(f);
    published.push_back(f.get());
    return *f;
  }
  std::string full(const char *n) { return std::string(GetName()) + "." + n; }
  template <class F> void i(const char *n) {
    simple<I>(full(n), add<F>(n, Smp::Uuids::Uuid_Int32));
  }
  template <class F> void d(const char *n) {
    simple<D>(full(n), add<F>(n, Smp::Uuids::Uuid_Float64));
  }
  template <class F> void si(const char *n) {
    simpleArray<I, SimpleI>(full(n), add<F>(n, SI));
  }
  template <class F> void sd(const char *n) {
    simpleArray<D, SimpleD>(full(n), add<F>(n, SD));
  }
  template <class F> void ai(const char *n) {
    array<I, ArrayI>(full(n), add<F>(n, AI));
  }
  template <class F> void ad(const char *n) {
    array<D, ArrayD>(full(n), add<F>(n, AD));
  }
  template <class F> void ti(const char *n) {
    structure<I>(full(n), add<F>(n, TI));
  }
  template <class F> void td(const char *n) {
    structure<D>(full(n), add<F>(n, TD));
  }
  template <class F> void ri(const char *n) {
    auto &f = add<F>(n, RI);
    structure<I>(full(n) + "[0]", f[0]);
    structure<I>(full(n) + "[1]", f[1]);
  }
  void Publish(Smp::IPublication *pub) override {
    Model::Publish(pub);
    for (auto *f : published)
      pub->PublishField(f);
  }
};
class CompA : public Comp {
public:
  explicit CompA(Smp::Publication::ITypeRegistry *r) : Comp("A", r) {
    i<Xsmp::Field<I>::output>("o");
    i<Xsmp::Field<I>::output::forcible>("of");
    d<Xsmp::Field<D>::output>("od");
    si<Xsmp::Field<SimpleI>::output>("so");
    sd<Xsmp::Field<SimpleD>::output>("sd");
    ai<Xsmp::Field<ArrayI>::output>("ao");
    ti<Xsmp::Field<StructI>::output>("to");
    ri<Xsmp::Field<Structs>::output>("ro");
    i<Xsmp::Field<I>::input>("i");
  }
};
class CompB : public Comp {
public:
  explicit CompB(Smp::Publication::ITypeRegistry *r) : Comp("B", r) {
    i<Xsmp::Field<I>::input>("i");
    i<Xsmp::Field<I>::input::output>("io");
    i<Xsmp::Field<I>::input::forcible>("if");
    i<Xsmp::Field<I>>("x");
    d<Xsmp::Field<D>::input>("id");
    si<Xsmp::Field<SimpleI>::input>("si");
    si<Xsmp::Field<SimpleI>::output::input>("sio");
    sd<Xsmp::Field<SimpleD>::input>("sd");
    ai<Xsmp::Field<ArrayI>::input>("ai");
    ai<Xsmp::Field<ArrayI>::input::forcible::output>("af");
    ad<Xsmp::Field<ArrayD>::input>("ad");
    ti<Xsmp::Field<StructI>::input>("ti");
    ti<Xsmp::Field<StructI>::output::input>("tf");
    td<Xsmp::Field<StructD>::input>("td");
    ri<Xsmp::Field<Structs>::input::output>("ri");
  }
};
class CompC : public Comp {
public:
  explicit CompC(Smp::Publication::ITypeRegistry *r) : Comp("C", r) {}
  struct S {
    I p, q[2];
  };
  I o = 0, in = 0, so[2]{}, si[2]{}, lo[2]{}, li[2]{}, ao[2]{}, ai[2]{};
  D ld[2]{};
  S to{}, ti{};
  En en[2]{}, e{};
  void Publish(Smp::IPublication *pub) override {
    Comp::Publish(pub);
    const auto v = Smp::ViewKind::VK_All;
    pub->PublishField("o", "", &o, v, true, false, true);
    pub->PublishField("i", "", &in, v, true, true, false);
    pub->PublishField("so", "", so, SI, v, true, false, true);
    pub->PublishField("si", "", si, SI, v, true, true, false);
    pub->PublishArray("lo", "", 2, lo, Kind::PTK_Int32, v, true, false, true);
    pub->PublishArray("li", "", 2, li, Kind::PTK_Int32, v, true, true, false);
    pub->PublishArray("ld", "", 2, ld, Kind::PTK_Float64, v, true, true, false);
    pub->PublishField("ao", "", ao, AI, v, true, false, true);
    pub->PublishField("ai", "", ai, AI, v, true, true, false);
    pub->PublishField("to", "", &to, TI, v, true, false, true);
    pub->PublishField("ti", "", &ti, TI, v, true, true, false);
    pub->PublishField("en", "", en, SE, v, true, false, false);
    pub->PublishField("e", "", &e, EN, v, true, false, false);
    raw("o", &o);
    raw("i", &in);
    raw2("so", so);
    raw2("si", si);
    raw2("lo", lo);
    raw2("li", li);
    raw2("ld", ld);
    raw2("ao", ao);
    raw2("ai", ai);
    raw("to.p", &to.p);
    raw2("to.q", to.q);
    raw("ti.p", &ti.p);
    raw2("ti.q", ti.q);
  }
  // memory of a leaf
  std::map<std::string, std::function<void(long long)>> memory;
  template <class T> void raw(const std::string &n, T *p) {
    memory["C." + n] = [p](long long v) { *p = typed<T>(v); };
  }
  template <class T> void raw2(const std::string &n, T *p) {
    raw(n + "[0]", p);
    raw(n + "[1]", p + 1);
  }
};
class CompD : public Comp {
public:
  explicit CompD(Smp::Publication::ITypeRegistry *r) : Comp("D", r) {
    i<Xsmp::Field<I>::input>("i");
    i<Xsmp::Field<I>::output::input>("io");
    si<Xsmp::Field<SimpleI>::input>("si");
    ai<Xsmp::Field<ArrayI>::input>("ai");
    ti<Xsmp::Field<StructI>::input>("ti");
  }
};
static std::map<std::string, Comp *> comps;
static CompC *byAddress;

static void reset() {
  fields.clear();
  leaves.clear();
  wholes.clear();
  comps.clear();
  sim.reset();
  sim = std::make_unique<Xsmp::Simulator>("sim", "");
  auto *r = sim->GetTypeRegistry();
  const auto i = Smp::Uuids::Uuid_Int32, d = Smp::Uuids::Uuid_Float64;
  r->AddArrayType("SI", "", SI, i, 4, 2, true);
  r->AddArrayType("SD", "", SD, d, 8, 2, true);
  r->AddArrayType("AI", "", AI, i, 4, 2, false);
  r->AddArrayType("AD", "", AD, d, 8, 2, false);
  auto *t = r->AddStructureType("TI", "", TI);
  t->AddField("p", "", i, 0, Smp::ViewKind::VK_All, true, false, false);
  t->AddField("q", "", SI, 4, Smp::ViewKind::VK_All, true, false, false);
  t = r->AddStructureType("TD", "", TD);
  t->AddField("p", "", d, 0, Smp::ViewKind::VK_All, true, false, false);
  t->AddField("q", "", SI, 8, Smp::ViewKind::VK_All, true, false, false);
  r->AddArrayType("RI", "", RI, TI, 12, 2, false);
  auto *e = r->AddEnumerationType("EN", "", EN, 4);
  for (int l = 0; l < 6; ++l)
    e->AddLiteral(("l" + std::to_string(l)).c_str(), "", l);
  r->AddArrayType("SE", "", SE, EN, 4, 2, true);
  sim->AddService(new vm::QuietLogger("log", "", sim.get(), sim.get()));
  sim->AddService(
      new Xsmp::Services::XsmpEventManager("em", "", sim.get(), sim.get()));
  sim->AddService(
      new Xsmp::Services::XsmpResolver("res", "", sim.get(), sim.get()));
  sim->AddService(
      new Xsmp::Services::XsmpTimeKeeper("tk", "", sim.get(), sim.get()));
  sim->AddService(
      new Xsmp::Services::XsmpScheduler("sched", "", sim.get(), sim.get()));
  comps = {{"A", new CompA(r)},
           {"B", new CompB(r)},
           {"C", byAddress = new CompC(r)},
           {"D", new CompD(r)}};
  for (auto &c : comps)
    sim->AddModel(c.second);
  sim->Publish();
  sim->Configure();
  sim->Connect();
  for (auto &c : comps)
    for (auto *f : *c.second->GetFields())
      name(c.first + "." + f->GetName(), f);
}
static std::string state() {
  std::string v, f;
  for (auto &x : fields) {
    auto *s = dynamic_cast<Smp::ISimpleField *>(x.second);
    auto *a = dynamic_cast<Smp::ISimpleArrayField *>(x.second);
    if (s)
      v += "," + vh::jstr(x.first) + ":" + std::to_string(number(s->GetValue()));
    else if (a) {
      std::vector<Smp::AnySimple> vs(2);
      a->GetValues(2, vs.data());
      for (Smp::UInt64 i = 0; i < 2; ++i) {
        const auto n = number(a->GetValue(i));
        v += "," + vh::jstr(x.first + "[" + std::to_string(i) + "]") + ":" +
             std::to_string(n == number(vs[i]) ? n : -3000);
      }
    }
    if (auto *o = dynamic_cast<Smp::IForcibleField *>(x.second))
      f += "," + vh::jstr(x.first) + ":" + (o->IsForced() ? "true" : "false");
  }
  return "\"v\":{" + v.substr(1) + "},\"f\":{" + f.substr(1) + "}";
}
static std::string outcome(const std::string &e) {
  return "{\"e\":" + vh::jstr(e) + "," + state() + "}";
}
static std::string refusal(const std::string &e) {
  return e == "InvalidAnyType" || e == "InvalidFieldValue" ||
                 e == "InvalidArrayValue"
             ? "refused"
             : e;
}
static Smp::AnySimple text() { return {Kind::PTK_String8, "text"}; }

int main() {
  return vh::drive(reset, [&](const vh::Op &op) -> std::string {
    const auto &n = op.name;
    if (n == "set")
      return outcome(vm::err([&] {
        const auto how = static_cast<int>(op.i("how"));
        const auto m = byAddress->memory.find(op.s("l"));
        if (m != byAddress->memory.end() && how >= 3)
          m->second(op.i("v"));
        else
          leaves.at(op.s("l"))(how, op.i("v"));
      }));
    if (n == "setAll")
      return outcome(vm::err([&] {
        const auto vs = op.ints("vs");
        const auto how = static_cast<int>(op.i("how"));
        const auto w = wholes.find(op.s("f"));
        if (w != wholes.end() && w->second(how, vs))
          return;
        auto *f = fields.at(op.s("f"));
        if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
          std::vector<Smp::AnySimple> values;
          for (auto v : vs)
            values.push_back(any(kindOf(a), v));
          a->SetValues(values.size(), values.data());
          return;
        }
        size_t k = 0;
        const std::function<void(const std::string &, Smp::IField *)> all =
            [&](const std::string &s, Smp::IField *x) {
              if (auto *a = dynamic_cast<Smp::IArrayField *>(x))
                for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
                  all(s + "[" + std::to_string(i) + "]", a->GetItem(i));
              else if (auto *t = dynamic_cast<Smp::IStructureField *>(x))
                for (auto *y : *t->GetFields())
                  all(s + "." + y->GetName(), y);
              else if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(x))
                for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
                  leaves.at(s + "[" + std::to_string(i) + "]")(how, vs.at(k++));
              else
                leaves.at(s)(how, vs.at(k++));
            };
        all(op.s("f"), f);
      }));
    if (n == "wrong")
      return outcome(refusal(vm::err([&] {
        auto *f = fields.at(op.s("u"));
        if (auto *s = dynamic_cast<Smp::ISimpleField *>(f))
          s->SetValue(text());
        else
          dynamic_cast<Smp::ISimpleArrayField *>(f)->SetValue(
              static_cast<Smp::UInt64>(op.i("i")), text());
      })));
    if (n == "size")
      return outcome(vm::err([&] {
        auto *f =
            dynamic_cast<Smp::ISimpleArrayField *>(fields.at(op.s("f")));
        std::vector<Smp::AnySimple> values;
        for (int i = 0; i < op.i("n"); ++i)
          values.push_back(any(kindOf(f), 1));
        if (op.b("get"))
          f->GetValues(values.size(), values.data());
        else
          f->SetValues(values.size(), values.data());
      }));
    if (n == "index")
      return outcome(vm::err([&] {
        auto *f = fields.at(op.s("f"));
        const auto i = static_cast<Smp::UInt64>(op.i("n"));
        if (auto *a = dynamic_cast<Smp::IArrayField *>(f))
          a->GetItem(i);
        else if (auto *s = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
          if (op.b("get"))
            s->GetValue(i);
          else
            s->SetValue(i, any(kindOf(s), 1));
        }
      }));
    if (n == "force" || n == "forceWrong" || n == "unforce" || n == "freeze") {
      auto e = vm::err([&] {
        auto *f = dynamic_cast<Smp::IForcibleField *>(fields.at(op.s("l")));
        if (n == "force")
          f->Force(any(f->GetPrimitiveTypeKind(), op.i("v")));
        else if (n == "forceWrong")
          f->Force(text());
        else if (n == "unforce")
          f->Unforce();
        else
          f->Freeze();
      });
      return outcome(n == "forceWrong" ? refusal(e) : e);
    }
    if (n == "connect")
      return outcome(vm::err([&] {
        auto *b = fields.at(op.s("b"));
        if (auto *a = dynamic_cast<Smp::IDataflowField *>(fields.at(op.s("a"))))
          a->Connect(b);
        else // nothing to connect it with
          Xsmp::Exception::throwInvalidTarget(fields.at(op.s("a")), nullptr, b);
      }));
    if (n == "disconnect")
      return outcome(vm::err([&] {
        dynamic_cast<Xsmp::detail::IDataflowFieldExtension &>(
            *fields.at(op.s("a")))
            .Disconnect(fields.at(op.s("b")));
      }));
    if (n == "push")
      return outcome(vm::err([&] {
        dynamic_cast<Smp::IDataflowField &>(*fields.at(op.s("a"))).Push();
      }));
    if (n == "unlink")
      return outcome(vm::err([&] {
        static_cast<Smp::ILinkingComponent *>(comps.at(op.s("x")))
            ->RemoveLinks(comps.at(op.s("y")));
      }));
    return outcome("?");
  });
}
