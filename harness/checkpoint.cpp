// C22: storing and restoring a simulation.
#include "smp.h"
#include <Smp/IPersist.h>
#include <Smp/IArrayField.h>
#include <Smp/IForcibleField.h>
#include <Smp/IPublication.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Array.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <atomic>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <limits>
#include <memory>
#include <thread>
#include <unistd.h>
namespace fs = std::filesystem;
static constexpr Smp::Duration Unit = 1000;
static constexpr long long Never = 1000000000;

static std::unique_ptr<Xsmp::Simulator> sim;
static Xsmp::Services::XsmpEventManager *em;
static Xsmp::Services::XsmpScheduler *sched;
static Xsmp::Services::XsmpTimeKeeper *tk;
static std::string dir;
static std::vector<std::string> tape;
static std::atomic<int> zulus{0};

static const Smp::Uuid S{"11111111-1111-1111-1111-111111111111"},
    A{"22222222-2222-2222-2222-222222222222"},
    T{"33333333-3333-3333-3333-333333333333"},
    B{"44444444-4444-4444-4444-444444444444"};
struct Two {
  Smp::Int32 p, q;
  template <typename Base> struct _Field : public Base {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid u, Smp::String8 name,
           Smp::String8 d = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Two &v = {})
        : Base(r, u, name, d, parent, view),
          p{r, Smp::Uuids::Uuid_Int32, "p", "", this, view, v.p},
          q{r, Smp::Uuids::Uuid_Int32, "q", "", this, view, v.q} {}
    typename Base::template Field<Smp::Int32> p;
    typename Base::template Field<Smp::Int32>::transient q;
  };
};
static std::string units(Smp::Duration d) {
  if (d == std::numeric_limits<Smp::Duration>::max())
    return std::to_string(Never);
  if (d % Unit)
    return vh::jstr("not a whole number of units");
  return std::to_string(d / Unit);
}
static void visit(const char *ep) {
  if (ep[0] == 's') {
    tape.push_back(vh::jstr(ep));
    return;
  }
  tape.push_back("{\"k\":" + vh::jstr(ep) +
                 ",\"id\":" + std::to_string(sched->GetCurrentEventId()) +
                 ",\"now\":" + units(tk->GetSimulationTime()) +
                 ",\"ep\":" + units(tk->GetEpochTime()) +
                 ",\"mi\":" + units(tk->GetMissionTime()) + "}");
  if (tape.size() > 20000) {
    std::fprintf(stderr, "ERROR: entry points are executed without end\n");
    std::exit(4);
  }
}
// the content of a component, for a model and for a service
template <class Base>
class Comp : public Base,
             public virtual Smp::IPersist,
             public virtual Xsmp::EntryPointPublisher {
public:
  using Array = Xsmp::Array<Smp::Int32, 2>;
  Comp(const char *n, const char *e, const char *s, Smp::IComposite *parent,
       Smp::Publication::ITypeRegistry *r)
      : Base(n, "", parent, sim.get()),
        run(e, "", static_cast<Xsmp::EntryPointPublisher *>(this),
            [e] { visit(e); }),
        call(s, "", static_cast<Xsmp::EntryPointPublisher *>(this),
             [s] { visit(s); }),
        zulu("zulu", "", static_cast<Xsmp::EntryPointPublisher *>(this),
             [] { ++zulus; }),
        i(r, Smp::Uuids::Uuid_Int32, "i", "", this),
        d(r, Smp::Uuids::Uuid_Float64, "d", "", this),
        t(r, Smp::Uuids::Uuid_Int32, "t", "", this),
        f(r, Smp::Uuids::Uuid_Int64, "f", "", this),
        o(r, Smp::Uuids::Uuid_Int32, "o", "", this),
        a(r, A, "a", "", this), aa(r, A, "aa", "", this),
        st(r, T, "st", "", this) {}
  Xsmp::EntryPoint run, call, zulu;
  Xsmp::Field<Smp::Int32> i;
  Xsmp::Field<Smp::Float64> d;
  Xsmp::Field<Smp::Int32>::transient t;
  Xsmp::Field<Smp::Int64>::forcible f;
  Xsmp::Field<Smp::Int32>::output o;
  Xsmp::Field<Array::simple> a;
  Xsmp::Field<Array> aa;
  Xsmp::Field<Two> st;
  Smp::Int16 p = 0, q = 0;
  Smp::UInt16 l[2]{};
  Smp::Int32 rec[2]{}, table[2][2]{}, n[2]{};
  int h = 0;
  Smp::IObject *g = nullptr;

  void Publish(Smp::IPublication *pub) override {
    Base::Publish(pub);
    for (Smp::IField *x : std::initializer_list<Smp::IField *>{
             &i, &d, &t, &f, &o, &a, &aa, &st})
      pub->PublishField(x);
    const auto v = Smp::ViewKind::VK_All;
    pub->PublishField("p", "", &p, v, true, false, false);
    pub->PublishField("q", "", &q, v, false, false, false);
    pub->PublishArray("l", "", 2, l, Smp::PrimitiveTypeKind::PTK_UInt16, v,
                      true, false, false);
    pub->PublishField("r", "", rec, S, v, true, false, false);
    pub->PublishField("b", "", table, B, v, true, false, false);
    pub->PublishArray("n", "", 2, n, Smp::PrimitiveTypeKind::PTK_Int32, v,
                      false, false, false);
  }
  // a state of its own, besides the fields
  void Store(Smp::IStorageWriter *w) override {
    const std::vector<Smp::Int8> part(static_cast<size_t>(h % 7),
                                      static_cast<Smp::Int8>(h));
    const std::map<std::string, int> m{{"h", h}, {std::string(h % 5, 'x'), 7}};
    Xsmp::Persist::Store(this->GetSimulator(), this, w, part, m, g);
  }
  void Restore(Smp::IStorageReader *rd) override {
    std::vector<Smp::Int8> part;
    std::map<std::string, int> m;
    Xsmp::Persist::Restore(this->GetSimulator(), this, rd, part, m, g);
    h = m["h"];
    if (part != std::vector<Smp::Int8>(static_cast<size_t>(h % 7),
                                       static_cast<Smp::Int8>(h)) ||
        m != std::map<std::string, int>{{"h", h}, {std::string(h % 5, 'x'), 7}})
      h = -1;
  }
  Smp::IField *field(const std::string &s) {
    auto elem = [&](const char *n, const std::string &m) -> Smp::IField * {
      auto *x = this->GetField(n);
      if (auto *st = dynamic_cast<Smp::IStructureField *>(x))
        return st->GetField(m.c_str());
      return dynamic_cast<Smp::IArrayField *>(x)->GetItem(
          static_cast<Smp::UInt64>(std::stoi(m)));
    };
    return s == "A0"   ? elem("aa", "0")
           : s == "A1" ? elem("aa", "1")
           : s == "sp" ? elem("st", "p")
           : s == "sq" ? elem("st", "q")
           : s == "ra" ? elem("r", "a")
           : s == "rb" ? elem("r", "b")
           : s == "ba" ? dynamic_cast<Smp::IStructureField *>(elem("b", "0"))
                             ->GetField("a")
           : s == "bb" ? dynamic_cast<Smp::IStructureField *>(elem("b", "1"))
                             ->GetField("b")
                       : this->GetField(s.c_str());
  }
  long long get(const std::string &s);
  void put(const std::string &s, long long v);
};
class Child : public Comp<Xsmp::Model>, public virtual Xsmp::FallibleModel {
public:
  Child(const char *n, const char *e, const char *s, Smp::IComposite *p,
        Smp::Publication::ITypeRegistry *r)
      : Comp(n, e, s, p, r), x(r, Smp::Uuids::Uuid_Bool, "x", "", this) {}
  void Publish(Smp::IPublication *pub) override {
    Comp::Publish(pub);
    pub->PublishField(&x);
  }
  Xsmp::Field<Smp::Bool>::failure x;
};
class Parent : public Child, public virtual Xsmp::Composite {
public:
  using Child::Child;
  Xsmp::Container<Smp::IModel> kids{"kids", "", this, 0, -1};
};
class Serv : public Comp<Xsmp::Service> {
public:
  using Comp::Comp;
  long long x = 0;
  void Store(Smp::IStorageWriter *w) override {
    Comp::Store(w);
    Xsmp::Persist::Store(GetSimulator(), this, w, x);
  }
  void Restore(Smp::IStorageReader *rd) override {
    Comp::Restore(rd);
    Xsmp::Persist::Restore(GetSimulator(), this, rd, x);
  }
};
static Parent *m;
static Child *kid;
static Serv *sv;
static Smp::IObject *target(long long v) {
  return v == 1   ? static_cast<Smp::IObject *>(static_cast<Smp::IModel *>(m))
         : v == 2 ? static_cast<Smp::IObject *>(static_cast<Smp::IModel *>(kid))
         : v == 3 ? static_cast<Smp::IObject *>(static_cast<Smp::IService *>(sv))
                  : nullptr;
}
static const char *const slots[] = {
    "i",  "d",  "t",  "f", "x", "a0", "a1", "A0", "A1", "sp", "sq", "o",
    "p",  "q",  "l0", "l1", "ra", "rb", "ba", "bb", "n0", "h",  "g"};
template <class Base> long long Comp<Base>::get(const std::string &s) {
  if (s == "h")
    return h;
  if (s == "g") {
    for (long long v = 0; v < 4; ++v)
      if (target(v) == g)
        return v;
    return -1;
  }
  if (s == "a0" || s == "a1" || s == "l0" || s == "l1" || s == "n0") {
    const auto v = dynamic_cast<Smp::ISimpleArrayField *>(
                       this->GetField(s.substr(0, 1).c_str()))
                       ->GetValue(static_cast<Smp::UInt64>(s[1] - '0'));
    return s[0] == 'l' ? static_cast<Smp::UInt16>(v) : static_cast<Smp::Int32>(v);
  }
  const auto v = dynamic_cast<Smp::ISimpleField *>(field(s))->GetValue();
  return s == "d"                ? static_cast<long long>(static_cast<Smp::Float64>(v))
         : s == "f"              ? static_cast<Smp::Int64>(v)
         : s == "p" || s == "q" ? static_cast<Smp::Int16>(v)
                                 : static_cast<Smp::Int32>(v);
}
template <class Base>
void Comp<Base>::put(const std::string &s, long long v) {
  using K = Smp::PrimitiveTypeKind;
  if (s == "h")
    h = static_cast<int>(v);
  else if (s == "g")
    g = target(v);
  else if (s == "a0" || s == "a1" || s == "l0" || s == "l1" || s == "n0")
    dynamic_cast<Smp::ISimpleArrayField *>(
        this->GetField(s.substr(0, 1).c_str()))
        ->SetValue(static_cast<Smp::UInt64>(s[1] - '0'),
                   s[0] == 'l'
                       ? Smp::AnySimple{K::PTK_UInt16, static_cast<Smp::UInt16>(v)}
                       : Smp::AnySimple{K::PTK_Int32, static_cast<Smp::Int32>(v)});
  else
    dynamic_cast<Smp::ISimpleField *>(field(s))->SetValue(
        s == "d" ? Smp::AnySimple{K::PTK_Float64, static_cast<Smp::Float64>(v)}
        : s == "f" ? Smp::AnySimple{K::PTK_Int64, static_cast<Smp::Int64>(v)}
        : s == "p" || s == "q"
            ? Smp::AnySimple{K::PTK_Int16, static_cast<Smp::Int16>(v)}
            : Smp::AnySimple{K::PTK_Int32, static_cast<Smp::Int32>(v)});
}
static long long get(const std::string &i, const std::string &s) {
  if (i == "sv")
    return s == "x" ? sv->x : sv->get(s);
  auto *c = i == "m" ? m : kid;
  return s == "x" ? c->x.IsFailed() : c->get(s);
}
static void put(const std::string &i, const std::string &s, long long v) {
  if (s == "x") {
    if (i == "sv")
      sv->x = v;
    else if (v)
      (i == "m" ? m : kid)->x.Fail();
    else
      (i == "m" ? m : kid)->x.Unfail();
  } else if (i == "sv")
    sv->put(s, v);
  else
    (i == "m" ? m : kid)->put(s, v);
}
static Smp::IForcibleField *forcible(const std::string &i) {
  return i == "sv" ? static_cast<Smp::IForcibleField *>(&sv->f)
                   : &(i == "m" ? m : kid)->f;
}
static void build(bool more) {
  sim.reset();
  sim = std::make_unique<Xsmp::Simulator>("sim");
  auto *r = sim->GetTypeRegistry();
  auto *s = r->AddStructureType("S", "", S);
  s->AddField("a", "", Smp::Uuids::Uuid_Int32, 0);
  s->AddField("b", "", Smp::Uuids::Uuid_Int32, 4);
  auto *t = r->AddStructureType("T", "", T);
  t->AddField("p", "", Smp::Uuids::Uuid_Int32, 0);
  t->AddField("q", "", Smp::Uuids::Uuid_Int32, 4);
  r->AddArrayType("A", "", A, Smp::Uuids::Uuid_Int32, 4, 2, true);
  r->AddArrayType("B", "", B, S, 8, 2, false);
  sim->AddService(new vm::QuietLogger("log", "", sim.get(), sim.get()));
  em = new Xsmp::Services::XsmpEventManager("em", "", sim.get(), sim.get());
  sim->AddService(em);
  sim->AddService(
      new Xsmp::Services::XsmpResolver("res", "", sim.get(), sim.get()));
  tk = new Xsmp::Services::XsmpTimeKeeper("tk", "", sim.get(), sim.get());
  sim->AddService(tk);
  sched = new Xsmp::Services::XsmpScheduler("sched", "", sim.get(), sim.get());
  sim->AddService(sched);
  sim->AddService(sv = new Serv("sv", "e3", "s3", sim.get(), r));
  sim->AddModel(m = new Parent("m", "e1", "s1", sim.get(), r));
  m->kids.AddComponent(kid = new Child("kid", "e2", "s2", m, r));
  if (more)
    m->kids.AddComponent(new Child("kid2", "e4", "s4", m, r));
  sim->Publish();
  sim->Configure();
  sim->Connect();
  sched->SetTargetSpeed(100.);
  tape.clear();
}
static void reset() {
  build(false);
  std::error_code e;
  for (auto &x : fs::directory_iterator(dir, e))
    fs::remove_all(x.path(), e);
}
static std::string file(long long k) { return dir + "/" + std::to_string(k); }
static std::string memory() {
  std::string r = "{\"mem\":{", forced;
  const char *sep = "";
  for (const char *i : {"m", "kid", "sv"}) {
    r += sep + vh::jstr(i) + ":{";
    forced += sep + vh::jstr(i) + ":" +
              (forcible(i)->IsForced() ? "true" : "false");
    sep = "";
    for (auto *s : slots) {
      r += sep + vh::jstr(s) + ":" + std::to_string(get(i, s));
      sep = ",";
    }
    r += "}";
  }
  return r + "},\"forced\":{" + forced +
         "},\"now\":" + units(tk->GetSimulationTime()) +
         ",\"ep\":" + units(tk->GetEpochTime()) +
         ",\"ms\":" + units(tk->GetMissionStartTime()) +
         ",\"next\":" + units(sched->GetNextScheduledEventTime()) +
         ",\"st\":" + vh::jstr(vm::name(sim->GetState())) + "}";
}
static std::string log() {
  std::string r = "[";
  for (auto &x : tape)
    r += (r.size() > 1 ? "," : "") + x;
  tape.clear();
  return r + "]";
}
static bool wait(int ms) {
  for (; ms > 0 && !zulus; --ms)
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  return zulus > 0;
}
// a zulu time event and a restoration; the machine may be too slow
static std::string zulu(const std::string &mode, bool late) {
  for (Smp::Duration delay = 200'000'000; delay < 7'000'000'000; delay *= 2) {
    build(false);
    zulus = 0;
    const auto at = tk->GetZuluTime() + delay;
    Smp::Services::EventId id = -1;
    if (!late)
      id = sched->AddZuluTimeEvent(&m->zulu, at);
    sim->Store(file(99).c_str());
    if (late)
      id = sched->AddZuluTimeEvent(&m->zulu, at);
    if (mode == "fresh" && !late)
      build(false);
    if (mode == "remove")
      sched->RemoveEvent(id);
    if (mode == "moved")
      sched->SetEventZuluTime(id, at + 10 * delay);
    const bool early = zulus > 0;
    sim->Restore(file(99).c_str());
    if (early || zulus > 0 || tk->GetZuluTime() >= at)
      continue; // too late to tell
    const int ms = static_cast<int>(delay / 1000000);
    wait(late ? ms + 100 : ms + 5000);
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    const int n = zulus;
    build(false);
    return vh::out("ok", std::to_string(n));
  }
  build(false);
  return vh::out("ok", late ? "0" : "1");
}
static std::string exec(const vh::Op &o) {
  const auto &n = o.name;
  const auto i = o.has("i") ? o.s("i") : "";
  auto t = [&] { return o.i("t") * Unit; };
  long long value = 0;
  if (n == "put" || n == "force" || n == "freeze" || n == "unforce") {
    const auto s = n == "put" ? o.s("s") : "f";
    const auto e = vm::err([&] {
      if (n == "put")
        put(i, s, o.i("v"));
      else if (n == "force")
        forcible(i)->Force({Smp::PrimitiveTypeKind::PTK_Int64,
                            static_cast<Smp::Int64>(o.i("v"))});
      else if (n == "freeze")
        forcible(i)->Freeze();
      else
        forcible(i)->Unforce();
    });
    return vh::out(e, std::to_string(get(i, s)));
  }
  if (n == "store" || n == "fresh")
    return vm::guard([&] {
      if (n == "store")
        sim->Store(file(o.i("k")).c_str());
      else
        build(false);
      return vh::out("ok", memory());
    });
  if (n == "zulu")
    return vm::guard([&] { return zulu(o.s("mode"), o.i("late") != 0); });
  if (n == "stray" || n == "nostore") {
    Xsmp::Model other{"other", "", nullptr, nullptr};
    Xsmp::EntryPoint ep{"ep", "", &other, [] {}};
    const auto path = file(98);
    const auto e = vm::err([&] {
      if (n == "nostore") {
        std::ofstream{path + "f"} << "a file";
        sim->Store((path + "f/x").c_str());
        return;
      }
      if (o.s("w") == "sched")
        sched->AddSimulationTimeEvent(&ep, 1000);
      else if (o.s("w") == "em")
        em->Subscribe(em->QueryEventId("e"), &ep);
      else
        kid->g = &other;
      sim->Store(path.c_str());
      sim->Restore(path.c_str());
    });
    build(false);
    return vh::out(e, memory());
  }
  if (n == "restore" || n == "cut" || n == "more") {
    const auto path = file(o.i("k")), bin = path + "/simulator.bin";
    if (n == "cut") {
      fs::resize_file(bin, fs::file_size(bin) * static_cast<size_t>(o.i("p")) / 100);
    } else if (n == "more")
      build(true);
    const auto e = vm::err([&] { sim->Restore(path.c_str()); });
    if (n == "cut") {
      std::error_code ec;
      fs::remove_all(path, ec);
    }
    if (e != "ok" || n != "restore")
      build(false); // a failed restoration leaves no usable simulation
    return vh::out(e, memory());
  }
  const auto e = vm::err([&] {
    if (n == "add") {
      const auto ep = o.s("ep"), kind = o.s("kind");
      const auto *p = ep == "e1"   ? &m->run
                      : ep == "e2" ? &kid->run
                                   : &sv->run;
      const auto c = o.i("c") * Unit;
      const auto r = o.i("r");
      value = kind == "imm"     ? sched->AddImmediateEvent(p)
              : kind == "sim"   ? sched->AddSimulationTimeEvent(p, t(), c, r)
              : kind == "epoch" ? sched->AddEpochTimeEvent(p, t(), c, r)
                                : sched->AddMissionTimeEvent(p, t(), c, r);
    } else if (n == "set") {
      const auto kind = o.s("kind");
      if (kind == "sim")
        sched->SetEventSimulationTime(o.i("id"), t());
      else if (kind == "epoch")
        sched->SetEventEpochTime(o.i("id"), t());
      else
        sched->SetEventMissionTime(o.i("id"), t());
    } else if (n == "cycle")
      sched->SetEventCycleTime(o.i("id"), o.i("c") * Unit);
    else if (n == "repeat")
      sched->SetEventRepeat(o.i("id"), o.i("r"));
    else if (n == "remove")
      sched->RemoveEvent(o.i("id"));
    else if (n == "set_epoch")
      tk->SetEpochTime(t());
    else if (n == "set_start")
      tk->SetMissionStartTime(t());
    else if (n == "set_mission")
      tk->SetMissionTime(t());
    else if (n == "run")
      sim->Run(t());
    else if (n == "query")
      value = em->QueryEventId(o.s("n").c_str());
    else if (n == "sub" || n == "unsub") {
      const auto ep = o.s("ep");
      const auto *p = ep == "s1"   ? &m->call
                      : ep == "s2" ? &kid->call
                                   : &sv->call;
      if (n == "sub")
        em->Subscribe(o.i("id"), p);
      else
        em->Unsubscribe(o.i("id"), p);
    } else if (n == "emit")
      em->Emit(o.i("id"));
    else {
      std::fprintf(stderr, "unknown operation %s\n", n.c_str());
      std::exit(3);
    }
  });
  const bool events =
      n == "query" || n == "sub" || n == "unsub" || n == "emit";
  return vh::out(e, "{\"id\":" + std::to_string(value) + ",\"log\":" + log() +
                        (events ? "" : ",\"now\":" +
                                           units(tk->GetSimulationTime())) +
                        "}");
}
int main() {
  char tmp[] = "/tmp/checkpointXXXXXX";
  dir = mkdtemp(tmp);
  const int rc = vh::drive(reset, exec, [] { sim.reset(); });
  std::error_code e;
  fs::remove_all(dir, e);
  return rc;
}
