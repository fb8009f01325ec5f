// C20: event sources and event sinks, entry points and failures.
#include "smp.h"
#include <Smp/InvalidAnyType.h>
#include <Smp/AnySimple.h>
#include <Smp/IEventSink.h>
#include <Smp/IEventSource.h>
#include <Smp/IFailure.h>
#include <Smp/ILinkingComponent.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Simulator.h>
#include <functional>
#include <memory>
using Kind = Smp::PrimitiveTypeKind;
class Comp : public Xsmp::Model,
             public virtual Xsmp::EventProvider,
             public virtual Xsmp::EventConsumer,
             public virtual Xsmp::EntryPointPublisher,
             public virtual Xsmp::FallibleModel {
public:
  using Model::Model;
};
static std::unique_ptr<Xsmp::Simulator> sim;
static std::map<std::string, Comp *> comps;
static std::vector<std::shared_ptr<void>> all;
static std::vector<std::string> tape;
static std::map<std::string, std::vector<vh::Op>> scripts;
static std::map<std::string, Smp::IEventSink *> sinks;
static std::map<std::string, Smp::IEventSource *> sources;
static std::map<std::string, std::function<void(Smp::IObject *, long long)>>
    emitters;
static std::map<std::string, int> runs; // of the entry points
static void act(const vh::Op &o);
static std::string sender(Smp::IObject *o) {
  for (auto &c : comps)
    if (o == static_cast<Smp::IModel *>(c.second))
      return c.first;
  return o ? "?" : "none";
}
static Smp::IObject *object(const std::string &n) {
  auto it = comps.find(n);
  return it == comps.end() ? nullptr : static_cast<Smp::IModel *>(it->second);
}
static void notified(const std::string &b, Smp::IObject *o, long long v) {
  tape.push_back("{\"t\":\"n\",\"b\":" + vh::jstr(b) +
                 ",\"snd\":" + vh::jstr(sender(o)) +
                 ",\"v\":" + std::to_string(v) + "}");
  if (tape.size() > 5000) {
    std::fprintf(stderr, "ERROR: notifications without end\n");
    std::exit(4);
  }
  const auto todo = scripts[b];
  scripts[b].clear();
  for (auto &x : todo)
    act(x);
}
// a sink that is not of the SDK
class Own : public Smp::IEventSink {
public:
  Own(std::string n, Smp::IObject *p) : name(std::move(n)), parent(p) {}
  std::string name;
  Smp::IObject *parent;
  Smp::String8 GetName() const override { return name.c_str(); }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return parent; }
  Kind GetEventArgType() const override { return Kind::PTK_Int32; }
  void Notify(Smp::IObject *s, Smp::AnySimple v) override {
    notified(name, s, static_cast<Smp::Int32>(v));
  }
};
static long long half(double d) {
  return static_cast<long long>(d * 2) == d * 2 ? static_cast<long long>(d * 2)
                                                : -1000;
}
template <class T, class... A> static T *make(A &&...a) {
  auto p = std::make_shared<T>(std::forward<A>(a)...);
  all.push_back(p);
  return p.get();
}
static void reset() {
  comps.clear();
  scripts.clear();
  sinks.clear();
  sources.clear();
  emitters.clear();
  runs.clear();
  tape.clear();
  sim.reset();
  all.clear();
  sim = std::make_unique<Xsmp::Simulator>("sim", "");
  for (auto *n : {"P", "Q"}) {
    comps[n] = new Comp(n, "", sim.get(), sim.get());
    sim->AddModel(comps[n]);
  }
  auto *p = comps["P"], *q = comps["Q"];
  auto provider = static_cast<Xsmp::EventProvider *>(p);
  for (auto *n : {"s1", "s2"}) {
    auto *s = make<Xsmp::EventSource<Smp::Int32>>(n, "", provider,
                                                  Kind::PTK_Int32);
    sources[n] = s;
    emitters[n] = [s](Smp::IObject *o, long long v) {
      const auto x = static_cast<Smp::Int32>(v);
      if (o == static_cast<Smp::IModel *>(comps["P"]) && v % 2)
        v % 4 == 1 ? s->Emit(x) : (*s)(x); // of its parent
      else
        v % 3 ? s->Emit(o, x) : (*s)(o, x);
    };
  }
  auto *v1 = make<Xsmp::EventSource<>>("v1", "", provider);
  sources["v1"] = v1;
  emitters["v1"] = [v1](Smp::IObject *o, long long v) {
    if (o == static_cast<Smp::IModel *>(comps["P"]) && v % 2)
      v % 4 == 1 ? v1->Emit() : (*v1)();
    else
      v % 3 ? v1->Emit(o) : (*v1)(o);
  };
  auto *d1 = make<Xsmp::EventSource<Smp::Float64>>("d1", "", provider,
                                                   Kind::PTK_Float64);
  sources["d1"] = d1;
  emitters["d1"] = [d1](Smp::IObject *o, long long v) {
    const auto x = static_cast<double>(v) / 2;
    v % 3 ? d1->Emit(o, x) : (*d1)(o, x);
  };
  for (auto &i : std::initializer_list<std::pair<const char *, Comp *>>{
           {"i1", p}, {"i2", q}, {"i3", q}}) {
    const std::string n = i.first;
    sinks[n] = make<Xsmp::EventSink<Smp::Int32>>(
        i.first, "", static_cast<Xsmp::EventConsumer *>(i.second),
        [n](Smp::IObject *o, Smp::Int32 v) { notified(n, o, v); },
        Kind::PTK_Int32);
  }
  sinks["i4"] = make<Own>("i4", static_cast<Smp::IModel *>(q));
  for (auto &i : std::initializer_list<std::pair<const char *, Comp *>>{
           {"w1", p}, {"w2", q}}) {
    const std::string n = i.first;
    sinks[n] = make<Xsmp::EventSink<>>(
        i.first, "", static_cast<Xsmp::EventConsumer *>(i.second),
        [n](Smp::IObject *o) { notified(n, o, 0); });
  }
  sinks["e1"] = make<Xsmp::EventSink<Smp::Float64>>(
      "e1", "", static_cast<Xsmp::EventConsumer *>(q),
      [](Smp::IObject *o, Smp::Float64 v) { notified("e1", o, half(v)); },
      Kind::PTK_Float64);
}
static std::string simple(const vh::Op &o) {
  return vm::err([&] {
    if (o.name == "sub")
      sources.at(o.s("a"))->Subscribe(sinks.at(o.s("b")));
    else if (o.name == "unsub")
      sources.at(o.s("a"))->Unsubscribe(sinks.at(o.s("b")));
    else
      static_cast<Smp::ILinkingComponent *>(comps.at(o.s("c")))
          ->RemoveLinks(comps.at(o.s("to")));
  });
}
static void emit(const vh::Op &o) {
  emitters.at(o.s("a"))(object(o.s("snd")), o.i("v"));
  tape.emplace_back("{\"t\":\"e\"}");
}
static void act(const vh::Op &o) {
  if (o.name == "emit") {
    tape.push_back("{\"t\":\"b\",\"a\":" + vh::jstr(o.s("a")) + "}");
    emit(o);
  } else {
    const auto e = simple(o);
    tape.push_back("{\"t\":\"a\",\"e\":" + vh::jstr(e) + "}");
  }
}
static std::string outcome(const std::string &e,
                           const std::string &see = "[]") {
  std::string r = "{\"e\":" + vh::jstr(e) + ",\"see\":" + see + ",\"log\":[";
  const char *sep = "";
  for (auto &x : tape) {
    r += sep + x;
    sep = ",";
  }
  tape.clear();
  return r + "]}";
}
template <class C, class F>
static std::vector<std::string> names(const C *c, Comp *parent, F get) {
  std::vector<std::string> r;
  for (auto *x : *c) {
    const std::string n = x->GetName();
    if (n < "x") // one that was there from the beginning
      continue;
    const bool good = get(x->GetName()) == x &&
                      x->GetParent() == static_cast<Smp::IModel *>(parent) &&
                      std::string("about ") + n == x->GetDescription();
    r.push_back(good ? n : "wrong " + n);
  }
  return r;
}
static std::string see(Comp *c, const std::string &n) {
  auto eps = names(c->GetEntryPoints(), c,
                   [&](const char *s) { return c->GetEntryPoint(s); });
  std::string r =
      "{\"objs\":{\"source\":" +
      vh::jstrs(names(c->GetEventSources(), c,
                      [&](const char *s) { return c->GetEventSource(s); })) +
      ",\"sink\":" +
      vh::jstrs(names(c->GetEventSinks(), c,
                      [&](const char *s) { return c->GetEventSink(s); })) +
      ",\"ep\":" + vh::jstrs(eps) + ",\"failure\":" +
      vh::jstrs(names(c->GetFailures(), c,
                      [&](const char *s) { return c->GetFailure(s); })) +
      "},\"fail\":[";
  const char *sep = "";
  for (auto *f : *c->GetFailures()) {
    r += std::string(sep) + (f->IsFailed() ? "true" : "false");
    sep = ",";
  }
  r += std::string("],\"any\":") + (c->IsFailed() ? "true" : "false") +
       ",\"runs\":[";
  sep = "";
  for (auto &e : eps) {
    r += sep + std::to_string(runs[n + "." + e]);
    sep = ",";
  }
  return r + "]}";
}

int main() {
  return vh::drive(reset, [&](const vh::Op &op) -> std::string {
    const auto &n = op.name;
    if (n == "sub" || n == "unsub" || n == "unlink")
      return outcome(simple(op));
    if (n == "script") {
      scripts[op.s("b")] = op.ops("acts");
      return outcome("ok");
    }
    if (n == "emit")
      return outcome(vm::err([&] { emit(op); }));
    if (n == "notify")
      return outcome(vm::err([&] {
        auto *b = sinks.at(op.s("b"));
        const auto v = op.i("v");
        b->Notify(object(op.s("snd")),
                  b->GetEventArgType() == Kind::PTK_None ? Smp::AnySimple{}
                  : b->GetEventArgType() == Kind::PTK_Float64
                      ? Smp::AnySimple{Kind::PTK_Float64,
                                       static_cast<double>(v) / 2}
                      : Smp::AnySimple{Kind::PTK_Int32,
                                       static_cast<Smp::Int32>(v)});
      }));
    if (n == "novalue") {
      std::string kinds;
      auto e = vm::err([&] {
        try {
          sinks.at(op.s("b"))
              ->Notify(nullptr, Smp::AnySimple{Kind::PTK_Int32, Smp::Int32(1)});
        } catch (const Smp::InvalidAnyType &x) {
          kinds = " " + std::to_string(static_cast<int>(x.GetInvalidType())) +
                  " for " + std::to_string(static_cast<int>(x.GetExpectedType()));
          throw;
        }
      });
      return outcome(e + kinds);
    }
    if (n == "make") {
      auto *c = comps.at(op.s("c"));
      const auto k = op.s("k"), name = op.s("n"), about = "about " + name,
                 full = op.s("c") + "." + name;
      return outcome(vm::err([&] {
        if (k == "source")
          make<Xsmp::EventSource<>>(name.c_str(), about.c_str(),
                                    static_cast<Xsmp::EventProvider *>(c));
        else if (k == "sink")
          make<Xsmp::EventSink<>>(name.c_str(), about.c_str(),
                                  static_cast<Xsmp::EventConsumer *>(c),
                                  [](Smp::IObject *) {});
        else if (k == "ep")
          make<Xsmp::EntryPoint>(name.c_str(), about.c_str(),
                                 static_cast<Xsmp::EntryPointPublisher *>(c),
                                 [full] { ++runs[full]; });
        else
          make<Xsmp::Field<Smp::Bool>::failure>(
              sim->GetTypeRegistry(), Smp::Uuids::Uuid_Bool, name.c_str(),
              about.c_str(), static_cast<Smp::IModel *>(c));
      }));
    }
    if (n == "fail" || n == "unfail")
      return outcome(vm::err([&] {
        auto *f = comps.at(op.s("c"))->GetFailure(op.s("n").c_str());
        n == "fail" ? f->Fail() : f->Unfail();
      }));
    if (n == "run")
      return outcome(vm::err([&] {
        comps.at(op.s("c"))->GetEntryPoint(op.s("n").c_str())->Execute();
      }));
    if (n == "see")
      return outcome("ok", see(comps.at(op.s("c")), op.s("c")));
    return outcome("?");
  });
}
