// C10: the simulator's state machine, component traversals, initialisation
// entry points, libraries.
#include "smp.h"
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <deque>
#include <memory>
#include <set>
#include <unistd.h>

static std::vector<std::string> tape; // what happened during the operation
static std::unique_ptr<Xsmp::Simulator> sim;
static std::string at, act, arg, kind; // one-shot nested operation
static std::map<std::string, Smp::IComponent *> comps;
static std::map<std::string, std::string> parents;
static std::deque<Xsmp::EntryPoint> inits, handlers;
static Xsmp::Services::XsmpEventManager *em;
static std::vector<std::string> deleted;

static void exec1(const std::string &a, const std::string &n,
                  const std::string &k);
static void note(const std::string &t) {
  tape.push_back(sim
                     ? t + "@" + vm::name(sim->GetState())
                     : t);
  if (at == t) {
    at.clear();
    if (act == "throw")
      throw std::runtime_error("handler failure");
    exec1(act, arg, kind);
  }
}

template <class B> class Part : public B {
public:
  using B::B;
  ~Part() override { deleted.push_back(this->GetName()); }
  void Publish(::Smp::IPublication *receiver) override {
    B::Publish(receiver);
    ::Xsmp::Component::Helper::Publish<Part>(this, receiver);
  }
  void Configure(::Smp::Services::ILogger *logger,
                 ::Smp::Services::ILinkRegistry *links) override {
    B::Configure(logger, links);
    ::Xsmp::Component::Helper::Configure<Part>(this, logger, links);
  }
  void Connect(::Smp::ISimulator *s) override {
    B::Connect(s);
    ::Xsmp::Component::Helper::Connect<Part>(this, s);
  }
  void Disconnect() override {
    ::Xsmp::Component::Helper::Disconnect<Part>(this);
    B::Disconnect();
  }
  void DoPublish(::Smp::IPublication *p) {
    note(std::string(p ? "pub:" : "pub?:") + this->GetName());
  }
  void DoConfigure(::Smp::Services::ILogger *l,
                   ::Smp::Services::ILinkRegistry *r) {
    note(std::string(l == sim->GetLogger() && r == sim->GetLinkRegistry()
                         ? "cfg:"
                         : "cfg?:") +
         this->GetName());
  }
  void DoConnect(::Smp::ISimulator *s) {
    note(std::string(s == sim.get() && this->GetSimulator() == s ? "con:"
                                                                 : "con?:") +
         this->GetName());
  }
  void DoDisconnect() {
    note(std::string(this->GetSimulator() == sim.get() ? "dis:" : "dis?:") +
         this->GetName());
  }
};
class Node : public Xsmp::Model, public virtual Xsmp::Composite {
public:
  Node(::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p,
       ::Smp::ISimulator *s)
      : Model(n, d, p, s), kids{"kids", "", this, 0, -1},
        more{"more", "", this, 0, -1} {}
  Xsmp::Container<Smp::IModel> kids, more;
};
using M = Part<Node>;
using S = Part<Xsmp::Service>;

extern "C" bool vh_lib_event(const char *what, void *s) {
  note(std::string(s == static_cast<Smp::ISimulator *>(sim.get()) ? "" : "?") +
       what);
  return true;
}

static std::string res; // error of the last nested operation
// calls on objects that do not exist are left out
static bool legal(const std::string &a, const std::string &n,
                  const std::string &k) {
  if (a == "add_model" || a == "add_more") {
    if (k == "sim" ? a == "add_more"
                   : !comps.count(k) || !dynamic_cast<Node *>(comps.at(k)))
      return false;
    return !comps.count(n) || parents.at(n) == k;
  }
  if (a == "add_service")
    return (!comps.count(n) || parents.at(n) == "sim") &&
           (k != "time_keeper" || em);
  if (a == "reconnect")
    return n == "null" || comps.count(n);
  return a != "presim" || em;
}
static void exec1(const std::string &a, const std::string &n,
                  const std::string &k) {
  res = "ok";
  if (!legal(a, n, k))
    return;
  if (a == "publish")
    sim->Publish();
  else if (a == "configure")
    sim->Configure();
  else if (a == "connect")
    sim->Connect();
  else if (a == "initialise")
    sim->Initialise();
  else if (a == "run")
    sim->Run();
  else if (a == "run_for")
    sim->Run(1000);
  else if (a == "hold")
    sim->Hold(true);
  else if (a == "hold_later")
    sim->Hold(false);
  else if (a == "exit")
    sim->Exit();
  else if (a == "presim")
    em->Emit(Smp::Services::IEventManager::SMP_PreSimTimeChangeId);
  else if (a == "abort")
    sim->Abort();
  else if (a == "reconnect")
    sim->Reconnect(n == "null" ? nullptr : comps.at(n));
  else if (a == "add_init") {
    inits.emplace_back("init", "", sim.get(), [n] { note("init:" + n); });
    sim->AddInitEntryPoint(&inits.back());
  } else if (a == "add_model" || a == "add_more") {
    Smp::IModel *m = nullptr;
    // n is the name, k the parent
    auto *parent = k == "sim" ? static_cast<Smp::IComposite *>(sim.get())
                              : dynamic_cast<Smp::IComposite *>(comps.at(k));
    auto *p = new M(n.c_str(), "", parent, nullptr);
    m = p;
    res = vm::err([&] {
      if (k == "sim")
        sim->AddModel(m);
      else if (a == "add_more")
        dynamic_cast<Node *>(comps.at(k))->more.AddComponent(m);
      else
        dynamic_cast<Node *>(comps.at(k))->kids.AddComponent(m);
    });
    if (res == "ok") {
      comps[n] = p;
      parents[n] = k;
    } else
      delete p, deleted.pop_back();
  } else if (a == "add_service") {
    Smp::IService *s = nullptr;
    bool isEm = false;
    if (k == "logger")
      s = new vm::QuietLogger(n.c_str(), "", sim.get(), sim.get());
    else if (k == "event_manager")
      s = new Xsmp::Services::XsmpEventManager(n.c_str(), "", sim.get(),
                                               sim.get()),
      isEm = true;
    else if (k == "link_registry")
      s = new Xsmp::Services::XsmpLinkRegistry(n.c_str(), "", sim.get(),
                                               sim.get());
    else if (k == "resolver")
      s = new Xsmp::Services::XsmpResolver(n.c_str(), "", sim.get(), sim.get());
    else if (k == "time_keeper")
      s = new Xsmp::Services::XsmpTimeKeeper(n.c_str(), "", sim.get(),
                                             sim.get());
    else
      s = new S(n.c_str(), "", sim.get(), sim.get());
    res = vm::err([&] { sim->AddService(s); });
    if (res == "ok") {
      comps[n] = s;
      parents[n] = "sim";
      if (isEm && !em) {
        em = dynamic_cast<Xsmp::Services::XsmpEventManager *>(s);
        for (auto &e : vm::globalEvents()) {
          if (e.first.find("SimTime") != std::string::npos ||
              e.first.find("TimeChanged") != std::string::npos)
            continue;
          const std::string t = "ev:" + e.first;
          handlers.emplace_back("h", "", sim.get(), [t] { note(t); });
          em->Subscribe(e.second, &handlers.back());
        }
      }
    } else {
      const auto before = deleted.size();
      delete s;
      deleted.resize(before);
    }
  } else {
    std::fprintf(stderr, "unknown operation %s\n", a.c_str());
    std::exit(3);
  }
}

static std::string obs() {
  std::string c = "{";
  for (auto &p : comps) {
    if (c.size() > 1)
      c += ",";
    c += vh::jstr(p.first) + ":" + vh::jstr(vm::name(p.second->GetState()));
  }
  auto svc = [&](Smp::IObject *o) {
    return vh::jstr(o ? o->GetName() : "");
  };
  std::string r = "{\"st\":" + vh::jstr(sim ? vm::name(sim->GetState()) : "gone") +
                  ",\"log\":" + vh::jstrs(tape);
  if (sim) {
    r += ",\"cs\":" + c + "}";
    r += ",\"svc\":[" + svc(sim->GetLogger()) + "," +
         svc(sim->GetEventManager()) + "," + svc(sim->GetLinkRegistry()) +
         "," + svc(sim->GetResolver()) + "," + svc(sim->GetTimeKeeper()) + "," +
         svc(sim->GetScheduler()) + "]";
  }
  tape.clear();
  return r + "}";
}

static void reset() {
  tape.clear();
  at.clear();
  sim.reset();
  tape.clear();
  comps.clear();
  parents.clear();
  inits.clear();
  handlers.clear();
  deleted.clear();
  em = nullptr;
  sim = std::make_unique<Xsmp::Simulator>("sim");
}
static std::string exec(const vh::Op &op) {
  res = "ok";
  if (!sim)
    return vh::out("skipped");
  if (op.name == "arm") {
    at = op.s("at");
    act = op.s("act");
    arg = op.s("n");
    kind = op.s("k");
    return vh::ok(obs());
  }
  if (op.name == "load") {
    res = vm::err([&] { sim->LoadLibrary(op.s("n").c_str()); });
    return vh::out(res, obs());
  }
  if (op.name == "service") {
    auto *s = sim->GetService(op.s("n").c_str());
    return vh::okS(s ? s->GetName() : "");
  }
  if (op.name == "destroy") {
    deleted.clear();
    auto *p = sim.get();
    p->~Simulator(); // what happens meanwhile still sees the simulator
    (void)sim.release();
    ::operator delete(p);
    comps.clear();
    std::sort(deleted.begin(), deleted.end());
    std::string d = "{";
    for (size_t i = 0; i < deleted.size(); ++i)
      d += (i ? "," : "") + vh::jstr(deleted[i]) + ":true";
    d += "}";
    if (std::unique(deleted.begin(), deleted.end()) != deleted.end())
      d = "\"twice\"";
    const std::string o = obs();
    return vh::ok("{\"o\":" + o + ",\"del\":" + d + "}");
  }
  if (!legal(op.name, op.s("n"), op.s("k")))
    return vh::out("skipped");
  exec1(op.name, op.s("n"), op.s("k"));
  return vh::out(res, obs());
}
int main() {
  return vh::drive(reset, exec, [] {
    at.clear();
    sim.reset();
  });
}
