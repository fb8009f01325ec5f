// C12, C13, C14: scheduler and time keeper of a connected simulation.
#include "smp.h"
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <deque>
#include <limits>
#include <memory>
#include <set>

using EM = Smp::Services::IEventManager;
static constexpr Smp::Duration Unit = 1000;
static constexpr long long Never = 1000000000;

static std::unique_ptr<Xsmp::Simulator> sim;
static Xsmp::Services::XsmpScheduler *sched;
static Xsmp::Services::XsmpTimeKeeper *tk;
static std::deque<Xsmp::EntryPoint> eps;
static std::map<std::string, Smp::IEntryPoint *> slot;
static std::map<std::string, std::deque<std::vector<vh::Op>>> scripts;
static std::set<long long> enders;
static long long lastId;
static std::vector<std::string> tape;

static std::string units(Smp::Duration d) {
  if (d == std::numeric_limits<Smp::Duration>::max())
    return std::to_string(Never);
  if (d % Unit)
    return vh::jstr("not a whole number of units");
  return std::to_string(d / Unit);
}
static void note(const std::string &k) {
  tape.push_back("{\"k\":" + vh::jstr(k) +
                 ",\"id\":" + std::to_string(sched->GetCurrentEventId()) +
                 ",\"now\":" + units(tk->GetSimulationTime()) +
                 ",\"ep\":" + units(tk->GetEpochTime()) +
                 ",\"mi\":" + units(tk->GetMissionTime()) + "}");
}
static std::string basic(const vh::Op &o, long long &value);
static void visit(const std::string &s) {
  note(s);
  if (tape.size() > 20000) {
    std::fprintf(stderr, "ERROR: entry points are executed without end\n");
    std::exit(4);
  }
  auto &todo = scripts[s];
  if (todo.empty())
    return;
  const auto acts = todo.front();
  todo.pop_front();
  for (auto &a : acts) {
    if (a.name == "throw")
      throw std::runtime_error("failure of an entry point");
    long long v = 0;
    const auto e = basic(a, v);
    tape.push_back("{\"k\":\"did\",\"e\":" + vh::jstr(e) +
                   ",\"v\":" + std::to_string(v) +
                   ",\"now\":" + units(tk->GetSimulationTime()) + "}");
  }
}
static Smp::IEntryPoint *entry(const std::string &s) {
  auto it = slot.find(s);
  if (it == slot.end()) {
    eps.emplace_back(s.c_str(), "", sim.get(), [s] { visit(s); });
    it = slot.emplace(s, &eps.back()).first;
  }
  return it->second;
}
static long long added(Smp::Services::EventId id) {
  lastId = id > lastId ? id : lastId;
  return id;
}
static bool legal(const vh::Op &o) {
  return !(o.name == "set" || o.name == "cycle" || o.name == "repeat" ||
           o.name == "remove") ||
         !enders.count(o.i("id"));
}
static std::string basic(const vh::Op &o, long long &value) {
  if (!legal(o))
    return "ok";
  const auto &n = o.name;
  return vm::err([&] {
    const std::string kind = o.has("kind") ? o.s("kind") : "";
    auto t = [&] { return o.i("t") * Unit; };
    if (n == "add") {
      auto *e = entry(o.s("ep"));
      const Smp::Duration c = o.i("c") * Unit;
      const Smp::Int64 r = o.i("r");
      value = added(kind == "imm"     ? sched->AddImmediateEvent(e)
                    : kind == "sim"   ? sched->AddSimulationTimeEvent(e, t(), c, r)
                    : kind == "epoch" ? sched->AddEpochTimeEvent(e, t(), c, r)
                                      : sched->AddMissionTimeEvent(e, t(), c, r));
    } else if (n == "set") {
      if (kind == "sim")
        sched->SetEventSimulationTime(o.i("id"), t());
      else if (kind == "epoch")
        sched->SetEventEpochTime(o.i("id"), t());
      else
        sched->SetEventMissionTime(o.i("id"), t());
    } else if (n == "cycle")
      sched->SetEventCycleTime(o.i("id"), o.i("c") * Unit);
    else if (n == "repeat")
      sched->SetEventRepeat(o.i("id"), o.i("r"));
    else if (n == "remove")
      sched->RemoveEvent(o.i("id"));
    else if (n == "set_sim")
      tk->SetSimulationTime(tk->GetSimulationTime() + t());
    else if (n == "set_epoch")
      tk->SetEpochTime(t());
    else if (n == "set_start")
      tk->SetMissionStartTime(t());
    else if (n == "set_mission")
      tk->SetMissionTime(t());
    else if (n == "hold")
      sim->Hold(true);
    else if (n == "hold_later")
      sim->Hold(false);
    else if (n == "abort")
      sim->Abort();
    else {
      std::fprintf(stderr, "unknown operation %s\n", n.c_str());
      std::exit(3);
    }
  });
}
static std::string obs() {
  std::string log = "[";
  for (auto &x : tape)
    log += (log.size() > 1 ? "," : "") + x;
  tape.clear();
  return "{\"log\":" + log + "],\"st\":" + vh::jstr(vm::name(sim->GetState())) +
         ",\"now\":" + units(tk->GetSimulationTime()) +
         ",\"ep\":" + units(tk->GetEpochTime()) +
         ",\"mi\":" + units(tk->GetMissionTime()) +
         ",\"ms\":" + units(tk->GetMissionStartTime()) +
         ",\"next\":" + units(sched->GetNextScheduledEventTime()) +
         ",\"cur\":" + std::to_string(sched->GetCurrentEventId()) + "}";
}
static void reset() {
  sim.reset();
  eps.clear();
  slot.clear();
  scripts.clear();
  enders.clear();
  tape.clear();
  lastId = -1;
  sim = std::make_unique<Xsmp::Simulator>("sim");
  sim->AddService(new vm::QuietLogger("log", "", sim.get(), sim.get()));
  auto *em = new Xsmp::Services::XsmpEventManager("em", "", sim.get(), sim.get());
  sim->AddService(em);
  tk = new Xsmp::Services::XsmpTimeKeeper("tk", "", sim.get(), sim.get());
  sim->AddService(tk);
  sched = new Xsmp::Services::XsmpScheduler("sched", "", sim.get(), sim.get());
  sim->AddService(sched);
  em->Subscribe(EM::SMP_EnterExecutingId, entry("enter"));
  sim->Publish();
  sim->Configure();
  sim->Connect();
  sched->SetTargetSpeed(100.);
  em->Subscribe(EM::SMP_PreSimTimeChangeId, entry("pre"));
  em->Subscribe(EM::SMP_PostSimTimeChangeId, entry("post"));
  for (auto &x : {std::make_pair("epoch", EM::SMP_EpochTimeChangedId),
                  std::make_pair("mission", EM::SMP_MissionTimeChangedId)}) {
    const std::string k = x.first;
    eps.emplace_back(k.c_str(), "", sim.get(), [k] { note(k); });
    em->Subscribe(x.second, &eps.back());
  }
}
static std::string exec(const vh::Op &op) {
  long long value = 0;
  std::string e = "ok";
  const bool standby = sim->GetState() == Smp::SimulatorStateKind::SSK_Standby;
  if (op.name == "run") {
    if (standby && op.i("t") >= 0)
      enders.insert(++lastId);
    e = vm::err([&] { sim->Run(op.i("t") * Unit); });
  } else if (op.name == "runfree") {
    if (op.i("t") < 0)
      return vh::out("skipped");
    e = vm::err([&] {
      if (standby) {
        eps.emplace_back("stop", "", sim.get(), [] { sim->Hold(true); });
        enders.insert(added(
            sched->AddSimulationTimeEvent(&eps.back(), op.i("t") * Unit)));
      }
      sim->Run();
    });
  } else if (op.name == "script")
    scripts[op.s("ep")].push_back(op.ops("acts"));
  else if (op.name == "emit_pre")
    sim->GetEventManager()->Emit(EM::SMP_PreSimTimeChangeId);
  else if (op.name == "emit_post")
    sim->GetEventManager()->Emit(EM::SMP_PostSimTimeChangeId);
  else if (!legal(op))
    return vh::out("skipped");
  else
    e = basic(op, value);
  return vh::out(e, "{\"id\":" + std::to_string(value) + ",\"o\":" + obs() + "}");
}
int main() {
  return vh::drive(reset, exec, [] { sim.reset(); });
}
