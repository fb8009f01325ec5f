// C12, C13: events posted for a time of the clock, and the pace of a run.
// Calls are kept until "wait", which makes them and lets the clock run; if the
// computer was too busy to keep time, everything is done again, slower.
#include "smp.h"
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>

using namespace std::chrono_literals;
using Clock = std::chrono::steady_clock;
static std::unique_ptr<Xsmp::Simulator> sim;
static Xsmp::Services::XsmpScheduler *sched;
static Xsmp::Services::XsmpTimeKeeper *tk;
static std::deque<Xsmp::EntryPoint> eps;
static std::map<std::string, Smp::IEntryPoint *> slot;
static std::map<std::string, std::deque<std::vector<vh::Op>>> scripts;
static std::vector<vh::Op> todo;
static Smp::DateTime zero;
static Smp::Duration tick;
static std::vector<std::string> tape;
static std::mutex mtx;
static std::condition_variable cv;
static bool reached, reliable;

static void start() {
  sim.reset();
  eps.clear();
  slot.clear();
  scripts.clear();
  tape.clear();
  reached = false;
  reliable = true;
  sim = std::make_unique<Xsmp::Simulator>("sim");
  sim->AddService(new vm::QuietLogger("log", "", sim.get(), sim.get()));
  sim->AddService(
      new Xsmp::Services::XsmpEventManager("em", "", sim.get(), sim.get()));
  tk = new Xsmp::Services::XsmpTimeKeeper("tk", "", sim.get(), sim.get());
  sim->AddService(tk);
  sched = new Xsmp::Services::XsmpScheduler("sched", "", sim.get(), sim.get());
  sim->AddService(sched);
  sim->Publish();
  sim->Configure();
  sim->Connect();
}
static Smp::DateTime at(const vh::Op &o) { return zero + o.i("t") * tick; }
static std::string basic(const vh::Op &o, long long &value);
static void note(const std::string &k, long long id, const std::string &e) {
  const double t = double(tk->GetZuluTime() - zero) / double(tick);
  const double f = std::floor(t);
  if (t - f > 0.4)
    reliable = false;
  tape.push_back("{\"k\":" + vh::jstr(k) + ",\"id\":" + std::to_string(id) +
                 ",\"e\":" + vh::jstr(e) +
                 ",\"at\":" + std::to_string((long long)f) + "}");
}
static void visit(const std::string &s) {
  std::unique_lock l{mtx};
  if (reached)
    return;
  note(s, sched->GetCurrentEventId(), "");
  auto &q = scripts[s];
  if (q.empty())
    return;
  const auto acts = q.front();
  q.pop_front();
  for (auto &a : acts) {
    long long v = 0;
    const auto e = basic(a, v);
    note("did", v, e);
  }
}
static Smp::IEntryPoint *entry(const std::string &s) {
  auto it = slot.find(s);
  if (it == slot.end()) {
    eps.emplace_back(s.c_str(), "", sim.get(), [s] { visit(s); });
    it = slot.emplace(s, &eps.back()).first;
  }
  return it->second;
}
static std::string basic(const vh::Op &o, long long &value) {
  const auto &n = o.name;
  return vm::err([&] {
    if (o.has("id") && o.i("id") == 0)
      return;
    if (n == "add") {
      auto *e = entry(o.s("ep"));
      if (o.s("kind") == "zulu")
        value = sched->AddZuluTimeEvent(e, at(o), o.i("c") * tick, o.i("r"));
      else
        value = sched->AddSimulationTimeEvent(e, o.i("t"), o.i("c"), o.i("r"));
    } else if (n == "set") {
      if (o.s("kind") == "zulu")
        sched->SetEventZuluTime(o.i("id"), at(o));
      else
        sched->SetEventSimulationTime(o.i("id"), o.i("t"));
    } else if (n == "cycle")
      sched->SetEventCycleTime(o.i("id"), o.i("c") * tick);
    else if (n == "repeat")
      sched->SetEventRepeat(o.i("id"), o.i("r"));
    else if (n == "remove")
      sched->RemoveEvent(o.i("id"));
    else if (n == "abort")
      sim->Abort();
    else if (n == "script")
      scripts[o.s("ep")].push_back(o.ops("acts"));
    else {
      std::fprintf(stderr, "unknown operation %s\n", n.c_str());
      std::exit(3);
    }
  });
}
static std::string play(const vh::Op &op) {
  std::vector<std::string> outs;
  for (int k = 0; k < 5; ++k) {
    start();
    outs.clear();
    for (auto s : {"z1", "z2", "z3"})
      entry(s);
    tick = Smp::Duration{20000000} << k;
    const auto began = tk->GetZuluTime();
    zero = began + 2 * tick;
    const auto end = zero + op.i("t") * tick + tick / 2;
    eps.emplace_back("end", "", sim.get(), [] {
      const std::scoped_lock l{mtx};
      reached = true;
      cv.notify_all();
    });
    sched->AddZuluTimeEvent(&eps.back(), end);
    for (auto &o : todo) {
      long long v = 0;
      const auto e = basic(o, v);
      outs.push_back(vh::out(e, "{\"id\":" + std::to_string(v) + ",\"log\":[]}"));
    }
    if (tk->GetZuluTime() > zero - tick / 2)
      continue; // too late
    std::unique_lock l{mtx};
    while (!reached && tk->GetZuluTime() < end + 20000000000) {
      cv.wait_for(l, 2ms);
      if (sim->GetState() == Smp::SimulatorStateKind::SSK_Aborting &&
          tk->GetZuluTime() > end + tick)
        break; // no event is executed any more
    }
    const bool done =
        reached || sim->GetState() == Smp::SimulatorStateKind::SSK_Aborting;
    reached = true;
    l.unlock();
    if (!done)
      return vh::out("an event was never executed");
    if (reliable)
      break;
  }
  std::string r = "{\"id\":0,\"log\":[", sep;
  for (auto &x : tape)
    r += sep + x, sep = ",";
  r += "],\"outs\":[";
  sep = "";
  for (auto &x : outs)
    r += sep + x, sep = ",";
  return vh::ok(r + "]}");
}
// events of the run and zulu events exclude each other; the run is not faster
// than asked, nor much slower
static std::string pace(const vh::Op &op) {
  std::string res;
  for (int k = 0; k < 3; ++k) {
    start();
    std::atomic<int> inside{0}, ran{0};
    std::atomic<bool> alone{true};
    auto body = [&](bool count) {
      if (++inside != 1)
        alone = false;
      std::this_thread::sleep_for(2ms);
      --inside;
      ran += count;
    };
    eps.emplace_back("s", "", sim.get(), [&] { body(true); });
    auto *s = &eps.back();
    eps.emplace_back("z", "", sim.get(), [&] { body(false); });
    auto *z = &eps.back();
    const long long n = op.i("n"), t = op.i("t") * 1000000;
    for (long long i = 1; i <= n; ++i)
      sched->AddSimulationTimeEvent(s, t * i / n);
    const auto now = tk->GetZuluTime();
    for (long long i = 1; i <= op.i("z"); ++i)
      sched->AddZuluTimeEvent(z, now + 20000000 + 1500000 * i);
    sched->SetTargetSpeed(double(op.i("x")) / 100.);
    const auto b = Clock::now();
    sim->Run(t);
    const auto wall =
        std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now() - b)
            .count();
    const double want = double(t) * 100. / double(op.i("x"));
    const bool slow = double(wall) > want + 2.5e9;
    const bool paced = double(wall) >= want - 1e6 && !slow;
    const auto simTime = tk->GetSimulationTime();
    sim.reset();
    res = vh::ok("{\"paced\":" + std::string(paced ? "true" : "false") +
                 ",\"alone\":" + (alone ? "true" : "false") +
                 ",\"now\":" + std::to_string(simTime / 1000000) +
                 ",\"n\":" + std::to_string(ran) + "}");
    if (!slow)
      break;
  }
  return res;
}
static std::string freeRun(const vh::Op &op) {
  start();
  sched->SetTargetSpeed(double(op.i("x")) / 100.);
  std::thread t{[] { sim->Run(); }};
  for (int i = 0; i < 5000 && sim->GetState() ==
                                  Smp::SimulatorStateKind::SSK_Standby;
       ++i)
    std::this_thread::sleep_for(1ms);
  std::this_thread::sleep_for(20ms);
  std::string r = vm::name(sim->GetState());
  if (tk->GetSimulationTime() != 0)
    r += " at another time";
  if (sim->GetState() == Smp::SimulatorStateKind::SSK_Executing)
    sim->Hold(true);
  t.join();
  if (sim->GetState() != Smp::SimulatorStateKind::SSK_Standby)
    r += ", not held";
  sim.reset();
  return vh::okS(r);
}
static std::string exec(const vh::Op &op) {
  if (op.name == "wait")
    return play(op);
  if (op.name == "pace")
    return pace(op);
  if (op.name == "free")
    return freeRun(op);
  if (op.name == "speed") {
    start();
    sched->SetTargetSpeed(double(op.i("x")) / 100.);
    return vh::okI(std::llround(sched->GetTargetSpeed() * 100.));
  }
  todo.push_back(op);
  return vh::out("later");
}
int main() {
  return vh::drive([] { todo.clear(); }, exec, [] { sim.reset(); });
}
