// C15: the event manager.
#include "smp.h"
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Simulator.h>
#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include <thread>

static std::vector<std::string> tape;
static std::unique_ptr<Xsmp::Simulator> sim;
static Xsmp::Services::XsmpEventManager *em;
static std::deque<Xsmp::EntryPoint> eps;
static std::map<std::string, const Smp::IEntryPoint *> slot;
static std::map<std::string, std::deque<std::vector<vh::Op>>> scripts;

static void note(const std::string &k, const std::string &n) {
  tape.push_back("{\"k\":" + vh::jstr(k) + ",\"n\":" + n + "}");
  if (tape.size() > 50000) {
    std::fprintf(stderr, "ERROR: entry points are executed without end\n");
    std::exit(4);
  }
}
class Recorder : public ::Xsmp::Service,
                 public virtual ::Smp::Services::ILogger {
public:
  using Service::Service;
  ::Smp::Services::LogMessageKind
  QueryLogMessageKind(::Smp::String8) override {
    return 0;
  }
  void Log(const ::Smp::IObject *sender, ::Smp::String8 m,
           ::Smp::Services::LogMessageKind k) override {
    if (k == ::Smp::Services::ILogger::LMK_Event)
      note(sender == em ? "event" : "event?", vh::jstr(m));
  }
};
static std::string basic(const vh::Op &o, long long &v) {
  v = 0;
  return vm::err([&] {
    const auto &n = o.name;
    if (n == "query")
      v = em->QueryEventId(o.s("n") == "null" ? nullptr : o.s("n").c_str());
    else if (n == "sub")
      em->Subscribe(o.i("id"), slot.at(o.s("ep")));
    else if (n == "unsub")
      em->Unsubscribe(o.i("id"), slot.at(o.s("ep")));
    else if (n == "emit")
      em->Emit(o.i("id"), o.i("id") % 2 != 0);
    else if (n == "script")
      scripts[o.s("ep")].push_back(o.ops("acts"));
    else {
      std::fprintf(stderr, "unknown operation %s\n", n.c_str());
      std::exit(3);
    }
  });
}
static void visit(const std::string &s) {
  note("call", vh::jstr(s));
  auto &todo = scripts[s];
  if (todo.empty())
    return;
  const auto acts = todo.front();
  todo.pop_front();
  for (auto &a : acts) {
    if (a.name == "throw")
      throw std::runtime_error("failure of an entry point");
    long long v = 0;
    const auto e = basic(a, v);
    note(e, std::to_string(v));
  }
}
static void reset() {
  sim.reset();
  eps.clear();
  slot.clear();
  scripts.clear();
  sim = std::make_unique<Xsmp::Simulator>("sim");
  sim->AddService(new Recorder("log", "", sim.get(), sim.get()));
  em = new Xsmp::Services::XsmpEventManager("em", "", sim.get(), sim.get());
  sim->AddService(em);
  sim->Publish();
  sim->Configure();
  sim->Connect();
  for (const std::string n : {"e1", "e2", "e3", "e4"}) {
    eps.emplace_back(n.c_str(), "", sim.get(), [n] { visit(n); });
    slot[n] = &eps.back();
  }
  tape.clear();
}
// Several threads query the same new names, each subscribes its entry point at
// once, and emits the event.
static std::string race(int threads, int names) {
  Xsmp::Services::XsmpEventManager m("m", "", nullptr, nullptr);
  std::atomic<int> ready{0};
  std::atomic<bool> bad{false};
  std::vector<std::vector<Smp::Services::EventId>> ids(threads);
  std::deque<std::atomic<int>> calls(threads);
  std::deque<Xsmp::EntryPoint> ep;
  for (int i = 0; i < threads; ++i)
    ep.emplace_back("ep", "", static_cast<Smp::IObject *>(nullptr), [&calls, i] { ++calls[i]; });
  std::vector<std::thread> ts;
  for (int i = 0; i < threads; ++i)
    ts.emplace_back([&, i] {
      ++ready;
      while (ready < threads) {
      }
      for (int k = 0; k < names; ++k) {
        try {
          const auto id = m.QueryEventId(("n" + std::to_string(k)).c_str());
          ids[i].push_back(id);
          m.Subscribe(id, &ep[i]);
          const int before = calls[i];
          m.Emit(id);
          if (calls[i] <= before)
            bad = true;
          if (k % 2) {
            m.Unsubscribe(id, &ep[i]);
            if (m.QueryEventId(("n" + std::to_string(k)).c_str()) != id)
              bad = true;
          }
        } catch (const std::exception &) {
          bad = true;
        }
      }
    });
  for (auto &t : ts)
    t.join();
  std::set<Smp::Services::EventId> distinct(ids[0].begin(), ids[0].end());
  bool ok = !bad && static_cast<int>(distinct.size()) == names;
  for (auto &x : ids)
    ok = ok && x == ids[0];
  for (int k = 0; k < names && ok; ++k) {
    std::vector<int> before(calls.begin(), calls.end());
    m.Emit(ids[0][k]);
    for (int i = 0; i < threads; ++i)
      ok = ok && calls[i] == before[i] + (k % 2 ? 0 : 1);
  }
  ok = ok && m.QueryEventId("another") ==
                 static_cast<Smp::Services::EventId>(19 + names + 1);
  return vh::ok("{\"ok\":" + std::string(ok ? "true" : "false") + "}");
}
static std::string exec(const vh::Op &op) {
  if (op.name == "race")
    return race(op.i("threads"), op.i("names"));
  long long v = 0;
  const auto e = basic(op, v);
  std::string log = "[";
  for (auto &x : tape)
    log += (log.size() > 1 ? "," : "") + x;
  tape.clear();
  return vh::out(e, "{\"v\":" + std::to_string(v) + ",\"log\":" + log +
                        "],\"st\":" + vh::jstr(vm::name(sim->GetState())) +
                        "}");
}
int main() {
  return vh::drive(reset, exec, [] {
    sim.reset();
    eps.clear();
  });
}
