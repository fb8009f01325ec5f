// C18: the log service and its configuration file.
#include "smp.h"
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/Services/ITimeKeeper.h>
#include <Xsmp/Services/XsmpLogger.h>
#include <Xsmp/Simulator.h>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <thread>
using Smp::Services::LogMessageKind;
struct Clock : Xsmp::Service, virtual Smp::Services::ITimeKeeper {
  using Service::Service;
  Smp::Int64 d = 0, S = 0, E = 0, M = 0;
  Smp::Duration GetSimulationTime() const override { return S; }
  Smp::DateTime GetEpochTime() const override { return E; }
  Smp::DateTime GetMissionStartTime() const override { return 0; }
  Smp::Duration GetMissionTime() const override { return M; }
  Smp::DateTime GetZuluTime() const override { return d; }
  void SetSimulationTime(Smp::Duration) override {}
  void SetEpochTime(Smp::DateTime) override {}
  void SetMissionStartTime(Smp::DateTime) override {}
  void SetMissionTime(Smp::Duration) override {}
  const Smp::Uuid &GetUuid() const override {
    static const Smp::Uuid u("00000000-0000-0000-0000-00000000000c");
    return u;
  }
};
struct Node : Xsmp::Model, Xsmp::Composite {
  Node(Smp::String8 n, Smp::IComposite *p, Smp::ISimulator *s)
      : Model(n, "", p, s), ep("ep", "", this, [] {}), c("c", "", this, 0, -1) {}
  Xsmp::EntryPoint ep;
  Xsmp::Container<Smp::IComponent> c;
  const Smp::Uuid &GetUuid() const override {
    static const Smp::Uuid u("00000000-0000-0000-0000-00000000000d");
    return u;
  }
};
// what a logger stores
struct Tape : Smp::IStorageWriter, Smp::IStorageReader {
  std::string bytes;
  size_t at = 0;
  void Store(void *a, Smp::UInt64 n) override {
    bytes.append(static_cast<char *>(a), n);
  }
  void Restore(void *a, Smp::UInt64 n) override {
    if (at + n > bytes.size())
      throw std::runtime_error("nothing more is stored");
    std::memcpy(a, bytes.data() + at, n);
    at += n;
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
static const char *const files[] = {"a.log", "b.log", "simulator.log"};
static std::unique_ptr<Xsmp::Simulator> sim;
static Xsmp::Services::XsmpLogger *logger;
static std::unique_ptr<Smp::IComponent> owner; // its destructor is not inline
static Clock *tk;
static Smp::Int64 times[4];
static Tape tape;
static std::map<std::string, const Smp::IObject *> objects;
static std::ostringstream console;
static std::streambuf *const terminal = std::cout.rdbuf();

static std::string shown(const std::string &s) {
  std::string r;
  for (unsigned char c : s)
    if (c < 32 && c != '\n' && c != '\t')
      r += "^" + std::to_string(c);
    else
      r += static_cast<char>(c);
  return r;
}
static std::string file(const char *n) {
  std::ifstream f(n, std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
static Smp::Int64 ns(const vh::Op &o, const char *k) {
  auto v = o.ints(k);
  return (v.at(0) * 86400 + v.at(1)) * 1000000000 + v.at(2);
}
static void clear() {
  owner.reset();
  logger = nullptr;
  sim.reset();
  objects.clear();
  console.str("");
  std::cout.rdbuf(terminal);
}
static std::string exec(const vh::Op &o) {
  return vm::guard([&]() -> std::string {
    if (o.name == "times") {
      const char *const k[] = {"d", "S", "E", "M"};
      for (int i = 0; i < 4; ++i)
        times[i] = ns(o, k[i]);
    } else if (o.name == "open") {
      clear();
      {
        std::ofstream f("XsmpLogger.properties", std::ios::binary);
        f << o.s("text");
      }
      console.str("");
      std::cout.rdbuf(console.rdbuf());
      sim = std::make_unique<Xsmp::Simulator>();
      tk = new Clock("Clock", "", sim.get(), sim.get());
      sim->AddService(tk);
      auto *m = new Node("M1", sim.get(), sim.get());
      auto *n = new Node("M2", sim.get(), sim.get());
      auto *c = new Node("C", m, sim.get());
      sim->AddModel(m);
      sim->AddModel(n);
      m->c.AddComponent(c);
      objects = {{"null", nullptr}, {"sim", sim.get()}, {"m", m}, {"n", n},
                 {"c", c},          {"e", &m->ep},      {"f", &c->ep}};
      std::ostringstream errors;
      auto *old = std::cerr.rdbuf(errors.rdbuf());
      logger = new Xsmp::Services::XsmpLogger(
          "XsmpLogger", "", sim.get(), sim.get());
      owner.reset(logger);
  std::cerr.rdbuf(old);
      const auto e = errors.str();
      int lines = 0;
      for (char ch : e)
        lines += ch == '\n';
      return vh::ok("[\"" + std::to_string(lines) + "\"]");
    } else if (!logger) {
      return vh::out("no logger");
    } else if (o.name == "query") {
      return vh::ok("[\"" +
                    std::to_string(static_cast<unsigned>(
                        logger->QueryLogMessageKind(o.s("k").c_str()))) +
                    "\"]");
    } else if (o.name == "log") {
      // the texts and times given are those of the moment
      std::string m = o.s("m");
      tk->d = times[0], tk->S = times[1], tk->E = times[2], tk->M = times[3];
      logger->Log(objects.at(o.s("from")), m.c_str(),
                  static_cast<LogMessageKind>(o.i("kind")));
      m.assign(m.size(), '!');
      tk->d = tk->S = tk->E = tk->M = 77;
    } else if (o.name == "store") {
      tape = Tape{};
      logger->Store(&tape);
    } else if (o.name == "restore") {
      tape.at = 0;
      logger->Restore(&tape);
      if (tape.at != tape.bytes.size())
        return vh::out("not all was read");
    } else if (o.name == "close") {
      owner.reset();
      std::vector<std::string> v{shown(console.str())};
      for (auto *f : files)
        v.push_back(shown(file(f)));
      clear();
      return vh::ok(vh::jstrs(v));
    } else if (o.name == "burst") {
      const auto ks = o.strs("ks");
      const int n = static_cast<int>(o.i("n"));
      std::vector<unsigned> ids(ks.size());
      std::vector<std::thread> ts;
      for (size_t t = 0; t < ks.size() / 2; ++t)
        ts.emplace_back([&, t] {
          for (int i = 1; i <= n; ++i) {
            if (i == 1)
              ids[2 * t] = logger->QueryLogMessageKind(ks[2 * t].c_str());
            logger->Log(objects.at("m"),
                        (">" + std::to_string(t + 1) + "." + std::to_string(i))
                            .c_str(),
                        static_cast<LogMessageKind>(i));
            if (i == n)
              ids[2 * t + 1] =
                  logger->QueryLogMessageKind(ks[2 * t + 1].c_str());
          }
        });
      for (auto &t : ts)
        t.join();
      owner.reset();
      const auto all = console.str();
      const auto from = std::min(all.find('>'), all.size());
      std::istringstream lines(all.substr(from));
      std::string seen = "[", l;
      while (std::getline(lines, l)) {
        int a = 0, b = 0;
        std::sscanf(l.c_str(), ">%d.%d", &a, &b);
        if (l != ">" + std::to_string(a) + "." + std::to_string(b))
          a = -1;
        seen += (seen.size() > 1 ? "," : "") + vh::jints(std::vector<int>{a, b});
      }
      clear();
      return "{\"e\":\"ok\",\"v\":" +
             vh::jstrs(std::vector<std::string>{shown(all.substr(0, from))}) +
             ",\"ids\":" + vh::jints(ids) + ",\"seen\":" + seen + "]}";
    } else
      std::abort();
    return vh::ok("[]");
  });
}
int main() {
  return vh::drive(
      [] {
        clear();
        tape = Tape{};
        for (auto &t : times)
          t = 0;
        for (auto *f : files)
          std::remove(f);
      },
      exec, clear);
}
