// C16: the link registry.
#include "smp.h"
#include <Smp/ILinkingComponent.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include <thread>

static std::vector<std::string> tape;
static std::unique_ptr<Xsmp::Services::XsmpLinkRegistry> reg;
static std::map<std::string, std::deque<std::vector<vh::Op>>> scripts;
static const char *const Sources[] = {"a1", "a2", "b", "p"};
static const char *const Targets[] = {"t1", "t2", "a1"};
static std::string idOf(const Smp::IComponent *c);
static std::string basic(const vh::Op &o, bool &b);

static void note(const std::string &k, const std::string &s,
                 const std::string &t) {
  tape.push_back("{\"k\":" + vh::jstr(k) + ",\"s\":" + vh::jstr(s) +
                 ",\"t\":" + vh::jstr(t) + "}");
  if (tape.size() > 50000) {
    std::fprintf(stderr, "ERROR: sources are asked without end\n");
    std::exit(4);
  }
}
struct Linker : Xsmp::Model {
  Linker(const char *id, const char *n)
      : Model(n, "", nullptr, nullptr), id(id) {}
  std::string id;
  void RemoveLinks(const Smp::IComponent *target) override {
    note("asked", id, idOf(target));
    auto &todo = scripts[id];
    if (todo.empty())
      return;
    const auto acts = todo.front();
    todo.pop_front();
    for (auto &a : acts) {
      bool b = false;
      const auto e = basic(a, b);
      note(e != "ok" ? e : b ? "yes" : "no", a.name, a.s("t"));
    }
  }
};
struct Plain : Smp::IComponent {
  Smp::String8 GetName() const override { return "p"; }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
  Smp::ComponentStateKind GetState() const override {
    return Smp::ComponentStateKind::CSK_Created;
  }
  void Publish(Smp::IPublication *) override {}
  void Configure(Smp::Services::ILogger *,
                 Smp::Services::ILinkRegistry *) override {}
  void Connect(Smp::ISimulator *) override {}
  void Disconnect() override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::Uuid &GetUuid() const override {
    static const Smp::Uuid u{};
    return u;
  }
};
static Linker a1{"a1", "a1"}, a2{"a2", "a1"}, b_{"b", "b"}, t1{"t1", "t1"},
    t2{"t2", "t2"};
static Plain p;
static const std::map<std::string, Smp::IComponent *> comps{
    {"a1", &a1}, {"a2", &a2}, {"b", &b_}, {"p", &p}, {"t1", &t1}, {"t2", &t2}};
static std::string idOf(const Smp::IComponent *c) {
  for (auto &x : comps)
    if (x.second == c)
      return x.first;
  return c ? "?" : "none";
}
static std::string basic(const vh::Op &o, bool &b) {
  return vm::err([&] {
    const auto &n = o.name;
    b = true;
    if (n == "script") {
      scripts[o.s("s")].push_back(o.ops("acts"));
      return;
    }
    auto *t = comps.at(o.s("t"));
    if (n == "add")
      reg->AddLink(comps.at(o.s("s")), t);
    else if (n == "remove")
      b = reg->RemoveLink(comps.at(o.s("s")), t);
    else if (n == "can")
      b = reg->CanRemove(t);
    else if (n == "ask")
      reg->RemoveLinks(t);
    else {
      std::fprintf(stderr, "unknown operation %s\n", n.c_str());
      std::exit(3);
    }
  });
}
// the collection of a target, obtained once
static std::map<std::string, const Smp::ComponentCollection *> held;
static std::string sources(const std::string &t) {
  const auto *c = reg->GetLinkSources(comps.at(t));
  if (!c)
    return vh::jstr("no collection");
  auto &h = held[t];
  if (!h)
    h = c;
  std::vector<std::string> a, b;
  for (auto *x : *c)
    a.push_back(idOf(x));
  for (size_t i = 0; i < h->size(); ++i)
    b.push_back(idOf(h->at(i)));
  if (a != b || h->at(h->size()))
    return vh::jstr("the collection differs from the one obtained before");
  return vh::jstrs(a);
}
static std::string exec(const vh::Op &op);
static void reset() {
  reg = std::make_unique<Xsmp::Services::XsmpLinkRegistry>("links", "", nullptr,
                                                           nullptr);
  scripts.clear();
  held.clear();
  tape.clear();
}
// Threads that add and remove the same links: each removes what it added.
static std::string race(int threads, int n) {
  Xsmp::Services::XsmpLinkRegistry r("links", "", nullptr, nullptr);
  std::atomic<int> ready{0};
  std::atomic<bool> bad{false};
  std::vector<std::thread> ts;
  for (int i = 0; i < threads; ++i)
    ts.emplace_back([&, i] {
      ++ready;
      while (ready < threads) {
      }
      auto *own = i % 2 ? &a1 : &b_;
      try {
        for (int k = 0; k < n; ++k) {
          r.AddLink(&a2, &t1);
          r.AddLink(own, &t2);
          if (r.GetLinkCount(&a2, &t1) < 1 || r.GetLinkCount(own, &t2) < 1)
            bad = true;
          if (!r.RemoveLink(&a2, &t1))
            bad = true;
          if (k % 10 && !r.RemoveLink(own, &t2))
            bad = true;
        }
      } catch (const std::exception &) {
        bad = true;
      }
    });
  for (auto &t : ts)
    t.join();
  const auto *s1 = r.GetLinkSources(&t1), *s2 = r.GetLinkSources(&t2);
  const bool ok = !bad && r.GetLinkCount(&a2, &t1) == 0 && s1->size() == 0 &&
                  s2->size() == (threads > 1 ? 2u : 1u) &&
                  r.GetLinkCount(&a1, &t2) + r.GetLinkCount(&b_, &t2) ==
                      static_cast<Smp::UInt32>(threads * ((n + 9) / 10));
  return vh::ok("{\"ok\":" + std::string(ok ? "true" : "false") + "}");
}
static std::string exec(const vh::Op &op) {
  if (op.name == "race")
    return race(op.i("threads"), op.i("n"));
  bool b = false;
  const auto e = basic(op, b);
  std::string log, cnt, src, first;
  for (auto &x : tape)
    log += (log.empty() ? "" : ",") + x;
  tape.clear();
  for (auto *s : Sources) {
    std::string row;
    for (auto *t : Targets)
      row += (row.empty() ? "" : ",") + vh::jstr(t) + ":" +
             std::to_string(reg->GetLinkCount(comps.at(s), comps.at(t)));
    cnt += (cnt.empty() ? "" : ",") + vh::jstr(s) + ":{" + row + "}";
  }
  for (auto *t : Targets) {
    src += (src.empty() ? "" : ",") + vh::jstr(t) + ":" + sources(t);
    first += (first.empty() ? "" : ",") + vh::jstr(t) + ":" +
             vh::jstr(idOf(reg->GetLinkSources(comps.at(t))->at("a1")));
  }
  return vh::out(e, "{\"b\":" + std::string(b ? "true" : "false") +
                        ",\"log\":[" + log + "],\"cnt\":{" + cnt +
                        "},\"src\":{" + src + "},\"first\":{" + first + "}}");
}
int main() { return vh::drive(reset, exec); }
