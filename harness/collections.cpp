// C26: collections of named objects.
#include "smp.h"
#include <Smp/CollectionIterator.h>
#include <Smp/ICollection.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Object.h>
#include <memory>
#include <set>

// an interface whose implementations may have no name
struct IThing {
  virtual ~IThing() = default;
};
static std::map<std::string, Xsmp::Object *> alive;
struct Named : Xsmp::Object, IThing {
  Named(const char *n, std::string id) : Object(n), id(std::move(id)) {}
  ~Named() override { alive.erase(id); }
  std::string id;
};
struct Nameless : IThing {};
static Nameless nameless;
struct All {
  Xsmp::Collection<IThing> list{"list"};
  Xsmp::Collection<IThing, true> bag{"bag"};
  Xsmp::ContainingCollection<Smp::IObject> own{"own"};
  Xsmp::ContainingCollection<Smp::IObject, true> ownbag{"ownbag"};
  Xsmp::DelegateCollection<IThing> over{&list};
};
static std::unique_ptr<All> all;
static const std::map<std::string, const char *> names{
    {"e1", "a"}, {"e2", "b"}, {"e3", "a"},
    {"e4", "c"}, {"e5", "b"}, {"e6", "d"}};

static void finish() {
  std::set<Smp::IObject *> owned;
  for (size_t i = 0; i < all->own.size(); ++i)
    owned.insert(all->own.at(i));
  for (size_t i = 0; i < all->ownbag.size(); ++i)
    owned.insert(all->ownbag.at(i));
  all.reset();
  while (!alive.empty())
    delete alive.begin()->second;
}
static void reset() {
  all = std::make_unique<All>();
  for (auto &x : names)
    alive[x.first] = new Named(x.second, x.first);
}
template <class T> static std::string idOf(T *e) {
  if (!e)
    return "null";
  auto *n = dynamic_cast<Named *>(e);
  return n ? n->id : "x1";
}
template <class T> static bool holds(const Smp::ICollection<T> &c, void *e) {
  for (auto *x : c)
    if (dynamic_cast<void *>(x) == e)
      return true;
  return false;
}
template <class T, class C> static std::string look(const C &c) {
  const Smp::ICollection<T> &i = c;
  std::vector<std::string> a, b;
  for (auto *x : i)
    a.push_back(idOf(x));
  for (size_t k = 0; k < i.size(); ++k)
    b.push_back(idOf(i.at(k)));
  const bool ok = a == b && c.empty() == a.empty() && !i.at(i.size()) &&
                  !i.at(static_cast<const char *>(nullptr)) &&
                  !i.at(static_cast<size_t>(-1));
  std::string named;
  for (auto *n : {"a", "b", "c", "d", "z"})
    named += std::string(named.empty() ? "" : ",") + vh::jstr(n) + ":" +
             vh::jstr(idOf(i.at(n)));
  return "{\"all\":" + (ok ? vh::jstrs(a) : vh::jstr("views differ")) +
         ",\"named\":{" + named + "}}";
}
static std::string basic(const vh::Op &o, bool &r) {
  const auto &l = o.s("l");
  const bool owner = l == "own" || l == "ownbag";
  Named *e = nullptr;
  IThing *t = &nameless;
  if (o.has("e") && o.s("e") != "x1") {
    auto it = alive.find(o.s("e"));
    if (it == alive.end())
      return "none";
    t = e = static_cast<Named *>(it->second);
  }
  auto held = [&](const std::string &in, void *x) {
    return in == "list"  ? holds<IThing>(all->list, x)
           : in == "bag" ? holds<IThing>(all->bag, x)
           : in == "over"
               ? holds<IThing>(all->over, x) && !holds<IThing>(all->list, x)
           : in == "own" ? holds<Smp::IObject>(all->own, x)
                         : holds<Smp::IObject>(all->ownbag, x);
  };
  // "over" shows the elements of "list": its own are told apart by counting
  auto elsewhere = [&](void *x) {
    bool f = false;
    for (auto *in : {"list", "bag", "own", "ownbag"})
      f = f || (l != in && held(in, x));
    size_t n = 0;
    for (auto *y : all->over)
      n += dynamic_cast<void *>(y) == x;
    return f || n > (holds<IThing>(all->list, x) ? 1U : 0U);
  };
  if (o.name == "add") {
    if (owner && (!e || elsewhere(e) || held(l, e)))
      return "none";
    return vm::err([&] {
      if (l == "list")
        all->list.Add(t);
      else if (l == "bag")
        all->bag.Add(t);
      else if (l == "over")
        all->over.Add(t);
      else if (l == "own")
        all->own.Add(std::unique_ptr<Named>(e));
      else
        all->ownbag.Add(std::unique_ptr<Named>(e));
    });
  }
  if (o.name == "remove") {
    if (owner && (!e || elsewhere(e)))
      return "none";
    return vm::err([&] {
      r = l == "list"   ? all->list.Remove(t)
          : l == "bag"  ? all->bag.Remove(t)
          : l == "over" ? all->over.Remove(t)
          : l == "own"  ? all->own.Remove(e)
                        : all->ownbag.Remove(e);
    });
  }
  if (owner) {
    const Smp::ICollection<Smp::IObject> &c =
        l == "own" ? static_cast<const Smp::ICollection<Smp::IObject> &>(
                         all->own)
                   : all->ownbag;
    for (auto *x : c)
      if (elsewhere(dynamic_cast<void *>(x)))
        return "none";
  }
  if (l == "list")
    all->list.clear();
  else if (l == "bag")
    all->bag.clear();
  else if (l == "over")
    all->over.clear();
  else if (l == "own")
    all->own.clear();
  else
    all->ownbag.clear();
  return "ok";
}
static std::string exec(const vh::Op &o) {
  bool r = false;
  const auto e = basic(o, r);
  std::string live = "\"x1\":1";
  for (auto &x : names)
    live += "," + vh::jstr(x.first) + ":" + (alive.count(x.first) ? "1" : "0");
  return vh::out(
      e, "{\"r\":" + std::to_string(r) +
             ",\"o\":{\"look\":{\"list\":" + look<IThing>(all->list) +
             ",\"bag\":" + look<IThing>(all->bag) +
             ",\"own\":" + look<Smp::IObject>(all->own) +
             ",\"ownbag\":" + look<Smp::IObject>(all->ownbag) +
             ",\"over\":" + look<IThing>(all->over) + "},\"alive\":{" + live +
             "}}}");
}
int main() { return vh::drive(reset, exec, finish); }
