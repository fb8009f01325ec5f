// C28: requests and the invocation of operations and properties.
#include "smp.h"
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IPublication.h>
#include <Smp/IRequest.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Array.h>
#include <Xsmp/Field.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Request.h>
#include <Xsmp/Simulator.h>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <sstream>
using Kind = Smp::PrimitiveTypeKind;
using I = Smp::Int32;
using A2 = Xsmp::Array<I, 2>::simple;
static const Smp::Uuid ua{"00000001-0000-0000-0000-0000000000a1"},
    ut{"00000001-0000-0000-0000-0000000000b1"},
    ub{"00000001-0000-0000-0000-0000000000c1"};
struct T3 {
  I p{};
  A2 q{};
  template <typename Base> struct _Field : public Base {
    _Field(Smp::Publication::ITypeRegistry *r, Smp::Uuid u, Smp::String8 name,
           Smp::String8 d = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const T3 &v = {})
        : Base(r, u, name, d, parent, view),
          p{r, Smp::Uuids::Uuid_Int32, "p", "", this, view, v.p},
          q{r, ua, "q", "", this, view, v.q} {}
    operator T3() const {
      T3 v;
      v.p = static_cast<I>(p);
      for (size_t i = 0; i < 2; ++i)
        v.q[i] = q[i];
      return v;
    }
    typename Base::template Field<I> p;
    typename Base::template Field<A2> q;
  };
};
using B6 = Xsmp::Array<T3, 2>;
struct S4 {
  Smp::Char8 internalString[4];
};
static const char *const kinds[] = {
    "None",   "Char8",  "Bool",    "Int8",    "UInt8",    "Int16",
    "UInt16", "Int32",  "UInt32",  "Int64",   "UInt64",   "Float32",
    "Float64", "Duration", "DateTime", "String8"};
static Kind kind(const std::string &n) {
  for (int i = 0; i < 16; ++i)
    if (n == kinds[i])
      return static_cast<Kind>(i);
  return static_cast<Kind>(99);
}
static std::string name(Kind k) {
  auto i = static_cast<int>(k);
  return i >= 0 && i < 16 ? kinds[i] : "?";
}
static const std::string letters = "abcdefghij";
static const long long NaN = 1000001, Huge = 1000002, Max64 = 1000003;
template <class T> static T number(long long x) {
  if constexpr (std::is_floating_point_v<T>)
    return x == NaN ? std::numeric_limits<T>::quiet_NaN()
                    : static_cast<T>(x) / 2;
  else if constexpr (sizeof(T) == 8)
    return x == Huge    ? static_cast<T>(1LL << 32)
           : x == Max64 ? std::numeric_limits<T>::max()
                        : static_cast<T>(x);
  else
    return static_cast<T>(x);
}
template <class T> static long long code(T v) {
  if constexpr (std::is_floating_point_v<T>)
    return std::isnan(v) ? NaN : static_cast<long long>(v * 2);
  else if constexpr (std::is_same_v<T, Smp::UInt64>)
    return v == std::numeric_limits<T>::max() ? Max64
           : v == 1ULL << 32                  ? Huge
                                              : static_cast<long long>(v);
  else if constexpr (sizeof(T) == 8)
    return v == 1LL << 32 ? Huge : static_cast<long long>(v);
  else
    return static_cast<long long>(v);
}
static long long length(const char *s) {
  return !s ? -1
            : letters.compare(0, std::strlen(s), s) == 0
                  ? static_cast<long long>(std::strlen(s))
                  : -100;
}
// calls f with a value of the type of kind k
template <class F> static auto with(Kind k, F &&f) {
  switch (k) {
  case Kind::PTK_Bool:
    return f(Smp::Bool{});
  case Kind::PTK_Char8:
    return f(Smp::Char8{});
  case Kind::PTK_Int8:
    return f(Smp::Int8{});
  case Kind::PTK_UInt8:
    return f(Smp::UInt8{});
  case Kind::PTK_Int16:
    return f(Smp::Int16{});
  case Kind::PTK_UInt16:
    return f(Smp::UInt16{});
  case Kind::PTK_Int32:
    return f(Smp::Int32{});
  case Kind::PTK_UInt32:
    return f(Smp::UInt32{});
  case Kind::PTK_UInt64:
    return f(Smp::UInt64{});
  case Kind::PTK_Float32:
    return f(Smp::Float32{});
  case Kind::PTK_Float64:
    return f(Smp::Float64{});
  default:
    return f(Smp::Int64{});
  }
}
static Smp::AnySimple value(Kind k, long long x) {
  if (k == Kind::PTK_None)
    return {};
  if (k == Kind::PTK_String8) {
    if (x < 0)
      return {k, static_cast<Smp::String8>(nullptr)};
    return {k, letters.substr(0, static_cast<size_t>(x)).c_str()};
  }
  return with(k, [&](auto z) {
    return Smp::AnySimple{k, number<decltype(z)>(x)};
  });
}
static std::string show(const Smp::AnySimple &v) {
  const auto k = v.GetType();
  if (k == Kind::PTK_None)
    return "None";
  const long long x =
      k == Kind::PTK_String8
          ? length(static_cast<Smp::String8>(v))
          : with(k, [&](auto z) {
              return code(static_cast<decltype(z)>(v));
            });
  return name(k) + ":" + std::to_string(x);
}
static std::vector<std::string> results;
using Ops = std::vector<vh::Op>;
struct Comp : Xsmp::Model {
  using Model::GetSimulator;
  using Model::Model;
  void Publish(Smp::IPublication *r) override {
    Model::Publish(r);
    receiver = r;
  }
  void Invoke(Smp::IRequest *request) override {
    if (std::string(request->GetOperationName()) == "lost")
      Model::Invoke(request);
    for (auto &a : acts)
      act(request, a);
  }
  template <class T>
  void items(Smp::IRequest *r, const vh::Op &a, const Smp::Uuid &u) {
    const auto n = a.s("n");
    std::vector<long long> xs;
    std::istringstream in(a.s("xs"));
    for (std::string t; std::getline(in, t, ';');)
      xs.push_back(std::stoll(t));
    T v{};
    for (size_t i = 0; i < xs.size(); ++i)
      at(v, i) = static_cast<I>(xs[i]);
    if (a.name == "sets")
      return Xsmp::Request::set<T>(this, r, n.c_str(), u, v);
    T w = xs.empty() ? Xsmp::Request::get<T>(this, r, n.c_str(), u)
                     : Xsmp::Request::get<T>(this, r, n.c_str(), u, v);
    std::string t;
    const size_t size = std::is_same_v<T, A2> ? 2 : std::is_same_v<T, T3> ? 3 : 6;
    for (size_t i = 0; i < size; ++i)
      t += " " + std::to_string(at(w, i));
    results.push_back(t);
  }
  static I &at(A2 &v, size_t i) { return v[i]; }
  static I &at(T3 &v, size_t i) { return i == 0 ? v.p : v.q[i - 1]; }
  static I &at(B6 &v, size_t i) { return at(v[i / 3], i % 3); }
  void act(Smp::IRequest *r, const vh::Op &a) {
    const auto k = kind(a.s("k"));
    const auto n = a.s("n"), op = a.name;
    const long long x = a.i("x");
    if (a.s("k") == "A")
      return items<A2>(r, a, ua);
    if (a.s("k") == "T")
      return items<T3>(r, a, ut);
    if (a.s("k") == "B")
      return items<B6>(r, a, ub);
    ++turn;
    if (k == Kind::PTK_String8) {
      if (turn % 2)
        text<S4>(r, op, n, x);
      else
        text<std::array<Smp::Char8, 4>>(r, op, n, x);
    } else if (k == Kind::PTK_Int32 && turn % 2)
      simple<Smp::AccessKind>(r, op, n, k, static_cast<Smp::AccessKind>(x));
    else
      with(k, [&](auto z) {
        simple<decltype(z)>(r, op, n, k, number<decltype(z)>(x));
        return 0;
      });
  }
  template <class T>
  void simple(Smp::IRequest *r, const std::string &op, const std::string &n,
              Kind k, T x) {
    const auto say = [&](T v) {
      if constexpr (std::is_enum_v<T>)
        results.push_back(name(k) + ":" + std::to_string(static_cast<I>(v)));
      else
        results.push_back(name(k) + ":" + std::to_string(code(v)));
    };
    if (op == "get")
      say(Xsmp::Request::get<T>(this, r, n.c_str(), k));
    else if (op == "getd")
      say(Xsmp::Request::get<T>(this, r, n.c_str(), k, x));
    else if (op == "set")
      Xsmp::Request::set<T>(this, r, n.c_str(), k, x);
    else
      Xsmp::Request::setReturnValue<T>(r, k, x);
  }
  template <class T>
  void text(Smp::IRequest *r, const std::string &op, const std::string &n,
            long long x) {
    const auto k = Kind::PTK_String8;
    const auto chars = [](T &v) { return reinterpret_cast<char *>(&v); };
    T v;
    std::memset(&v, 0, sizeof v);
    std::strncpy(chars(v),
                 letters.substr(0, static_cast<size_t>(x < 0 ? 0 : x)).c_str(),
                 3);
    if (op == "set")
      return Xsmp::Request::set<T>(this, r, n.c_str(), k, v);
    if (op == "ret")
      return Xsmp::Request::setReturnValue<T>(r, k, v);
    T w = op == "get" ? Xsmp::Request::get<T>(this, r, n.c_str(), k)
                      : Xsmp::Request::get<T>(this, r, n.c_str(), k, v);
    results.push_back("String8:" + std::to_string(length(chars(w))));
  }
  Smp::IPublication *receiver = nullptr;
  Ops acts;
  unsigned turn = 0;
};
// a request which is not of the library
struct Custom final : Smp::IRequest {
  std::string operation;
  std::vector<std::string> names;
  std::vector<Smp::AnySimple> values;
  Smp::AnySimple result;
  Smp::String8 GetOperationName() const override { return operation.c_str(); }
  Smp::Int32 GetParameterCount() const override {
    return static_cast<Smp::Int32>(names.size());
  }
  Smp::Int32 GetParameterIndex(Smp::String8 n) const override {
    for (size_t i = 0; n && i < names.size(); ++i)
      if (names[i] == n)
        return static_cast<Smp::Int32>(i);
    return -1;
  }
  void SetParameterValue(Smp::Int32 i, Smp::AnySimple v) override {
    values.at(static_cast<size_t>(i)) = v;
  }
  Smp::AnySimple GetParameterValue(Smp::Int32 i) const override {
    return i < 0 ? Smp::AnySimple{} : values.at(static_cast<size_t>(i));
  }
  void SetReturnValue(Smp::AnySimple v) override { result = v; }
  Smp::AnySimple GetReturnValue() const override { return result; }
};
static std::unique_ptr<Xsmp::Simulator> sim;
static Comp *comp;
struct Slot {
  Smp::IRequest *request = nullptr;
  bool ours = false;
};
static Slot slots[5];
static std::map<std::string, Smp::Publication::IPublishOperation *> operations;
static void drop(Slot &s) {
  if (s.ours)
    delete s.request;
  else if (s.request)
    comp->DeleteRequest(s.request);
  s = {};
}
static const std::map<std::string, Smp::Uuid> &users() {
  static const std::map<std::string, Smp::Uuid> r = {
      {"R", "00000002-0000-0000-0000-000000000001"},
      {"U", "00000002-0000-0000-0000-000000000002"},
      {"W", "00000002-0000-0000-0000-000000000003"},
      {"F", "00000002-0000-0000-0000-000000000004"},
      {"G", "00000002-0000-0000-0000-000000000005"},
      {"S3", "00000002-0000-0000-0000-000000000006"},
      {"E", "00000002-0000-0000-0000-000000000007"},
      {"L", "00000002-0000-0000-0000-000000000008"},
      {"A", ua},
      {"T", ut},
      {"B", ub},
      {"Void", Smp::Uuids::Uuid_Void}};
  return r;
}
static Smp::Uuid id(const std::string &t) {
  if (auto it = users().find(t); it != users().end())
    return it->second;
  return sim->GetTypeRegistry()->GetType(kind(t))->GetUuid();
}
static void reset() {
  for (auto &s : slots)
    drop(s);
  operations.clear();
  sim.reset();
  sim = std::make_unique<Xsmp::Simulator>("sim");
  comp = new Comp("c", "", sim.get(), sim.get());
  sim->AddModel(comp);
  sim->Publish();
  auto *r = sim->GetTypeRegistry();
  const auto u = [](const char *n) { return users().at(n); };
  r->AddIntegerType("R", "", u("R"), -2, 5, "", Kind::PTK_Int8);
  r->AddIntegerType("U", "", u("U"), 0, 10, "", Kind::PTK_UInt64);
  r->AddIntegerType("W", "", u("W"), -3,
                    std::numeric_limits<Smp::Int64>::max(), "",
                    Kind::PTK_Int64);
  r->AddFloatType("F", "", u("F"), 0, 5, false, true, "", Kind::PTK_Float32);
  r->AddFloatType("G", "", u("G"), -1, 2, true, false, "", Kind::PTK_Float64);
  r->AddStringType("S3", "", u("S3"), 3);
  auto *e = r->AddEnumerationType("E", "", u("E"), 4);
  e->AddLiteral("zero", "", 0);
  e->AddLiteral("one", "", 1);
  e->AddLiteral("three", "", 3);
  auto *l = r->AddEnumerationType("L", "", u("L"), 8);
  l->AddLiteral("zero", "", 0);
  l->AddLiteral("one", "", 1);
  r->AddArrayType("A", "", ua, Smp::Uuids::Uuid_Int32, sizeof(I), 2, true);
  auto *t = r->AddStructureType("T", "", ut);
  t->AddField("p", "", Smp::Uuids::Uuid_Int32, 0);
  t->AddField("q", "", ua, 4);
  r->AddArrayType("B", "", ub, ut, 12, 2, false);
}
static std::string out(const std::string &e,
                       const std::vector<std::string> &v = {}) {
  return "{\"e\":" + vh::jstr(e) + ",\"v\":" + vh::jstrs(v) + "}";
}
static std::string num(Smp::Int32 i) { return std::to_string(i); }
// what an exception tells
static std::vector<std::string> details(const Smp::Exception &x) {
  if (auto *e = dynamic_cast<const Smp::InvalidParameterIndex *>(&x))
    return {num(e->GetParameterIndex()), num(e->GetParameterCount())};
  if (auto *e = dynamic_cast<const Smp::InvalidAnyType *>(&x))
    return {name(e->GetInvalidType()), name(e->GetExpectedType())};
  if (auto *e = dynamic_cast<const Smp::InvalidParameterCount *>(&x))
    return {num(e->GetOperationParameters()), num(e->GetRequestParameters())};
  if (auto *e = dynamic_cast<const Smp::InvalidParameterType *>(&x))
    return {e->GetOperationName(), e->GetParameterName(),
            name(e->GetInvalidType()), name(e->GetExpectedType())};
  if (auto *e = dynamic_cast<const Smp::InvalidParameterValue *>(&x))
    return {e->GetParameterName(), show(e->GetValue())};
  if (auto *e = dynamic_cast<const Smp::InvalidReturnValue *>(&x))
    return {show(e->GetValue())};
  if (auto *e = dynamic_cast<const Smp::InvalidOperationName *>(&x))
    return {e->GetOperationName()};
  if (auto *e = dynamic_cast<const Smp::VoidOperation *>(&x))
    return {e->GetOperationName()};
  return {};
}
static std::vector<std::string> told(Smp::IRequest *r) {
  if (!r)
    return {"null"};
  return {r->GetOperationName(), num(r->GetParameterCount())};
}
static void exec(const vh::Op &o, std::vector<std::string> &v) {
  const auto n = o.name;
  const auto given = o.has("n") ? o.s("n") : "";
  const char *const nm = given == "<null>" ? nullptr : given.c_str();
  const auto r = static_cast<size_t>(o.has("r") ? o.i("r") : 0);
  auto &slot = slots[r < 5 ? r : 0];
  auto *q = slot.request;
  comp->acts = o.has("acts") ? o.ops("acts") : Ops{};
  const auto i = static_cast<Smp::Int32>(o.has("i") ? o.i("i") : 0);
  const auto any = [&] { return value(kind(o.s("k")), o.i("x")); };
  if (n == "rest")
    return;
  if (n == "op")
    operations[given] = comp->receiver->PublishOperation(
        nm, "", Smp::ViewKind::VK_None);
  else if (n == "param") {
    static const char *const dirs[] = {"In", "Out", "InOut", "Return"};
    for (int d = 0; d < 4; ++d)
      if (o.s("dir") == dirs[d] && operations.count(o.s("m")))
        operations[o.s("m")]->PublishParameter(
            nm, "", id(o.s("t")),
            static_cast<Smp::Publication::ParameterDirectionKind>(d));
  } else if (n == "prop")
    comp->receiver->PublishProperty(nm, "", id(o.s("t")),
                                    static_cast<Smp::AccessKind>(o.i("a")),
                                    Smp::ViewKind::VK_None);
  else if (n == "create") {
    drop(slot);
    slot = {comp->CreateRequest(nm), false};
    v = told(slot.request);
  } else if (n == "flat") {
    drop(slot);
    if (auto *m = comp->GetOperations()->at(o.s("m").c_str()))
      slot = {new Xsmp::Publication::Request(m, sim->GetTypeRegistry()), false};
    v = told(slot.request);
  } else if (n == "custom") {
    drop(slot);
    auto *c = new Custom;
    c->operation = given;
    c->names = o.strs("ns");
    c->values.resize(c->names.size());
    slot = {c, true};
  } else if (n == "invoke") {
    if (auto *m = comp->GetOperations()->at(o.s("m").c_str()))
      m->Invoke(q);
    v = results;
  } else if (n == "getValue" || n == "setValue") {
    auto *p = comp->GetProperties()->at(o.s("p").c_str());
    if (!p)
      return;
    if (n == "getValue") {
      const auto x = p->GetValue();
      v = results;
      v.push_back(show(x));
    } else {
      p->SetValue(any());
      v = results;
    }
  } else if (!q)
    v = {"no request"};
  else if (n == "delete")
    drop(slot);
  else if (n == "look")
    v = told(q);
  else if (n == "index")
    v = {num(q->GetParameterIndex(nm))};
  else if (n == "set")
    q->SetParameterValue(i, any());
  else if (n == "get")
    v = {show(q->GetParameterValue(i))};
  else if (n == "setret")
    q->SetReturnValue(any());
  else if (n == "getret")
    v = {show(q->GetReturnValue())};
  else if (n == "direct") {
    comp->Invoke(q);
    v = results;
  }
}
static std::string run(const vh::Op &o) {
  results.clear();
  std::vector<std::string> v;
  try {
    exec(o, v);
    return out("ok", v);
  } catch (const Smp::Exception &e) {
    v = results;
    const auto s = o.name;
    if (s != "flat") {
      const auto d = details(e);
      v.insert(v.end(), d.begin(), d.end());
    }
    return out(e.GetName(), v);
  } catch (const std::exception &e) {
    return out("std:" + vm::demangle(typeid(e).name()), results);
  }
}
int main() { return vh::drive(reset, run); }
