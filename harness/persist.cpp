// C27: values stored to and restored from files.
#include "smp.h"
#include <Smp/IPersist.h>
#include <Smp/Services/IResolver.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Simulator.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <filesystem>
#include <fstream>
#include <limits>
#include <memory>
#include <unistd.h>
namespace fs = std::filesystem;
static std::unique_ptr<Xsmp::Simulator> sim;
static std::string dir;
class Node : public Xsmp::Model, public virtual Xsmp::Composite {
public:
  using Model::Model;
  Xsmp::Container<Smp::IModel> kids{"kids", "", this, 0, -1};
};
static Node *m, *kid;
static Smp::IService *sv;

enum class Kind : Smp::Int16 { a = -7 };
// the value of a type that has a number, 0..20
template <class T> struct Gen;
template <class I> static I integer(int n) {
  if (n == 0)
    return 0;
  if (n == 1)
    return std::numeric_limits<I>::min();
  if (n == 2)
    return std::numeric_limits<I>::max();
  return static_cast<I>(static_cast<I>(n) *
                        static_cast<I>(sizeof(I) > 4   ? 0x0123456789abcdLL
                                       : sizeof(I) > 2 ? 0x1234567
                                       : sizeof(I) > 1 ? 0x123
                                                       : 5));
}
static std::string text(int n) {
  std::string r(static_cast<size_t>(n * n), static_cast<char>(n * 12));
  if (n)
    r[static_cast<size_t>(n - 1)] = '\0';
  return r;
}
#define GEN(T, E)                                                              \
  template <> struct Gen<T> {                                                  \
    static void set(T &v, int n) { v = E; }                                    \
    static bool is(T const &v, int n) { return v == (E); }                     \
  };
#define COMMA ,
GEN(bool, n % 2 == 1)
GEN(Smp::Int8, integer<Smp::Int8>(n))
GEN(Smp::UInt8, integer<Smp::UInt8>(n))
GEN(Smp::Int16, integer<Smp::Int16>(n))
GEN(Smp::UInt16, integer<Smp::UInt16>(n))
GEN(Smp::Int32, integer<Smp::Int32>(n))
GEN(Smp::UInt32, integer<Smp::UInt32>(n))
GEN(Smp::Int64, integer<Smp::Int64>(n))
GEN(Smp::UInt64, integer<Smp::UInt64>(n))
GEN(Smp::Float32, n == 3 ? std::numeric_limits<float>::infinity()
                         : static_cast<float>(n) / 3.f)
GEN(Smp::Float64, n == 3 ? std::numeric_limits<double>::denorm_min()
                         : static_cast<double>(n) / 7.)
GEN(Kind, static_cast<Kind>(n * 1001))
GEN(std::string, text(n))
template <class S> static S wide(int n) {
  S r;
  for (int i = 0; i < n * 3; ++i)
    r += static_cast<typename S::value_type>(
        (sizeof(typename S::value_type) > 2 ? 0x10234 : 0xd7a0) + i * n);
  if (n > 4)
    r[static_cast<size_t>(n)] = 0;
  return r;
}
GEN(std::wstring, wide<std::wstring>(n))
GEN(std::u16string, wide<std::u16string>(n))
GEN(std::u32string, wide<std::u32string>(n))
template <class T> static std::vector<T> many(int n) {
  std::vector<T> r(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i)
    Gen<T>::set(r[static_cast<size_t>(i)], (i * 7 + n) % 21);
  return r;
}
#define VEC(T) GEN(std::vector<T>, many<T>(n))
VEC(Smp::Int32)
VEC(std::string)
VEC(Smp::Int16)
VEC(std::vector<Smp::Int16>)
template <class M> static M mapping(int n) {
  M r;
  for (int i = 0; i < n; ++i) {
    typename M::key_type k;
    typename M::mapped_type v;
    Gen<typename M::key_type>::set(k, (i * 5 + n) % 21);
    Gen<typename M::mapped_type>::set(v, (i * 3 + n) % 21);
    r[k] = v;
  }
  return r;
}
GEN(std::map<std::string COMMA Smp::Int32>,
    (mapping<std::map<std::string COMMA Smp::Int32>>(n)))
GEN(std::unordered_map<Smp::Int32 COMMA std::string>,
    (mapping<std::unordered_map<Smp::Int32 COMMA std::string>>(n)))
GEN(std::map<Smp::Int16 COMMA std::vector<std::string>>,
    (mapping<std::map<Smp::Int16 COMMA std::vector<std::string>>>(n)))
template <class S> static S uniq(int n) {
  S r;
  for (int i = 0; i < n; ++i) {
    typename S::key_type k;
    Gen<typename S::key_type>::set(k, (i * 5 + n) % 21);
    r.insert(k);
  }
  return r;
}
GEN(std::set<std::string>, uniq<std::set<std::string>>(n))
GEN(std::unordered_set<Smp::Int64>, uniq<std::unordered_set<Smp::Int64>>(n))
static std::pair<Smp::Int32, std::string> pairOf(int n) {
  return {integer<Smp::Int32>(n), text((n + 5) % 21)};
}
GEN(std::pair<Smp::Int32 COMMA std::string>, pairOf(n))
static std::array<std::string, 3> arrayOf(int n) {
  return {text(n), text((n + 1) % 21), text((n * 2) % 21)};
}
GEN(std::array<std::string COMMA 3>, arrayOf(n))
template <> struct Gen<Smp::Int32[3]> {
  static void set(Smp::Int32 (&v)[3], int n) {
    for (int i = 0; i < 3; ++i)
      v[i] = n * 65537 + i;
  }
  static bool is(const Smp::Int32 (&v)[3], int n) {
    for (int i = 0; i < 3; ++i)
      if (v[i] != n * 65537 + i)
        return false;
    return true;
  }
};
template <> struct Gen<std::atomic<Smp::Int32>> {
  static void set(std::atomic<Smp::Int32> &v, int n) { v = n * 65539; }
  static bool is(const std::atomic<Smp::Int32> &v, int n) {
    return v == n * 65539;
  }
};
static Smp::IObject *object(int n) {
  switch (n % 5) {
  case 1:
    return sim.get();
  case 2:
    return static_cast<Smp::IModel *>(m);
  case 3:
    return static_cast<Smp::IModel *>(kid);
  case 4:
    return sv;
  default:
    return nullptr;
  }
}
GEN(Smp::IObject *, object(n))
GEN(Smp::IModel *, dynamic_cast<Smp::IModel *>(object(n)))
static std::vector<Smp::IModel *> models(int n) {
  std::vector<Smp::IModel *> r;
  for (int i = 0; i < n; ++i)
    r.push_back(i * n % 3 == 0   ? static_cast<Smp::IModel *>(m)
                : i * n % 3 == 1 ? nullptr
                                 : static_cast<Smp::IModel *>(kid));
  return r;
}
GEN(std::vector<Smp::IModel *>, models(n))

// a type of values by its name
struct Type {
  std::function<void(Smp::IStorageWriter *, int)> store;
  // the number of the restored value, if possible the expected one
  std::function<int(Smp::IStorageReader *, int into, int expected)> restore;
};
static std::map<std::string, Type> types;
template <class T> static int number(const T &v, int expected) {
  if (expected >= 0 && Gen<T>::is(v, expected))
    return expected;
  for (int n = 0; n <= 20; ++n)
    if (Gen<T>::is(v, n))
      return n;
  return -1;
}
template <class T> static void type(const char *name) {
  types[name] = {
      [](Smp::IStorageWriter *w, int n) {
        T v;
        Gen<T>::set(v, n);
        Xsmp::Persist::Store(sim.get(), sim.get(), w, v);
      },
      [](Smp::IStorageReader *r, int into, int expected) {
        T v;
        Gen<T>::set(v, into);
        Xsmp::Persist::Restore(sim.get(), sim.get(), r, v);
        return number(v, expected);
      }};
}
static void define() {
  type<bool>("bool");
  type<Smp::Int8>("i8");
  type<Smp::UInt8>("u8");
  type<Smp::Int16>("i16");
  type<Smp::UInt16>("u16");
  type<Smp::Int32>("i32");
  type<Smp::UInt32>("u32");
  type<Smp::Int64>("i64");
  type<Smp::UInt64>("u64");
  type<Smp::Float32>("f32");
  type<Smp::Float64>("f64");
  type<Kind>("enum");
  type<std::string>("str");
  type<std::wstring>("wstr");
  type<std::u16string>("str16");
  type<std::u32string>("str32");
  type<std::vector<Smp::Int32>>("vec");
  type<std::vector<std::string>>("vecs");
  type<std::vector<std::vector<Smp::Int16>>>("vecv");
  type<std::map<std::string, Smp::Int32>>("map");
  type<std::unordered_map<Smp::Int32, std::string>>("umap");
  type<std::set<std::string>>("set");
  type<std::unordered_set<Smp::Int64>>("uset");
  type<std::pair<Smp::Int32, std::string>>("pair");
  type<std::array<std::string, 3>>("arr");
  type<Smp::Int32[3]>("raw");
  type<std::atomic<Smp::Int32>>("atomic");
  type<std::map<Smp::Int16, std::vector<std::string>>>("mapv");
  type<Smp::IObject *>("ptr");
  type<std::vector<Smp::IModel *>>("vptr");
  // several values at once; the first is of a type used nowhere else
  types["two"] = {
      [](Smp::IStorageWriter *w, int n) {
        const long long a = n * 77;
        std::string b = text(n);
        Smp::IModel *c;
        Gen<Smp::IModel *>::set(c, n);
        Xsmp::Persist::Store(sim.get(), sim.get(), w, a, b, c);
      },
      [](Smp::IStorageReader *r, int into, int) {
        long long a = into;
        std::string b = text(into);
        Smp::IModel *c = m;
        Xsmp::Persist::Restore(sim.get(), sim.get(), r, a, b, c);
        const int n = static_cast<int>(a / 77);
        return a % 77 == 0 && b == text(n) && Gen<Smp::IModel *>::is(c, n) ? n
                                                                          : -1;
      }};
}
static std::map<long long, std::vector<std::pair<std::string, int>>> files;
static std::string folder(long long k) {
  return k == 1 ? dir : dir + "/sub/s" + std::to_string(k);
}
static std::string file(long long k) { return "f" + std::to_string(k); }
static void write(const std::string &d, const std::string &f,
                  const std::vector<std::pair<std::string, int>> &items,
                  size_t count) {
  Xsmp::StorageWriter w(d.c_str(), f.c_str(), sim.get());
  for (size_t i = 0; i < count; ++i)
    types.at(items[i].first).store(&w, items[i].second);
}
static std::string ints(const std::vector<int> &v) {
  std::string r = "[";
  for (int x : v)
    r += (r.size() > 1 ? "," : "") + std::to_string(x);
  return r + "]";
}
static std::string outcome(const std::string &e, const std::string &v = "[]") {
  return "{\"e\":" + vh::jstr(e) + ",\"v\":" + v + "}";
}
int main() {
  define();
  char t[] = "/tmp/persistXXXXXX";
  if (!mkdtemp(t))
    return 3;
  const std::string top = t;
  struct Removed {
    std::string p;
    ~Removed() {
      std::error_code e;
      fs::remove_all(p, e);
    }
  } removed{top};
  int run = 0;
  sim = std::make_unique<Xsmp::Simulator>("sim");
  sim->AddService(new vm::QuietLogger("log", "", sim.get(), sim.get()));
  sim->AddService(new Xsmp::Services::XsmpResolver("res", "", sim.get(),
                                                   sim.get()));
  sv = sim->GetService("log");
  sim->AddModel(m = new Node("m", "", sim.get(), sim.get()));
  m->kids.AddComponent(kid = new Node("kid", "", m, sim.get()));
  return vh::drive(
      [&] {
        files.clear();
        dir = top + "/" + std::to_string(++run);
        fs::create_directory(dir);
      },
      [&](const vh::Op &op) -> std::string {
        const auto &n = op.name;
        if (n == "store") {
          std::vector<std::pair<std::string, int>> items;
          for (auto &x : op.ops("items"))
            items.emplace_back(x.name, static_cast<int>(x.i("n")));
          files[op.i("k")] = items;
          return outcome(vm::err([&] {
            write(folder(op.i("k")), file(op.i("k")), items, items.size());
          }));
        }
        if (n == "restore") {
          std::vector<int> v;
          const auto &items = files[op.i("k")];
          const auto e = vm::err([&] {
            Xsmp::StorageReader r(folder(op.i("k")).c_str(),
                                  file(op.i("k")).c_str(), sim.get());
            for (auto &x : op.strs("types"))
              v.push_back(types.at(x).restore(
                  &r, static_cast<int>(op.i("into")),
                  v.size() < items.size() ? items[v.size()].second : -1));
          });
          return outcome(e, ints(v));
        }
        if (n == "cut") {
          auto &items = files[op.i("k")];
          const auto j = static_cast<size_t>(op.i("j"));
          const auto f = folder(op.i("k")) + "/" + file(op.i("k"));
          if (!fs::exists(f) || j > items.size())
            return outcome("none");
          auto size = [&](size_t count) {
            write(dir, "tmp", items, count);
            return fs::file_size(dir + "/tmp");
          };
          const auto b = size(j - 1), e = size(j);
          // the file may already be shorter
          const auto cut = e - 1 - static_cast<size_t>(op.i("r") - 1) % (e - b);
          if (cut < fs::file_size(f))
            fs::resize_file(f, cut);
          items.resize(j);
          return outcome("ok");
        }
        if (n == "delete") {
          fs::remove(folder(op.i("k")) + "/" + file(op.i("k")));
          files.erase(op.i("k"));
          return outcome("ok");
        }
        if (n == "nowhere") {
          const bool below = op.s("how") == "below";
          std::ofstream{dir + "/plain"} << "x";
          fs::create_directory(dir + "/folder");
          const std::string d = below ? dir + "/plain" : dir, f = "folder";
          return outcome(vm::err([&] {
            if (op.b("w"))
              Xsmp::StorageWriter w(d.c_str(), f.c_str(), sim.get());
            else {
              Xsmp::StorageReader r(d.c_str(), f.c_str(), sim.get());
              Smp::Int32 v;
              r.Restore(&v, sizeof v);
            }
          }));
        }
        if (n == "names") {
          const auto d = folder(op.i("k")), f = file(op.i("k"));
          bool a = false, b = false;
          files[op.i("k")] = {};
          const auto e = vm::err([&] {
            {
              Xsmp::StorageWriter w(d.c_str(), f.c_str(), sim.get());
              a = w.GetStateVectorFileName() == f &&
                  w.GetStateVectorFilePath() == d;
            }
            Xsmp::StorageReader r(d.c_str(), f.c_str(), sim.get());
            b = r.GetStateVectorFileName() == f &&
                r.GetStateVectorFilePath() == d;
          });
          return outcome(e, std::string("[") + (a ? "true" : "false") + "," +
                                (b ? "true" : "false") + "]");
        }
        return outcome("?");
      });
}
