// Drives real Xsmp::cstring objects; memory is counted and can be refused.
#include "vh.h"
#include <Xsmp/cstring.h>
#include <cstring>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string_view>
#include <utility>
using namespace vh;
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace {
bool armed = false;   // inside a call to the code under test
bool failing = false; // the next allocation is refused
constexpr size_t MAXLIVE = 4096;
const volatile void *live[MAXLIVE];
size_t nlive = 0;
void onMalloc(const volatile void *p, size_t) {
  if (armed && nlive < MAXLIVE)
    live[nlive++] = p;
}
void onFree(const volatile void *p) {
  for (size_t i = 0; i < nlive; ++i)
    if (live[i] == p) {
      live[i] = live[--nlive];
      return;
    }
}
void refuse() {
  if (armed && failing) {
    failing = false;
    armed = false;
    throw std::bad_alloc();
  }
}
} // namespace
void *operator new(std::size_t n) {
  refuse();
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) {
  refuse();
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
namespace {
struct Cell {
  alignas(Xsmp::cstring) unsigned char mem[sizeof(Xsmp::cstring)];
  bool alive = false;
  bool moved = false;
  Xsmp::cstring &get() { return *reinterpret_cast<Xsmp::cstring *>(mem); }
};
std::map<std::string, Cell> cells;
std::string obs() {
  std::string r = "{";
  for (auto &[k, c] : cells)
    if (c.alive && !c.moved) {
      if (r.size() > 1)
        r += ",";
      const char *p = c.get().c_str();
      r += jstr(k) + ":" + (p ? jchars(p) : std::string("\"null\""));
    }
  return "{\"c\":" + r + "}}";
}
std::string bytes(const Op &op, const char *k) {
  std::string r;
  for (auto x : op.ints(k))
    r += static_cast<char>(static_cast<unsigned char>(x));
  return r;
}
struct Arm {
  explicit Arm(bool fail) {
    armed = true;
    failing = fail;
  }
  ~Arm() { armed = failing = false; }
};
std::string exec(const Op &op) {
  const auto &n = op.name;
  if (n == "read")
    return ok(obs());
  if (n == "destroy_all") {
    for (auto &[k, c] : cells) {
      if (c.alive)
        c.get().~cstring();
      c.alive = c.moved = false;
    }
    return ok("{\"leaked\":" + std::to_string(nlive) + "}");
  }
  Cell &k = cells[op.s("k")];
  const bool fail = op.has("fail") && op.b("fail");
  Cell *j = op.has("j") ? &cells[op.s("j")] : nullptr;
  try {
    if (n == "new") {
      if (k.alive)
        return out("skipped");
      const std::string s = bytes(op, "s");
      const std::string padded = s + "xy";
      const std::string how = op.s("how");
      {
        Arm a(fail);
        if (how == "cstr")
          new (k.mem) Xsmp::cstring(s.c_str());
        else if (how == "len")
          new (k.mem) Xsmp::cstring(padded.c_str(), s.size());
        else
          new (k.mem) Xsmp::cstring(std::string_view(padded.data(), s.size()));
      }
      k.alive = true;
      k.moved = false;
    } else if (n == "copy_new") {
      if (k.alive || !j->alive || j->moved)
        return out("skipped");
      {
        Arm a(fail);
        new (k.mem) Xsmp::cstring(j->get());
      }
      k.alive = true;
      k.moved = false;
    } else if (n == "move_new") {
      if (k.alive || !j->alive || j == &k)
        return out("skipped");
      {
        Arm a(false);
        new (k.mem) Xsmp::cstring(std::move(j->get()));
      }
      k.alive = true;
      k.moved = j->moved;
      j->moved = true;
    } else if (n == "copy_assign") {
      if (!k.alive || !j->alive || j->moved)
        return out("skipped");
      {
        Arm a(fail);
        k.get() = static_cast<const Xsmp::cstring &>(j->get());
      }
      k.moved = false;
    } else if (n == "move_assign") {
      if (!k.alive || !j->alive)
        return out("skipped");
      {
        Arm a(false);
        k.get() = std::move(j->get());
      }
      if (j != &k) {
        k.moved = j->moved;
        j->moved = true;
      }
    } else if (n == "assign_text") {
      if (!k.alive)
        return out("skipped");
      const std::string s = bytes(op, "s");
      {
        Arm a(fail);
        k.get() = s.c_str();
      }
      k.moved = false;
    } else if (n == "assign_tail") {
      if (!k.alive || !j->alive || j->moved ||
          static_cast<size_t>(op.i("n")) > std::strlen(j->get().c_str()))
        return out("skipped");
      {
        Arm a(fail);
        k.get() = j->get().c_str() + op.i("n");
      }
      k.moved = false;
    } else if (n == "destroy") {
      if (!k.alive)
        return out("skipped");
      {
        Arm a(false);
        k.get().~cstring();
      }
      k.alive = k.moved = false;
    } else
      return out("unknown_op");
  } catch (const std::bad_alloc &) {
    armed = failing = false;
    return out("bad_alloc", obs());
  }
  return ok(obs());
}
} // namespace
int main() {
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  return drive(
      [] {
        cells.clear();
        nlive = 0;
        for (auto *k : {"a", "b", "c", "d"})
          cells[k];
      },
      exec,
      [] {});
}
