// C08: universally unique identifiers.
#include "smp.h"
#include <Smp/Uuid.h>
#include <algorithm>
#include <set>
#include <unordered_set>
static std::set<Smp::Uuid> tree;
static std::unordered_set<Smp::Uuid> table;
static void reset() {
  tree.clear();
  table.clear();
}
// bytes, in hexadecimal
static std::string text(const std::string &h) {
  std::string r;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return r;
}
static std::string print(const Smp::Uuid &u) {
  std::ostringstream o;
  o << u;
  // the stream is left as it was
  o << 31;
  auto s = o.str();
  if (s.size() < 2 || s.substr(s.size() - 2) != "31")
    return "[-1]";
  s.resize(s.size() - 2);
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i)
    r += (i ? "," : "") + std::to_string(static_cast<unsigned char>(s[i]));
  return r + "]";
}
static Smp::Uuid make(const std::string &t) {
  // exactly the bytes of the text, so that reading too far is seen
  std::vector<char> v(t.begin(), t.end());
  v.push_back('\0');
  v.shrink_to_fit();
  return Smp::Uuid(v.data());
}
static const char *rel(const Smp::Uuid &a, const Smp::Uuid &b) {
  const bool lt = a < b, gt = b < a, eq = a == b, ne = a != b;
  if (eq == ne || eq != (b == a) || ne != (b != a))
    return "inconsistent";
  if (lt + gt + eq != 1)
    return "unordered";
  if (eq && std::hash<Smp::Uuid>()(a) != std::hash<Smp::Uuid>()(b))
    return "hash";
  return lt ? "lt" : gt ? "gt" : "eq";
}
static std::string all() {
  std::string r = "[";
  for (auto &u : tree)
    r += (r.size() > 1 ? "," : "") + print(u);
  bool same = tree.size() == table.size() &&
              std::all_of(tree.begin(), tree.end(),
                          [](auto &u) { return table.count(u) == 1; });
  return same ? r + "]" : "[[0]]";
}
static std::string exec(const vh::Op &o) {
  if (o.name == "texts") {
    std::string r = "[";
    for (auto &h : o.strs("hex")) {
      std::string x;
      try {
        x = print(make(text(h)));
      } catch (const Smp::Exception &e) {
        x = std::string(e.GetName()) == "InvalidUUID" ? "[]" : "[-2]";
      }
      r += (r.size() > 1 ? "," : "") + x;
    }
    return vh::out("ok", r + "]");
  }
  if (o.name == "null")
    try {
      Smp::Uuid u(static_cast<const char *>(nullptr));
      return vh::out("accepted");
    } catch (const Smp::Exception &e) {
      return std::string(e.GetName()) == "InvalidUUID" ? vh::out("ok")
                                                       : vh::out(e.GetName());
    }
  if (o.name == "pairs") {
    auto h = o.strs("hex");
    std::vector<std::string> r;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
      r.push_back(rel(make(text(h[i])), make(text(h[i + 1]))));
    return vh::out("ok", vh::jstrs(r));
  }
  const auto u = make(text(o.s("hex")));
  bool n, m;
  if (o.name == "put") {
    n = tree.insert(u).second;
    m = table.insert(u).second;
  } else {
    n = tree.erase(u) == 1;
    m = table.erase(u) == 1;
  }
  if (n != m)
    return vh::out("disagree");
  return vh::out("ok", std::string("{\"new\":") + (n ? "true" : "false") +
                           ",\"all\":" + all() + "}");
}
int main() {
  return vh::drive(reset, [](const vh::Op &o) {
    return vm::guard([&] { return exec(o); });
  });
}
