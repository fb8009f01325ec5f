// Operation interpreter shared by the harnesses: reads one operation per line
// ("name key=value ..."), executes it on the real code and reports the outcome
// as {"e": <kind>, "v": <value>}.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
namespace vh {
struct Op {
  std::string name;
  std::map<std::string, std::string> kv;
  bool has(const std::string &k) const { return kv.count(k) != 0; }
  const std::string &s(const std::string &k) const {
    auto it = kv.find(k);
    if (it == kv.end()) {
      std::fprintf(stderr, "harness: missing argument %s of %s\n", k.c_str(),
                   name.c_str());
      std::exit(3);
    }
    return it->second;
  }
  long long i(const std::string &k) const {
    return std::strtoll(s(k).c_str(), nullptr, 10);
  }
  bool b(const std::string &k) const { return s(k) == "1"; }
  std::vector<std::string> strs(const std::string &k) const {
    std::vector<std::string> r;
    const auto &v = s(k);
    if (v.empty())
      return r;
    std::string cur;
    for (char c : v) {
      if (c == ',') {
        r.push_back(cur);
        cur.clear();
      } else
        cur += c;
    }
    r.push_back(cur);
    return r;
  }
  // nested operations: "name|key!value|...", separated by commas
  std::vector<Op> ops(const std::string &k) const {
    std::vector<Op> r;
    for (auto &x : strs(k)) {
      Op o;
      size_t b = 0;
      for (bool first = true; b <= x.size(); first = false) {
        auto e = x.find('|', b);
        if (e == std::string::npos)
          e = x.size();
        const std::string part = x.substr(b, e - b);
        if (first)
          o.name = part;
        else {
          auto q = part.find('!');
          o.kv[part.substr(0, q)] = part.substr(q + 1);
        }
        b = e + 1;
      }
      r.push_back(o);
    }
    return r;
  }
  std::vector<long long> ints(const std::string &k) const {
    std::vector<long long> r;
    for (auto &x : strs(k))
      r.push_back(std::strtoll(x.c_str(), nullptr, 10));
    return r;
  }
};
inline std::string unesc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() + 0) {
      r += static_cast<char>(std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else
      r += s[i];
  }
  return r;
}
inline bool parse(const std::string &line, Op &op) {
  std::istringstream is(line);
  op = Op{};
  if (!(is >> op.name))
    return false;
  std::string t;
  while (is >> t) {
    auto p = t.find('=');
    op.kv[t.substr(0, p)] =
        p == std::string::npos ? std::string() : unesc(t.substr(p + 1));
  }
  return true;
}
inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  }
  return r + "\"";
}
inline std::string jchars(const std::string &s) {
  std::string r = "[";
  for (unsigned char c : s) {
    if (r.size() > 1)
      r += ",";
    r += std::to_string(static_cast<int>(c));
  }
  return r + "]";
}
template <class C> std::string jints(const C &c) {
  std::string r = "[";
  for (auto x : c) {
    if (r.size() > 1)
      r += ",";
    r += std::to_string(static_cast<long long>(x));
  }
  return r + "]";
}
template <class C> std::string jstrs(const C &c) {
  std::string r = "[";
  for (const auto &x : c) {
    if (r.size() > 1)
      r += ",";
    r += jstr(x);
  }
  return r + "]";
}
inline std::string out(const std::string &e, const std::string &v = "0") {
  return "{\"e\":" + jstr(e) + ",\"v\":" + v + "}";
}
inline std::string ok(const std::string &v = "0") { return out("ok", v); }
inline std::string okI(long long v) { return ok(std::to_string(v)); }
inline std::string okB(bool v) { return ok(v ? "true" : "false"); }
inline std::string okS(const std::string &v) { return ok(jstr(v)); }

// what the harness says, whatever std::cout is made to be
inline void say(const std::string &line) {
  std::cout.flush();
  std::fputs((line + "\n").c_str(), stdout);
  std::fflush(stdout);
}

// The driver: `reset` starts a fresh trace, `exec` runs one operation.
inline int drive(const std::function<void()> &reset,
                 const std::function<std::string(const Op &)> &exec,
                 const std::function<void()> &finish = {}) {
  std::string line;
  Op op;
  bool any = false;
  while (std::getline(std::cin, line)) {
    if (line.rfind("@reset", 0) == 0 || line.rfind("@end", 0) == 0) {
      if (any && finish)
        finish();
      any = true;
      std::fflush(stdout);
      if (line[1] == 'e') {
        say("@end");
        return 0;
      }
      say(line);
      reset();
      continue;
    }
    if (!parse(line, op))
      continue;
    const std::string r = exec(op);
    say("@out " + r);
  }
  return 0;
}
} // namespace vh
