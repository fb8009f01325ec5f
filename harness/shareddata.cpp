// Drives a real Xsmp::ThreadSafeData from several threads: either stepwise, as
// told (one call per operation), or freely, recording a log.
#include "vh.h"
#include <utility>
#include <Xsmp/ThreadSafeData.h>
#include <atomic>
#include <chrono>
#include <memory>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace vh;
namespace {
struct Data {
  long a = 0;
  long b = 0;
  explicit Data(int x) : a(x), b(x) {}
};
using TSD = Xsmp::ThreadSafeData<Data>;
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool busy = false, stop = false;
  std::optional<TSD::ReadLock> r;
  std::optional<TSD::WriteLock> w;
  std::string result;
  std::thread th;
  Worker() : th([this] { run(); }) {}
  void run() {
    std::unique_lock<std::mutex> lk(m);
    for (;;) {
      cv.wait(lk, [this] { return stop || (busy && job); });
      if (stop)
        return;
      auto j = std::move(job);
      job = nullptr;
      lk.unlock();
      j();
      lk.lock();
      busy = false;
      cv.notify_all();
    }
  }
  // true if the job finished within the given time
  bool submit(std::function<void()> j, int ms) {
    {
      std::lock_guard<std::mutex> lk(m);
      job = std::move(j);
      busy = true;
    }
    cv.notify_all();
    return await(ms);
  }
  bool await(int ms) {
    std::unique_lock<std::mutex> lk(m);
    return cv.wait_for(lk, std::chrono::milliseconds(ms), [this] { return !busy; });
  }
  ~Worker() {
    {
      std::lock_guard<std::mutex> lk(m);
      stop = true;
    }
    cv.notify_all();
    th.join();
  }
};
std::unique_ptr<TSD> data;
std::map<std::string, std::unique_ptr<Worker>> workers;
constexpr int LONG = 10000, SHORT = 25;
std::string val(const Data &d) {
  return d.a == d.b ? okI(d.a) : out("torn");
}
std::string stepwise(const Op &op) {
  Worker &w = *workers.at(op.s("t"));
  const std::string n = op.name;
  // how long a call may take before it counts as waiting: long when the model
  // says it returns (a slow machine is no violation), short when it should wait
  const bool expectBlock = op.s("expect") == "blocked";
  const bool holds = w.r.has_value() || w.w.has_value();
  std::function<void()> job;
  if (n == "read")
    job = [&w] {
      w.r.emplace(data->read());
      w.result = val(w.r->get());
    };
  else if (n == "write")
    job = [&w] {
      w.w.emplace(data->write());
      w.result = val(w.w->get());
    };
  else if (n == "try_read")
    job = [&w] {
      auto g = data->try_read();
      if (g) {
        w.r.emplace(std::move(*g));
        w.result = val(w.r->get());
      } else
        w.result = out("refused");
    };
  else if (n == "try_write")
    job = [&w] {
      auto g = data->try_write();
      if (g) {
        w.w.emplace(std::move(*g));
        w.result = val(w.w->get());
      } else
        w.result = out("refused");
    };
  else if (n == "relock")
    job = [&w] {
      if (w.r) {
        w.r->lock();
        w.result = val(w.r->get());
      } else {
        w.w->lock();
        w.result = val(w.w->get());
      }
    };
  else if (n == "get")
    job = [&w] { w.result = w.r ? val(w.r->get()) : val(w.w->get()); };
  else if (n == "put") {
    const long x = op.i("x");
    job = [&w, x] {
      w.w->get().a = x;
      w.w->get().b = x;
      w.result = okI(x);
    };
  } else if (n == "unlock")
    job = [&w] {
      if (w.r)
        w.r->unlock();
      else
        w.w->unlock();
      w.result = okS("none");
    };
  else if (n == "drop")
    job = [&w] {
      w.r.reset();
      w.w.reset();
      w.result = okS("none");
    };
  else
    return out("unknown_op");
  if (!w.await(0) || ((n == "read" || n == "write" || n == "try_read" ||
                       n == "try_write") == holds))
    return out("skipped");
  w.result = "waiting";
  if (!w.submit(job, expectBlock ? SHORT : LONG))
    return out("blocked");
  if (n == "unlock" || n == "drop") {
    const std::string g = op.s("grant");
    if (g != "none") {
      if (!workers.at(g)->await(LONG))
        return okS("none");
      return okS(g);
    }
    // nobody may have been let in
    for (auto &[k, o] : workers)
      if (o->result == "waiting" && o->await(0))
        return okS(k);
  }
  return w.result;
}

struct Log {
  std::mutex m;
  std::string s = "[";
  void add(int t, const char *op, const char *k, long v) {
    std::lock_guard<std::mutex> lk(m);
    if (s.size() > 1)
      s += ",";
    s += "{\"op\":\"" + std::string(op) + "\",\"t\":" + std::to_string(t) +
         ",\"k\":\"" + k + "\",\"v\":" + std::to_string(v) + "}";
  }
};
std::string freerun(const Op &op) {
  const int nt = static_cast<int>(op.i("threads"));
  const int iters = static_cast<int>(op.i("iters"));
  TSD d(0);
  Log log;
  std::vector<std::thread> ts;
  std::atomic<int> ready{0};
  for (int t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      unsigned x = static_cast<unsigned>(op.i("seed")) * 7919U + t * 104729U + 1U;
      auto rnd = [&x] {
        x = x * 1664525U + 1013904223U;
        return x >> 16U;
      };
      ++ready;
      while (ready < nt)
        std::this_thread::yield();
      auto spin = [&] {
        for (unsigned i = rnd() % 3; i > 0; --i)
          std::this_thread::yield();
      };
      for (int i = 0; i < iters; ++i) {
        spin();
        auto reading = [&](auto &g) {
          log.add(t, "acq", "R", g.get().a);
          const long a = g.get().a;
          spin();
          const long b = g.get().b;
          log.add(t, "rel", "R", a == b ? a : -1);
        };
        auto writing = [&](auto &g, long seen) {
          log.add(t, "acq", "W", seen);
          g.get().a = seen + 1;
          spin();
          g.get().b = seen + 1;
          log.add(t, "put", "W", g.get().a);
          log.add(t, "rel", "W", g.get().b);
        };
        switch (rnd() % 6) {
        case 0: {
          log.add(t, "call", "R", 0);
          {
            auto g = d.read();
            reading(g);
          }
          log.add(t, "done", "R", 0);
          break;
        }
        case 1: {
          log.add(t, "call", "W", 0);
          {
            auto g = d.write();
            writing(g, g.get().a);
          }
          log.add(t, "done", "W", 0);
          break;
        }
        case 2: {
          log.add(t, "call", "R", 0);
          auto g = d.try_read();
          if (g) {
            reading(*g);
            g.reset();
            log.add(t, "done", "R", 0);
          } else
            log.add(t, "refused", "R", 0);
          break;
        }
        case 3: {
          log.add(t, "call", "W", 0);
          auto g = d.try_write();
          if (g) {
            writing(*g, g->get().a);
            g.reset();
            log.add(t, "done", "W", 0);
          } else
            log.add(t, "refused", "W", 0);
          break;
        }
        case 4: {
          log.add(t, "call", "R", 0);
          auto g = d.read();
          reading(g);
          g.unlock();
          log.add(t, "done", "R", 0);
          spin();
          log.add(t, "call", "R", 0);
          g.lock();
          reading(g);
          g.unlock();
          log.add(t, "done", "R", 0);
          break;
        }
        default: {
          log.add(t, "call", "W", 0);
          auto g = d.write();
          writing(g, g.get().a);
          g.unlock();
          log.add(t, "done", "W", 0);
          spin();
          log.add(t, "call", "W", 0);
          g.lock();
          writing(g, g.get().a);
          g.unlock();
          log.add(t, "done", "W", 0);
        }
        }
      }
    });
  for (auto &t : ts)
    t.join();
  return ok(log.s + "]");
}
} // namespace
int main() {
  auto clear = [] {
    // let every waiting thread go
    for (int pass = 0; pass < 4; ++pass)
      for (auto &[k, w] : workers)
        if (w->await(pass ? 200 : 0) && (w->r || w->w))
          w->submit(
              [p = w.get()] {
                p->r.reset();
                p->w.reset();
              },
              LONG);
    for (auto &[k, w] : workers)
      if (!w->await(1000))
        std::_Exit(97); // a thread waits for a lock nobody holds
    workers.clear();
    data.reset();
  };
  return drive(
      [&] {
        data = std::make_unique<TSD>(0);
        for (auto *k : {"t1", "t2", "t3"})
          workers[k] = std::make_unique<Worker>();
      },
      [](const Op &o) { return o.name == "freerun" ? freerun(o) : stepwise(o); },
      clear);
}
