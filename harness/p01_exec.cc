// P01 (exactly once, on the right executor, result delivery), P02 (serial FIFO),
// P03 (shutdown), P04 (manual executor accounting).
#include "common.h"
#include <latch>
#include <memory>
#include <span>
#include <thread>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
using namespace vf;
using namespace std::chrono_literals;
namespace ex = plain::concurrency::executor;
using plain::concurrency::Result;
using plain::concurrency::ResultStatus;

static constexpr size_t kMax = 1 << 16;
static std::atomic<uint32_t> g_runs[kMax];       // how often task id ran
static std::atomic<uint32_t> g_where[kMax];      // executor tag it ran on (tag+1)
static uint64_t g_payload[kMax];                 // written by the task, read by the result's consumer (plain)
static std::atomic<uint32_t> g_next{0};
static std::atomic<int64_t> g_live{0};           // captured guard objects alive
static thread_local unsigned t_tag = 0;          // executor tag of the current thread (0 = none)

struct Guard {  // counts callable captures
  Guard() { g_live.fetch_add(1, std::memory_order_relaxed); }
  Guard(const Guard &) { g_live.fetch_add(1, std::memory_order_relaxed); }
  Guard(Guard &&) noexcept { g_live.fetch_add(1, std::memory_order_relaxed); }
  ~Guard() { g_live.fetch_sub(1, std::memory_order_relaxed); }
};
struct TaskError { uint32_t id; };

static void reset_ids() {
  uint32_t n = std::min<uint32_t>(g_next.load(), kMax);
  for (uint32_t i = 0; i < n; ++i) { g_runs[i] = 0; g_where[i] = 0; g_payload[i] = 0; }
  g_next = 0;
}
static uint32_t new_id() {
  auto i = g_next.fetch_add(1, std::memory_order_relaxed);
  if (i >= kMax) harness_error("task id space");
  return i;
}
static void ran(uint32_t id, unsigned) {
  g_where[id].store(t_tag + 1, std::memory_order_relaxed);
  g_runs[id].fetch_add(1, std::memory_order_relaxed);
  g_payload[id] = id * 2654435761ull + 17;
}

enum Kind { kInline, kThread, kPool, kWorker, kManual };
static const char *kname(Kind k) { static const char *n[] = {"inline", "thread", "pool", "worker", "manual"}; return n[k]; }

struct Exec {
  Kind kind;
  unsigned tag;
  std::shared_ptr<ex::Basic> e;
  std::shared_ptr<ex::Manual> manual;
  std::vector<std::thread> loopers;
  std::atomic<bool> stop{false};
  Exec(Kind k, unsigned tag_, Rng &g, unsigned nloop = 1) : kind{k}, tag{tag_} {
    auto started = [tag_](std::string_view) { t_tag = tag_; };
    switch (k) {
      case kInline: e = std::make_shared<ex::Inline>(); break;
      case kThread: e = std::make_shared<ex::Thread>(started); break;
      case kPool: e = std::make_shared<ex::ThreadPool>("vpool", 1 + g.below(4), std::chrono::milliseconds(g.chance(1, 2) ? g.below(3) + 1 : 3600000), started); break;
      case kWorker: e = std::make_shared<ex::WorkerThread>(started); break;
      case kManual: manual = std::make_shared<ex::Manual>(); e = manual; break;
    }
    if (manual) {
      for (unsigned i = 0; i < nloop; ++i) {
        uint64_t s = g.next();
        loopers.emplace_back([this, s] {
          t_tag = tag;
          Rng r{s};
          while (!stop.load(std::memory_order_relaxed)) {
            try {
              switch (r.below(4)) {
                case 0: if (!manual->loop_once()) std::this_thread::sleep_for(50us); break;
                case 1: manual->loop_for(1 + r.below(5), 2ms); break;
                case 2: manual->loop_once_for(2ms); break;
                default: if (!manual->loop(1 + r.below(10))) std::this_thread::yield(); break;
              }
            } catch (const std::runtime_error &) { break; }
          }
        });
      }
    }
  }
  unsigned want_tag() const { return kind == kInline ? 0xffff : tag; }
  void finish() {
    stop = true;
    for (auto &t : loopers) t.join();
    loopers.clear();
  }
};

struct Expect { uint32_t id; unsigned tag; };  // tag 0xffff: submitting thread
struct Local {  // per submitter, no sharing
  std::vector<std::pair<uint32_t, Result<uint64_t>>> values;
  std::vector<std::pair<uint32_t, Result<void>>> voids;
  std::vector<std::pair<uint32_t, Result<std::string>>> strings;
  std::vector<uint32_t> throwers;  // ids expected to throw
  std::vector<Expect> all;
  std::vector<uint32_t> posts;
};

static bool is_thrower(uint32_t id) { return id % 7 == 3; }

static uint64_t value_of(uint32_t id) { return id * 0x9E3779B97F4A7C15ull ^ 5; }

static void one_op(Exec &x, Rng &g, Local &l, unsigned mytag, int depth);

static void do_ops_inside(Exec *x, uint64_t seed, Local *l, unsigned mytag) {
  Rng g{seed};
  one_op(*x, g, *l, mytag, 0);
}

static void one_op(Exec &x, Rng &g, Local &l, unsigned mytag, int depth) {
  unsigned want = x.kind == kInline ? mytag : x.tag;
  switch (g.below(depth > 0 ? 8 : 6)) {
    case 0: {
      uint32_t id = new_id();
      l.all.push_back({id, want}); l.posts.push_back(id);
      Guard gd;
      if (is_thrower(id)) x.e->post([id, gd] { ran(id, 0); throw TaskError{id}; });
      else x.e->post([id, gd]() noexcept { ran(id, 0); });
      break;
    }
    case 1: {
      uint32_t id = new_id();
      l.all.push_back({id, want});
      Guard gd;
      l.values.emplace_back(id, x.e->submit([id, gd]() -> uint64_t { ran(id, 0); if (is_thrower(id)) throw TaskError{id}; return value_of(id); }));
      break;
    }
    case 2: {
      uint32_t id = new_id();
      l.all.push_back({id, want});
      uint64_t a = g.next(); std::string b = cat("s", id);
      l.strings.emplace_back(id, x.e->submit([](uint32_t i, std::string s) { ran(i, 0); if (is_thrower(i)) throw TaskError{i}; return s + "!"; }, id, b));
      (void)a;
      break;
    }
    case 3: {
      uint32_t id = new_id();
      l.all.push_back({id, want});
      Guard gd;
      l.voids.emplace_back(id, x.e->submit([id, gd] { ran(id, 0); if (is_thrower(id)) throw TaskError{id}; }));
      break;
    }
    case 4: {
      size_t n = 1 + g.below(9);
      std::vector<std::function<void()>> fs;
      for (size_t i = 0; i < n; ++i) {
        uint32_t id = new_id();
        l.all.push_back({id, want}); l.posts.push_back(id);
        Guard gd;
        fs.emplace_back([id, gd] { ran(id, 0); if (is_thrower(id)) throw TaskError{id}; });
      }
      x.e->bulk_post<std::function<void()>>(fs);
      break;
    }
    case 5: {
      size_t n = 1 + g.below(9);
      std::vector<std::function<uint64_t()>> fs;
      std::vector<uint32_t> ids;
      for (size_t i = 0; i < n; ++i) {
        uint32_t id = new_id();
        ids.push_back(id);
        l.all.push_back({id, want});
        Guard gd;
        fs.emplace_back([id, gd]() -> uint64_t { ran(id, 0); if (is_thrower(id)) throw TaskError{id}; return value_of(id); });
      }
      auto rs = x.e->bulk_submit<std::function<uint64_t()>>(fs);
      if (rs.size() != n) { viol(cat("exec:", kname(x.kind), ":bulk-size"), cat(rs.size(), " results for ", n)); break; }
      for (size_t i = 0; i < n; ++i) l.values.emplace_back(ids[i], std::move(rs[i]));
      break;
    }
    default: {  // nested: run operations from inside the executor, on it or on another one
      uint32_t id = new_id();
      l.all.push_back({id, want});
      auto inner = std::make_shared<Local>();
      auto seed = g.next();
      auto n = 1 + g.below(6);
      Exec *target = &x;
      unsigned intag = want;
      auto r = x.e->submit([=, target = target]() -> uint64_t {
        for (size_t i = 0; i < n; ++i) do_ops_inside(target, seed + i, inner.get(), intag);
        ran(id, 0);
        return value_of(id);
      });
      uint64_t v = r.get();
      if (v != value_of(id)) viol("exec:nested-value", "");
      for (auto &p : inner->values) l.values.emplace_back(std::move(p));
      for (auto &p : inner->voids) l.voids.emplace_back(std::move(p));
      for (auto &p : inner->strings) l.strings.emplace_back(std::move(p));
      l.all.insert(l.all.end(), inner->all.begin(), inner->all.end());
      l.posts.insert(l.posts.end(), inner->posts.begin(), inner->posts.end());
      break;
    }
  }
}

template <class R, class F>
static void check_result(const char *kn, uint32_t id, Result<R> &r, Rng &g, F ok) {
  bool thrower = is_thrower(id);
  if (g.chance(1, 3)) {  // bounded waits first
    for (int i = 0; i < 20000; ++i) {
      auto s = r.wait_for(std::chrono::milliseconds(g.below(4)));
      progress();
      if (s != ResultStatus::Idle) {
        bool want_ex = thrower && id != 0xffffffff;
        if ((s == ResultStatus::Exception) != want_ex) viol(cat("exec:", kn, ":wait_for-status"), cat("id ", id));
        break;
      }
    }
  } else if (g.chance(1, 3)) r.wait();
  try {
    if constexpr (std::is_void_v<R>) { r.get(); if (!ok()) viol(cat("exec:", kn, ":result-value"), cat("void id ", id)); }
    else { auto v = r.get(); if (!ok(v)) viol(cat("exec:", kn, ":result-value"), cat("id ", id)); }
    if (thrower) viol(cat("exec:", kn, ":exception-lost"), cat("task ", id, " threw but its result delivered a value"));
    if (g_payload[id] != id * 2654435761ull + 17) viol(cat("exec:", kn, ":effects-not-visible"), cat("id ", id));
  } catch (const TaskError &e) {
    if (!thrower || e.id != id) viol(cat("exec:", kn, ":wrong-exception"), cat("id ", id, " got ", e.id));
    else if (g_payload[id] != id * 2654435761ull + 17) viol(cat("exec:", kn, ":effects-not-visible"), cat("id ", id));
  } catch (const std::exception &e) {
    viol(cat("exec:", kn, ":unexpected-exception"), cat("id ", id, " ", e.what()));
  }
  if (r) viol(cat("exec:", kn, ":result-not-consumed"), "");
}

static void check_locals(const char *kn, std::vector<Local> &ls, Rng &g) {
  for (auto &l : ls) {
    for (auto &[id, r] : l.values) check_result<uint64_t>(kn, id, r, g, [id = id](uint64_t v) { return v == value_of(id); });
    for (auto &[id, r] : l.voids) check_result<void>(kn, id, r, g, [] { return true; });
    for (auto &[id, r] : l.strings) check_result<std::string>(kn, id, r, g, [id = id](const std::string &v) { return v == cat("s", id, "!"); });
    for (auto id : l.posts)
      if (!wait_until([&] { progress(); return g_runs[id].load(std::memory_order_relaxed) > 0; }, 30000))
        stuck(cat(kn, ": posted task ", id, " never ran"));
  }
}

static void check_once(const char *kn, std::vector<Local> &ls) {
  for (auto &l : ls)
    for (auto &x : l.all) {
      auto n = g_runs[x.id].load(), w = g_where[x.id].load();
      if (n != 1) viol(cat("exec:", kn, ":run-count"), cat("task ", x.id, " ran ", n, " times"));
      else if (w != x.tag + 1) viol(cat("exec:", kn, ":wrong-executor"), cat("task ", x.id, " ran on tag ", int(w) - 1, " instead of ", x.tag));
    }
}

// P01
static void mix_round(Kind k, uint64_t seed) {
  Rng g{seed};
  reset_ids();
  std::string desc;
  {
    unsigned nloop = 1 + static_cast<unsigned>(g.below(2));
    Exec x{k, 1, g, nloop};
    unsigned nsub = 1 + static_cast<unsigned>(g.below(4));
    unsigned nops = k == kThread ? 8 : 25;
    std::vector<Local> ls(nsub);
    std::vector<std::thread> ts;
    std::latch go{static_cast<std::ptrdiff_t>(nsub)};
    for (unsigned i = 0; i < nsub; ++i)
      ts.emplace_back([&, i] {
        t_tag = 100 + i;
        Rng r{seed * 31 + i};
        go.arrive_and_wait();
        for (unsigned j = 0; j < nops; ++j) {
          one_op(x, r, ls[i], t_tag, 1);
          if (r.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
          progress();
        }
      });
    for (auto &t : ts) t.join();
    check_locals(kname(k), ls, g);
    x.finish();
    x.e->shutdown();
    check_once(kname(k), ls);
    uint64_t h = hash_mix(seed, k);
    size_t total = 0;
    for (auto &l : ls) total += l.all.size();
    count(cat("tasks_", kname(k)), total);
    count("results_checked", [&] { size_t n = 0; for (auto &l : ls) n += l.values.size() + l.voids.size() + l.strings.size(); return n; }());
    if (nsub > 1) distinct(h);
    desc = cat(kname(k), ": ", nsub, " submitters, ", total, " tasks");
  }
  if (auto n = g_live.load()) { viol(cat("exec:", kname(k), ":callable-leak"), cat(n, " captured objects still alive")); g_live = 0; }
  sample(desc);
  eval();
}

// P01: tasks submitted from one executor's thread to another executor
static void cross_round(uint64_t seed) {
  Rng g{seed};
  reset_ids();
  {
    std::vector<std::unique_ptr<Exec>> xs;
    unsigned n = 2 + static_cast<unsigned>(g.below(3));
    for (unsigned i = 0; i < n; ++i) {
      Kind ks[] = {kPool, kPool, kWorker, kThread, kManual};
      xs.push_back(std::make_unique<Exec>(ks[g.below(5)], i + 1, g, 1));
    }
    unsigned chains = 3 + static_cast<unsigned>(g.below(6));
    struct Hop { Exec *x; uint32_t id; };
    std::vector<std::vector<Hop>> plans;
    for (unsigned c = 0; c < chains; ++c) {
      std::vector<Hop> p;
      unsigned len = 2 + static_cast<unsigned>(g.below(8));
      for (unsigned i = 0; i < len; ++i) p.push_back({xs[g.below(n)].get(), new_id()});
      plans.push_back(p);
    }
    std::atomic<unsigned> done{0};
    std::function<void(unsigned, unsigned)> hop = [&](unsigned c, unsigned i) {
      auto &h = plans[c][i];
      auto id = h.id;
      bool bulk = (id & 1) != 0;
      auto body = [&hop, &plans, &done, c, i, id] {
        ran(id, 0);
        if (i + 1 < plans[c].size()) hop(c, i + 1);
        else done.fetch_add(1);
      };
      if (bulk) { std::vector<std::function<void()>> fs{body}; h.x->e->bulk_post<std::function<void()>>(fs); }
      else h.x->e->post(body);
    };
    for (unsigned c = 0; c < chains; ++c) hop(c, 0);
    if (!wait_until([&] { progress(); return done.load() == chains; }, 30000)) stuck("cross-executor chain");
    for (auto &x : xs) x->finish();
    for (auto &x : xs) x->e->shutdown();
    size_t hops = 0;
    uint64_t hsh = seed;
    for (auto &p : plans)
      for (auto &h : p) {
        ++hops;
        hsh = hash_mix(hsh, h.x->kind * 16 + h.x->tag);
        auto c = g_runs[h.id].load(), w = g_where[h.id].load();
        if (c != 1) viol(cat("exec:cross:", kname(h.x->kind), ":run-count"), cat("ran ", c));
        else if (w != h.x->tag + 1) viol(cat("exec:cross:", kname(h.x->kind), ":wrong-executor"), cat("hop ran on executor tag ", int(w) - 1, " (", w >= 2 && w <= n + 1 ? kname(xs[w - 2]->kind) : "?", ") instead of ", h.x->tag));
      }
    count("cross_executor_hops", hops);
    distinct(hsh);
  }
  eval();
}

// P02
static void fifo_round(Kind k, uint64_t seed) {
  Rng g{seed};
  reset_ids();
  struct Rec { unsigned src; uint32_t seq; };
  std::vector<Rec> log;          // deliberately unsynchronised: the executor serialises
  std::atomic<int> inside{0};
  uint32_t local_seq = 0;        // only touched by tasks
  std::atomic<uint32_t> executed{0};
  uint32_t expected = 0;
  Exec x{k, 1, g, 1};
  unsigned nsub = 1 + static_cast<unsigned>(g.below(4));
  std::atomic<uint32_t> total{0};
  auto body = [&](unsigned src, uint32_t seq, unsigned nest) {
    if (inside.fetch_add(1, std::memory_order_relaxed) != 0) viol(cat("fifo:", kname(k), ":overlap"), "two tasks ran at the same time");
    if (t_tag != 1) viol(cat("fifo:", kname(k), ":wrong-thread"), "");
    log.push_back({src, seq});
    for (unsigned i = 0; i < nest; ++i) {
      uint32_t s = local_seq++;
      auto inner = [&, s] {
        if (inside.fetch_add(1, std::memory_order_relaxed) != 0) viol(cat("fifo:", kname(k), ":overlap"), "nested");
        log.push_back({99, s});
        inside.fetch_sub(1, std::memory_order_relaxed);
        executed.fetch_add(1, std::memory_order_relaxed);
      };
      if (s % 3 == 0) { std::vector<std::function<void()>> fs{inner}; x.e->bulk_post<std::function<void()>>(fs); }
      else x.e->post(inner);
    }
    inside.fetch_sub(1, std::memory_order_relaxed);
    executed.fetch_add(1, std::memory_order_relaxed);
  };
  std::vector<std::thread> ts;
  std::vector<uint32_t> counts(nsub, 0);
  for (unsigned i = 0; i < nsub; ++i)
    ts.emplace_back([&, i] {
      Rng r{seed * 131 + i};
      uint32_t seq = 0;
      for (unsigned j = 0; j < 40; ++j) {
        unsigned nest = r.chance(1, 5) ? static_cast<unsigned>(1 + r.below(3)) : 0;
        total.fetch_add(nest);
        switch (r.below(3)) {
          case 0: { auto s = seq++; x.e->post([&body, i, s, nest] { body(i, s, nest); }); break; }
          case 1: { auto s = seq++; auto res = x.e->submit([&body, i, s, nest] { body(i, s, nest); return 1; }); if (r.chance(1, 3)) res.get(); break; }
          default: {
            size_t n = 1 + r.below(6);
            std::vector<std::function<void()>> fs;
            for (size_t q = 0; q < n; ++q) { auto s = seq++; unsigned ns = q == 0 ? nest : 0; fs.emplace_back([&body, i, s, ns] { body(i, s, ns); }); }
            x.e->bulk_post<std::function<void()>>(fs);
          }
        }
        if (r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(800)));
        progress();
      }
      counts[i] = seq;
    });
  for (auto &t : ts) t.join();
  for (auto c : counts) expected += c;
  expected += total.load();
  if (!wait_until([&] { progress(); return executed.load() >= expected; }, 30000)) stuck(cat(kname(k), ": ", executed.load(), " of ", expected, " tasks ran"));
  x.finish();
  x.e->shutdown();
  std::map<unsigned, uint32_t> next;
  uint64_t h = seed;
  for (auto &r : log) {
    if (r.seq != next[r.src]) { viol(cat("fifo:", kname(k), r.src == 99 ? ":local-order" : ":order"), cat("submitter ", r.src, " task ", r.seq, " ran when ", next[r.src], " was due")); break; }
    next[r.src]++;
    h = hash_mix(h, r.src);
  }
  if (log.size() != expected) viol(cat("fifo:", kname(k), ":count"), cat(log.size(), " of ", expected));
  if (nsub > 1) distinct(h);  // the observed interleaving of submitters
  count("fifo_tasks", expected);
  count("fifo_local_tasks", total.load());
  sample(cat(kname(k), ": ", nsub, " submitters, ", expected, " tasks, ", total.load(), " from inside"));
  eval();
}

// P03
static void shutdown_round(Kind k, uint64_t seed) {
  Rng g{seed};
  reset_ids();
  {
    Exec x{k, 1, g, 1};
    unsigned nsub = 1 + static_cast<unsigned>(g.below(3));
    std::atomic<bool> down{false};           // shutdown() returned in the initiating thread
    std::atomic<uint64_t> late{0};
    struct Acc {
      std::vector<std::pair<uint32_t, Result<uint64_t>>> rs;
      std::vector<uint32_t> posts, late;
      uint64_t wrong_ex{0};
    };
    std::vector<Acc> as(nsub);
    bool joins = k == kThread || k == kPool || k == kWorker;
    std::vector<std::thread> ts;
    std::latch go{static_cast<std::ptrdiff_t>(nsub) + 1};
    unsigned maxops = k == kThread ? 30 : 150;
    for (unsigned i = 0; i < nsub; ++i)
      ts.emplace_back([&, i] {
        t_tag = 100 + i;
        Rng r{seed * 37 + i};
        go.arrive_and_wait();
        unsigned after = 0;
        for (unsigned j = 0; j < maxops && after < 6; ++j) {
          Guard gd;
          unsigned slow = static_cast<unsigned>(r.below(40));
          auto work = [&, slow, gd](uint32_t id) {
            if (joins && down.load(std::memory_order_acquire)) late++;
            for (volatile unsigned q = 0; q < slow * 50; q = q + 1) {}
            ran(id, 0);
          };
          bool was_down = down.load(std::memory_order_acquire);
          uint32_t first = 0; size_t n = 1;
          auto op = r.below(4);
          try {
            switch (op) {
              case 0: { first = new_id(); x.e->post([work, id = first] { work(id); }); as[i].posts.push_back(first); break; }
              case 1: case 2: {
                first = new_id();
                auto res = x.e->submit([work, id = first]() -> uint64_t { work(id); return value_of(id); });
                as[i].rs.emplace_back(first, std::move(res));
                if (was_down) { as[i].late.push_back(first); ++after; }
                break;
              }
              default: {
                n = 1 + r.below(5);
                std::vector<std::function<uint64_t()>> fs;
                std::vector<uint32_t> ids;
                for (size_t q = 0; q < n; ++q) { auto id = new_id(); ids.push_back(id); fs.emplace_back([work, id]() -> uint64_t { work(id); return value_of(id); }); }
                auto rv = x.e->bulk_submit<std::function<uint64_t()>>(fs);
                for (size_t q = 0; q < n; ++q) as[i].rs.emplace_back(ids[q], std::move(rv[q]));
              }
            }
            if (was_down && op != 1 && op != 2) viol(cat("shutdown:", kname(k), ":accepted-after-shutdown"), "a submission that began after shutdown() returned was accepted");
          } catch (const std::runtime_error &) {
            ++after;
            if (!x.e->shutdown_requested()) viol(cat("shutdown:", kname(k), ":rejected-before-shutdown"), "");
          } catch (...) { ++after; as[i].wrong_ex++; }
          if (r.chance(1, 10)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
          progress();
        }
      });
    // tasks that submit themselves again until they are refused: shutdown has to end them
    std::atomic<uint64_t> hops{0}, chains_on{0};
    std::atomic<std::chrono::steady_clock::rep> seen_down{0};
    std::function<void()> hop = [&] {
      if (down.load(std::memory_order_acquire)) late++;
      hops++;
      if (x.e->shutdown_requested()) {
        auto now = std::chrono::steady_clock::now().time_since_epoch().count(), zero = decltype(now){0};
        if (!seen_down.compare_exchange_strong(zero, now) && std::chrono::nanoseconds(now - zero) > 10s)
          stuck(cat(kname(k), ": an executor shutting down keeps accepting the tasks its own tasks submit"));
        std::this_thread::sleep_for(200us);
      }
      try { x.e->post([&] { hop(); }); } catch (const std::runtime_error &) { chains_on--; }
    };
    unsigned nchain = joins && g.chance(1, 2) ? 1 + static_cast<unsigned>(g.below(2)) : 0;
    for (unsigned i = 0; i < nchain; ++i) { chains_on++; x.e->post([&] { hop(); }); }
    std::thread second;
    go.arrive_and_wait();
    std::this_thread::sleep_for(std::chrono::microseconds(g.below(g.chance(1, 2) ? 200 : 3000)));
    bool concurrent = g.chance(1, 2);
    if (concurrent) second = std::thread([&] { x.e->shutdown(); });
    x.e->shutdown();
    if (!concurrent) down.store(true, std::memory_order_release);
    if (!x.e->shutdown_requested()) viol(cat("shutdown:", kname(k), ":not-requested"), "shutdown_requested() is false after shutdown()");
    if (second.joinable()) { second.join(); down.store(true, std::memory_order_release); }
    x.e->shutdown();
    for (auto &t : ts) t.join();
    x.finish();
    // a submission after shutdown throws
    bool threw = false;
    try { x.e->post([] {}); } catch (const std::runtime_error &) { threw = true; }
    if (!threw) viol(cat("shutdown:", kname(k), ":post-after"), "post after shutdown did not throw");
    // ... or, for submit, hands out a result that reports the interruption; the task never runs
    threw = false;
    std::atomic<bool> ran_late{false};
    try {
      auto r = x.e->submit([&] { ran_late = true; return 1; });
      if (r.wait_for(20s) == ResultStatus::Idle) stuck(cat(kname(k), ": result of a submit after shutdown never completes"));
      r.get();
    } catch (const std::runtime_error &) { threw = true; }
    if (!threw || ran_late) viol(cat("shutdown:", kname(k), ":submit-after"), "submit after shutdown neither threw nor delivered an interruption, or its task ran");
    threw = false;
    try { std::vector<std::function<int()>> fs{[&] { ran_late = true; return 1; }}; auto rs = x.e->bulk_submit<std::function<int()>>(fs); } catch (const std::runtime_error &) { threw = true; }
    if (!threw || ran_late) viol(cat("shutdown:", kname(k), ":bulk-after"), "bulk_submit after shutdown did not throw, or its task ran");
    uint64_t ok = 0, broken = 0;
    for (auto &a : as) {
      if (a.wrong_ex) viol(cat("shutdown:", kname(k), ":exception-type"), "submission failed with something other than a runtime_error");
      for (auto &[id, r] : a.rs) {
        if (r.wait_for(20s) == ResultStatus::Idle) stuck(cat(kname(k), ": result of an accepted task never completes after shutdown"));
        progress();
        try {
          auto v = r.get();
          ++ok;
          if (v != value_of(id)) viol(cat("shutdown:", kname(k), ":value"), "");
          if (g_runs[id].load() != 1) viol(cat("shutdown:", kname(k), ":value-without-run"), cat(g_runs[id].load()));
        } catch (const std::runtime_error &) {
          ++broken;
          if (g_runs[id].load() != 0) viol(cat("shutdown:", kname(k), ":broken-but-ran"), cat("task ", id, " ran ", g_runs[id].load(), " times, its result reports an interruption"));
        } catch (...) { viol(cat("shutdown:", kname(k), ":result-exception-type"), ""); }
      }
      for (auto id : a.late) if (g_runs[id].load()) viol(cat("shutdown:", kname(k), ":submitted-late-ran"), "a task submitted after shutdown() had returned was run");
      for (auto id : a.posts) if (g_runs[id].load() > 1) viol(cat("shutdown:", kname(k), ":ran-twice"), "");
    }
    for (uint32_t i = 0, n = g_next.load(); i < n; ++i) if (g_runs[i].load() > 1) viol(cat("shutdown:", kname(k), ":ran-twice"), cat(i));
    if (late.load()) viol(cat("shutdown:", kname(k), ":ran-after-shutdown"), cat(late.load(), " tasks started after shutdown() had returned"));
    if (nchain) { count("shutdown_self_submitting_hops", hops.load()); count("shutdown_self_submitting_refused", nchain - chains_on.load()); }
    count("shutdown_results_value", ok); count("shutdown_results_interrupted", broken);
    if (ok && broken) count(cat("shutdown_races_", kname(k)));
    if (ok || broken) distinct(hash_mix(hash_mix(hash_mix(seed, k), ok), broken));
    sample(cat(kname(k), ": ", nsub, " submitters, shutdown", concurrent ? " twice concurrently" : "", ": ", ok, " delivered, ", broken, " interrupted"));
  }
  if (auto n = g_live.load()) { viol(cat("shutdown:", kname(k), ":task-leak"), cat(n, " captured objects never destroyed")); g_live = 0; }
  eval();
}

// P04: sequential model of the manual executor
static void manual_model(uint64_t seed) {
  Rng g{seed};
  reset_ids();
  auto m = std::make_shared<ex::Manual>();
  std::deque<uint32_t> q;
  std::vector<uint32_t> order;
  std::map<uint32_t, Result<uint64_t>> res;
  uint64_t h = 3;
  bool down = false;
  auto check_ran = [&](size_t from, size_t n, const char *op) {
    if (order.size() != from + n) { viol(cat("manual:", op, ":executed"), cat("executed ", order.size() - from, " tasks, model ", n)); return; }
    for (size_t i = 0; i < n; ++i) {
      if (q.empty() || order[from + i] != q.front()) { viol(cat("manual:", op, ":order"), ""); return; }
      auto id = q.front(); q.pop_front();
      auto it = res.find(id);
      if (it != res.end()) {
        if (it->second.status() != ResultStatus::Value) viol(cat("manual:", op, ":result-status"), "");
        else if (it->second.get() != value_of(id)) viol(cat("manual:", op, ":result-value"), "");
        res.erase(it);
      }
    }
  };
  for (int i = 0; i < 120; ++i) {
    unsigned op = static_cast<unsigned>(g.below(14));
    h = hash_mix(h, op);
    size_t from = order.size();
    bool threw = false, must_throw = down;
    auto n0 = q.size();
    try {
      switch (op) {
        case 0: case 1: { auto id = new_id(); m->post([&order, id] { order.push_back(id); ran(id, 0); }); q.push_back(id); break; }
        case 2: {
          if (down) {
            must_throw = false;
            bool intr = false;
            try { auto r = m->submit([&order] { order.push_back(0xffffffff); return 1; }); if (r.wait_for(0ms) == ResultStatus::Exception) r.get(); } catch (const std::runtime_error &) { intr = true; }
            if (!intr) viol("manual:submit-after-shutdown", "neither threw nor delivered an interruption");
            break;
          }
          auto id = new_id(); auto r = m->submit([&order, id]() -> uint64_t { order.push_back(id); ran(id, 0); return value_of(id); }); res.emplace(id, std::move(r)); q.push_back(id); break; }
        case 3: {
          size_t n = 1 + g.below(5);
          std::vector<std::function<void()>> fs; std::vector<uint32_t> ids;
          for (size_t j = 0; j < n; ++j) { auto id = new_id(); ids.push_back(id); fs.emplace_back([&order, id] { order.push_back(id); ran(id, 0); }); }
          m->bulk_post<std::function<void()>>(fs);
          for (auto id : ids) q.push_back(id);
          break;
        }
        case 4: { bool r = m->loop_once(); size_t w = std::min<size_t>(1, n0); if (r != (w == 1)) viol("manual:loop_once:return", ""); check_ran(from, w, "loop_once"); break; }
        case 5: { size_t n = g.below(6); if (n == 0) must_throw = false; size_t r = m->loop(n); size_t w = std::min(n, n0); if (r != w) viol("manual:loop:return", cat(r, " want ", w)); check_ran(from, w, "loop"); break; }
        case 6: {
          size_t n = 1 + g.below(5); auto d = std::chrono::milliseconds(g.below(4)); size_t w = std::min(n, n0);
          auto t0 = std::chrono::system_clock::now();
          size_t r = m->loop_for(n, d);
          auto dt = std::chrono::system_clock::now() - t0;
          if (r != w) viol("manual:loop_for:return", cat(r, " want ", w));
          if (w < n && dt < d) viol("manual:loop_for:early", "returned before the waiting time without executing the requested count");
          check_ran(from, w, "loop_for"); break;
        }
        case 7: {
          auto d = std::chrono::milliseconds(g.below(4));
          auto t0 = std::chrono::system_clock::now();
          bool r = m->loop_once_for(d); size_t w = std::min<size_t>(1, n0);
          if (r != (w == 1)) viol("manual:loop_once_for:return", "");
          if (w == 0 && std::chrono::system_clock::now() - t0 < d) viol("manual:loop_once_for:early", "");
          check_ran(from, w, "loop_once_for"); break;
        }
        case 8: {
          if (!g.chance(1, 5)) break;
          size_t r = m->clear();
          if (r != n0) viol("manual:clear:return", cat(r, " want ", n0));
          for (auto id : q) {
            auto it = res.find(id);
            if (it != res.end()) {
              if (it->second.wait_for(0ms) != ResultStatus::Exception) viol("manual:clear:result", "a cleared task's result is not interrupted");
              res.erase(it);
            }
          }
          q.clear();
          break;
        }
        case 9: { if (n0 == 0 && !down) break; m->wait_for_task(); break; }
        case 10: { size_t n = n0 ? g.below(n0 + 1) : 0; m->wait_for_tasks(n); break; }
        case 11: {
          auto d = std::chrono::milliseconds(1 + g.below(3));
          auto t0 = std::chrono::system_clock::now();
          size_t want = 1 + g.below(n0 + 2);
          size_t r = m->wait_for_tasks_for(want, d);
          if (r != n0) viol("manual:wait_for_tasks_for:return", cat(r, " want ", n0));
          if (n0 < want && std::chrono::system_clock::now() - t0 < d) viol("manual:wait_for_tasks_for:early", "");
          break;
        }
        case 12: {
          if (n0 > 1) { must_throw = false; break; }
          bool r = m->wait_for_task_for(std::chrono::milliseconds(1 + g.below(2)));
          if (r != (n0 >= 1)) viol("manual:wait_for_task_for:return", "");
          break;
        }
        default:
          must_throw = false;
          if (g.chance(1, 25)) {
            m->shutdown();
            for (auto id : q) { auto it = res.find(id); if (it != res.end()) { if (it->second.wait_for(0ms) != ResultStatus::Exception) viol("manual:shutdown:result", ""); res.erase(it); } }
            q.clear(); down = true;
          }
      }
      if (op == 8 && !down) must_throw = false;
    } catch (const std::runtime_error &) { threw = true; }
    if (op != 8 && op != 9) {
      if (threw && !must_throw) viol(cat("manual:op", op, ":unexpected-throw"), "");
      if (!threw && must_throw) viol(cat("manual:op", op, ":no-throw-after-shutdown"), "");
    } else if (threw && !down) viol(cat("manual:op", op, ":unexpected-throw"), "");
    if (m->size() != q.size()) { viol("manual:size", cat(m->size(), " want ", q.size())); break; }
    if (m->empty() != q.empty()) viol("manual:empty", "");
    if (m->shutdown_requested() != down) viol("manual:shutdown_requested", "");
  }
  m->shutdown();
  for (auto id : order) if (g_runs[id].load() != 1) viol("manual:run-count", "");
  eval();
  if (order.size() > 3) distinct(h);
  count("manual_model_executed", order.size());
}

// P04: conservation under concurrent producers, loopers, clearers, waiters and a shutdown
static void manual_conc(uint64_t seed) {
  Rng g{seed};
  reset_ids();
  {
    auto m = std::make_shared<ex::Manual>();
    std::atomic<uint64_t> posted{0}, returned{0}, cleared{0}, bad{0};
    std::atomic<bool> stop{false};
    std::vector<std::thread> ps, ls;
    unsigned np = 1 + static_cast<unsigned>(g.below(3)), nl = 1 + static_cast<unsigned>(g.below(3));
    bool with_clear = g.chance(1, 2), with_shutdown = g.chance(1, 3);
    for (unsigned i = 0; i < nl; ++i)
      ls.emplace_back([&, i] {
        t_tag = 1;
        Rng r{seed * 77 + i};
        while (true) {
          bool last = stop.load();
          static thread_local uint64_t mine;
          try {
            size_t lim = 1 + r.below(6), n = 0;
            switch (r.below(5)) {
              case 0: n = m->loop_once() ? 1 : 0; lim = 1; break;
              case 1: n = m->loop(lim); break;
              case 2: n = m->loop_for(lim, 1ms); break;
              case 3: n = m->loop_once_for(1ms) ? 1 : 0; lim = 1; break;
              default: m->wait_for_task_for(1ms);
            }
            (void)mine;
            if (n > lim) viol("manual:conc:loop-limit", cat(n, " > ", lim));
            returned += n;
            if (last && n == 0 && m->empty()) return;
          } catch (const std::runtime_error &) {
            if (!m->shutdown_requested()) viol("manual:conc:throw", "");
            return;
          }
        }
      });
    for (unsigned i = 0; i < np; ++i)
      ps.emplace_back([&, i] {
        Rng r{seed * 91 + i};
        for (int j = 0; j < 120; ++j) {
          try {
            if (r.chance(1, 4)) {
              size_t n = 1 + r.below(4);
              std::vector<std::function<void()>> fs;
              for (size_t q = 0; q < n; ++q) { auto id = new_id(); Guard gd; fs.emplace_back([id, gd] { ran(id, 0); }); }
              m->bulk_post<std::function<void()>>(fs);
              posted += n;
            } else { auto id = new_id(); Guard gd; m->post([id, gd] { ran(id, 0); }); ++posted; }
          } catch (const std::runtime_error &) { return; }
          if (r.chance(1, 12)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(400)));
          progress();
        }
      });
    std::thread cl;
    if (with_clear) cl = std::thread([&] { for (int j = 0; j < 15; ++j) { try { cleared += m->clear(); } catch (const std::runtime_error &) { return; } std::this_thread::sleep_for(200us); } });
    if (with_shutdown) { std::this_thread::sleep_for(std::chrono::microseconds(g.below(2500))); m->shutdown(); }
    for (auto &t : ps) t.join();
    if (cl.joinable()) cl.join();
    stop = true;
    for (auto &t : ls) t.join();
    uint64_t ranc = 0;
    for (uint32_t i = 0, n = g_next.load(); i < n; ++i) {
      auto c = g_runs[i].load();
      if (c > 1) viol("manual:conc:ran-twice", cat(i, " ran ", c));
      if (c && g_where[i].load() != 2) viol("manual:conc:wrong-thread", "a manual task ran on a thread that is not in a loop call");
      ranc += c;
    }
    if (!with_shutdown) {
      if (ranc != returned.load()) viol("manual:conc:loop-return", cat("loop calls report ", returned.load(), " executed, ", ranc, " ran"));
      if (ranc + cleared.load() != posted.load()) viol("manual:conc:conservation", cat("posted ", posted.load(), " ran ", ranc, " cleared ", cleared.load()));
    } else if (ranc + cleared.load() > posted.load()) viol("manual:conc:conservation", "more executed than accepted");
    count("manual_conc_posted", posted.load()); count("manual_conc_cleared", cleared.load());
    if (ranc) distinct(hash_mix(hash_mix(seed, ranc), cleared.load()));
  }
  if (auto n = g_live.load()) { viol("manual:conc:task-leak", cat(n)); g_live = 0; }
  eval();
}

// P04: a waiter blocked for n tasks wakes up when they are there
static void manual_wait(uint64_t seed) {
  Rng g{seed};
  auto m = std::make_shared<ex::Manual>();
  size_t n = 1 + g.below(6);
  bool shut = g.chance(1, 4);
  std::atomic<bool> woke{false};
  std::atomic<size_t> seen{0};
  std::thread w([&] {
    try { if (n == 1) m->wait_for_task(); else m->wait_for_tasks(n); seen = m->size(); if (shut) viol("manual:wait:no-throw", "wait returned although the executor was shut down"); }
    catch (const std::runtime_error &) { if (!shut) viol("manual:wait:throw", ""); }
    woke = true;
  });
  for (size_t i = 0; i < (shut ? n - 1 : n); ++i) {
    if (g.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(600)));
    if (woke.load()) viol("manual:wait:early", cat("woke with ", i, " of ", n, " tasks"));
    m->post([] {});
  }
  if (shut) { if (g.chance(1, 2)) std::this_thread::sleep_for(300us); m->shutdown(); }
  if (!wait_until([&] { return woke.load(); }, 20000)) stuck("wait_for_tasks does not wake up");
  w.join();
  if (!shut && seen.load() < n) viol("manual:wait:count", "");
  m->shutdown();
  distinct(hash_mix(seed, n));
  eval();
  count("manual_waits");
}

// P04: several waiters for different counts; each wakes as soon as its own count is there, all at shutdown
static void manual_waiters(uint64_t seed) {
  Rng g{seed};
  auto m = std::make_shared<ex::Manual>();
  size_t n = 2 + g.below(5), top = 0;
  const bool shut = g.chance(1, 3);
  struct W { size_t want; int how; std::atomic<bool> woke{false}, threw{false}; std::thread t; };
  std::vector<std::unique_ptr<W>> ws;
  for (size_t i = 0; i < n; ++i) {
    auto w = std::make_unique<W>();
    w->want = 1 + g.below(5);
    w->how = static_cast<int>(g.below(3));
    top = std::max(top, w->want);
    ws.push_back(std::move(w));
  }
  for (auto &w : ws) w->t = std::thread([&m, w = w.get()] {
    try {
      if (w->how == 0) { if (w->want == 1) m->wait_for_task(); else m->wait_for_tasks(w->want); }
      else if (w->how == 1) { if (m->wait_for_tasks_for(w->want, 3600000ms) < w->want) viol("manual:wait:count", "timed"); }
      else { if (m->wait_for_tasks_until(w->want, std::chrono::system_clock::now() + 1h) < w->want) viol("manual:wait:count", "timed"); }
    } catch (const std::runtime_error &) { w->threw = true; }
    w->woke = true;
  });
  if (g.chance(3, 4)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(1500)));
  size_t posted = 0, stop = shut ? g.below(top) : top;
  while (posted < stop) {
    for (auto &w : ws) if (w->want > posted && w->woke) viol("manual:wait:early", cat("woke with ", posted, " of ", w->want, " tasks"));
    size_t k = 1;
    if (g.chance(1, 3) && stop - posted > 1) {
      k = 1 + g.below(stop - posted);
      std::vector<plain::concurrency::Task> v;
      for (size_t i = 0; i < k; ++i) v.emplace_back([] {});
      m->enqueue(std::span<plain::concurrency::Task>{v});
    } else m->post([] {});
    posted += k;
    if (!wait_until([&] { for (auto &w : ws) if (w->want <= posted && !w->woke) return false; return true; }, 20000)) stuck(cat("a wait is not over although enough tasks are there, with ", n, " waiters"));
  }
  m->shutdown();
  if (!wait_until([&] { for (auto &w : ws) if (!w->woke) return false; return true; }, 20000)) stuck(cat("a wait is not over after the shutdown, with ", n, " waiters"));
  for (auto &w : ws) {
    w->t.join();
    if (w->want > posted && !w->threw) viol("manual:wait:no-throw", "a wait returned although the executor was shut down");
  }
  distinct(hash_mix(seed, n * 100 + top));
  eval();
  count("manual_waiters", n);
}
// P04: a timed loop ends at its time although there is always a next task
static void manual_feed(uint64_t seed) {
  Rng g{seed};
  auto m = std::make_shared<ex::Manual>();
  size_t runs = 0;
  std::function<void()> feed = [&] { ++runs; std::this_thread::sleep_for(1ms); m->post([&] { feed(); }); };
  for (size_t i = 0, k = 1 + g.below(3); i < k; ++i) m->post([&] { feed(); });
  const size_t limit = 400;  // takes 400 ms at least
  auto t = std::chrono::milliseconds(1 + g.below(40));
  size_t r = g.chance(1, 2) ? m->loop_for(limit, t) : m->loop_until(limit, std::chrono::system_clock::now() + t);
  if (r != runs) viol("manual:feed:count", cat("returned ", r, " for ", runs));
  // Each takes 1 ms or more, so no more than that fit before the time is over, whatever the machine does.
  if (r > 2 * static_cast<size_t>(t.count()) + 60) viol("manual:loop-after-deadline", cat("ran ", r, " tasks of 1 ms or more in ", t.count(), " ms"));
  m->clear();
  m->shutdown();
  eval();
  count("manual_timed_feeds");
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t S = opt.seed * 1000003, n = opt.scale;
  auto want = [](const char *p) { return opt.scenario.empty() || opt.scenario == p; };
  if (want("mix")) for (uint64_t i = 0; i < n; ++i) {
    for (Kind k : {kInline, kThread, kPool, kPool, kPool, kWorker, kManual}) { scenario(cat("mix:", kname(k))); mix_round(k, S + i * 16 + k + (i << 20)); }
  }
  if (want("cross")) for (uint64_t i = 0; i < 2 * n; ++i) { scenario("cross"); cross_round(S + i); }
  if (want("fifo")) for (uint64_t i = 0; i < n; ++i) {
    scenario("fifo:worker"); fifo_round(kWorker, S + i);
    scenario("fifo:worker"); fifo_round(kWorker, S + i + 500000);
    scenario("fifo:manual"); fifo_round(kManual, S + i);
  }
  if (want("shutdown")) for (uint64_t i = 0; i < n; ++i)
    for (Kind k : {kPool, kWorker, kThread, kManual, kPool, kWorker, kInline}) { scenario(cat("shutdown:", kname(k))); shutdown_round(k, S + i * 16 + k + (i << 20)); }
  if (want("manual")) for (uint64_t i = 0; i < n; ++i) {
    scenario("manual:model"); manual_model(S + i);
    scenario("manual:conc"); manual_conc(S + i);
    scenario("manual:wait"); for (int j = 0; j < 4; ++j) manual_wait(S + i * 4 + j);
    scenario("manual:waiters"); manual_waiters(S + i);
    if (i % 8 == 0) { scenario("manual:feed"); manual_feed(S + i); }
  }
  return finish();
}
