// P05 (single results), P06 (shared results), P07 (when_all / when_any),
// P08 (lazy results and generators), P09 (resume_on / executor_tag rescheduling).
#include "common.h"
#include <barrier>
#include <memory>
#include <set>
#include <span>
#include <thread>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "plain/concurrency/result/generator.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/resume_on.h"
#include "plain/concurrency/result/shared.h"
#include "plain/concurrency/result/when.h"
using namespace vf;
using namespace std::chrono_literals;
namespace ex = plain::concurrency::executor;
namespace res = plain::concurrency::result;
using plain::concurrency::LazyResult;
using plain::concurrency::Result;
using plain::concurrency::ResultPromise;
using plain::concurrency::ResultStatus;
using plain::concurrency::executor_tag;

static std::atomic<int64_t> g_live{0};   // payloads and frame guards alive
struct Guard {
  Guard() noexcept { g_live.fetch_add(1, std::memory_order_relaxed); }
  Guard(const Guard &) noexcept { g_live.fetch_add(1, std::memory_order_relaxed); }
  Guard(Guard &&) noexcept { g_live.fetch_add(1, std::memory_order_relaxed); }
  Guard &operator=(const Guard &) noexcept = default;
  ~Guard() { g_live.fetch_sub(1, std::memory_order_relaxed); }
};
struct Payload {
  Guard g;
  uint64_t id, check;
  std::string s;
  explicit Payload(uint64_t i) : id{i}, check{~i}, s{"payload-" + std::to_string(i) + "-aaaaaaaaaaaaaaaaaaaa"} {}
  Payload(Payload &&o) noexcept : id{o.id}, check{o.check}, s{std::move(o.s)} { o.check = 0; }
  Payload &operator=(Payload &&) noexcept = default;
  bool good(uint64_t want) const { return id == want && check == ~want && s == "payload-" + std::to_string(want) + "-aaaaaaaaaaaaaaaaaaaa"; }
};
struct TaskError { uint64_t id; };
static void leak_check(const std::string &what) {
  if (auto n = g_live.load()) { viol(cat(what, ":leak"), cat(n, " objects not destroyed (or destroyed twice)")); g_live = 0; }
}
static void sync_at(std::atomic<uint64_t> &mine, std::atomic<uint64_t> &other, uint64_t i) {
  mine.store(i, std::memory_order_relaxed);
  for (unsigned k = 0; other.load(std::memory_order_relaxed) < i; ++k) if (k > 200) std::this_thread::yield();
}
static void jitter(Rng &g) {
  switch (g.below(6)) {
    case 0: std::this_thread::yield(); break;
    case 1: for (volatile unsigned i = 0, n = static_cast<unsigned>(g.below(400)); i < n; i = i + 1) {} break;
    case 2: perturb_point(63); break;
    default: break;
  }
}

// ---------------------------------------------------------------- P05
enum Prod { kValue, kException, kFunction, kFunctionThrow, kAbandon, kOverwrite, kCoroutine, kCoroutineThrow, kProds };
enum Cons { kGet, kWaitGet, kWaitFor, kWaitUntil, kAwait, kResolve, kDrop, kMoveGet, kStatus, kAwaitTwice, kCons };
static const char *cname(int c) { static const char *n[] = {"get", "wait", "wait_for", "wait_until", "co_await", "resolve", "drop", "move", "status", "await-chain"}; return n[c]; }

struct Rec {
  std::atomic<uint32_t> resumed{0};
  std::atomic<uint32_t> outcome{0};  // 1 value, 2 TaskError, 3 runtime_error, 4 wrong
  std::atomic<bool> done{false};
};
template <class R> struct Maker;
template <> struct Maker<Payload> { static void set(ResultPromise<Payload> &p, uint64_t i) { p.set_result(Payload{i}); } static Payload make(uint64_t i) { return Payload{i}; } static bool good(Payload &v, uint64_t i) { return v.good(i); } };
template <> struct Maker<uint64_t> { static void set(ResultPromise<uint64_t> &p, uint64_t i) { p.set_result(i * 3); } static uint64_t make(uint64_t i) { return i * 3; } static bool good(uint64_t v, uint64_t i) { return v == i * 3; } };
template <> struct Maker<std::unique_ptr<Payload>> { using T = std::unique_ptr<Payload>; static void set(ResultPromise<T> &p, uint64_t i) { p.set_result(std::make_unique<Payload>(i)); } static T make(uint64_t i) { return std::make_unique<Payload>(i); } static bool good(T &v, uint64_t i) { return v && v->good(i); } };
static Payload g_refs[4] = {Payload{0}, Payload{1}, Payload{2}, Payload{3}};
template <> struct Maker<Payload &> { static bool good(Payload &v, uint64_t i) { return &v == &g_refs[i & 3]; } };

template <class R>
static Result<R> chain_co(Result<R> r) { co_return co_await r; }
template <class R>
static res::null await_co(Result<R> r, Rec *rec, uint64_t id, const uint64_t *effect) {
  Guard g;
  uint32_t out = 4;
  try {
    if constexpr (std::is_void_v<R>) { co_await r; out = 1; }
    else { auto v = co_await r; out = Maker<R>::good(v, id) ? 1 : 4; }
  } catch (const TaskError &e) { out = e.id == id ? 2 : 4; } catch (const std::runtime_error &) { out = 3; }
  rec->resumed.fetch_add(1);
  if (*effect != id * 7 + 1) out = 5;
  rec->outcome = out;
  rec->done = true;
}
template <class R>
static res::null resolve_co(Result<R> r, Rec *rec, uint64_t id, const uint64_t *effect) {
  Guard g;
  uint32_t out = 4;
  auto r2 = co_await r.resolve();
  rec->resumed.fetch_add(1);
  try {
    if (r2.status() == ResultStatus::Idle) out = 6;
    else if constexpr (std::is_void_v<R>) { r2.get(); out = 1; }
    else { auto v = r2.get(); out = Maker<R>::good(v, id) ? 1 : 4; }
  } catch (const TaskError &e) { out = e.id == id ? 2 : 4; } catch (const std::runtime_error &) { out = 3; }
  if (*effect != id * 7 + 1) out = 5;
  rec->outcome = out;
  rec->done = true;
}
// a coroutine producer: suspended until `start` completes, then finishes in the thread that completed it
template <class R>
static Result<R> producer_co(Result<uint64_t> start, uint64_t id, bool thrower) {
  Guard g;
  co_await start;
  if (thrower) throw TaskError{id};
  if constexpr (!std::is_void_v<R>) co_return Maker<R>::make(id);
}

template <class R>
static void result_round(uint64_t seed, const char *tn) {
  constexpr unsigned N = 120;
  Rng g{seed};
  struct Item {
    ResultPromise<R> p; Result<R> r; ResultPromise<uint64_t> start; uint64_t effect{0}; int prod, cons; Rec rec; bool early;
  };
  std::vector<std::unique_ptr<Item>> items;
  uint64_t h = 1;
  for (unsigned i = 0; i < N; ++i) {
    auto it = std::make_unique<Item>();
    it->prod = static_cast<int>(g.below(kProds)); it->cons = static_cast<int>(g.below(kCons));
    it->early = g.chance(1, 6);
    if (it->prod >= kCoroutine) it->r = producer_co<R>(it->start.get_result(), i, it->prod == kCoroutineThrow);
    else it->r = it->p.get_result();
    h = hash_mix(h, it->prod * 32 + it->cons);
    items.push_back(std::move(it));
  }
  std::atomic<uint64_t> a{0}, b{0};
  std::thread prod([&] {
    Rng r{seed * 3 + 1};
    for (unsigned i = 0; i < N; ++i) {
      auto &x = *items[i];
      sync_at(a, b, i + 1);
      if (!x.early) jitter(r);
      x.effect = i * 7 + 1;  // must be visible to whoever consumes the outcome
      switch (x.prod) {
        case kValue: if constexpr (std::is_void_v<R>) x.p.set_result(); else Maker<R>::set(x.p, i); break;
        case kException: x.p.set_exception(std::make_exception_ptr(TaskError{i})); break;
        case kFunction: x.p.set_from_function([i]() -> R { (void)i; if constexpr (!std::is_void_v<R>) return Maker<R>::make(i); }); break;
        case kFunctionThrow: x.p.set_from_function([i]() -> R { throw TaskError{i}; }); break;
        case kAbandon: { ResultPromise<R> dead{std::move(x.p)}; break; }
        case kOverwrite: x.p = ResultPromise<R>{}; break;
        default: x.start.set_result(1); break;
      }
      if (x.prod <= kFunctionThrow) {
        bool threw = false;
        try { if constexpr (std::is_void_v<R>) x.p.set_result(); else Maker<R>::set(x.p, i); } catch (const std::runtime_error &) { threw = true; }
        if (!threw) viol(cat("result:", tn, ":set-twice"), "a promise accepted a second outcome");
      }
      progress();
    }
  });
  std::thread cons([&] {
    Rng r{seed * 5 + 2};
    for (unsigned i = 0; i < N; ++i) {
      auto &x = *items[i];
      sync_at(b, a, i + 1);
      if (x.early) { auto w = r.below(3); if (w) std::this_thread::sleep_for(std::chrono::microseconds(w * 60)); } else jitter(r);
      uint32_t out = 4;
      bool sync_cons = true;
      try {
        switch (x.cons) {
          case kWaitGet: x.r.wait(); if (x.r.status() == ResultStatus::Idle) viol(cat("result:", tn, ":wait-idle"), ""); break;
          case kWaitFor: case kWaitUntil:
            for (int k = 0; k < 100000; ++k) {
              auto d = std::chrono::milliseconds(r.below(3));
              auto t0 = std::chrono::system_clock::now();
              auto s = x.cons == kWaitFor ? x.r.wait_for(d) : x.r.wait_until(t0 + d);
              if (s != ResultStatus::Idle) { if (x.r.status() != s) viol(cat("result:", tn, ":status-changed"), ""); break; }
              if (std::chrono::system_clock::now() - t0 < d) viol(cat("result:", tn, ":", cname(x.cons), "-early"), "timed out before the duration elapsed");
              progress();
            }
            break;
          case kStatus: for (int k = 0; k < 50; ++k) { if (x.r.status() != ResultStatus::Idle) break; std::this_thread::yield(); } break;
          case kMoveGet: { Result<R> o{std::move(x.r)}; if (x.r) viol(cat("result:", tn, ":moved-from-not-empty"), ""); Result<R> q; q = std::move(o); x.r = std::move(q); break; }
          default: break;
        }
        if (x.cons == kAwait) { sync_cons = false; await_co<R>(std::move(x.r), &x.rec, i, &x.effect); }
        else if (x.cons == kAwaitTwice) { sync_cons = false; await_co<R>(chain_co<R>(chain_co<R>(std::move(x.r))), &x.rec, i, &x.effect); }
        else if (x.cons == kResolve) { sync_cons = false; resolve_co<R>(std::move(x.r), &x.rec, i, &x.effect); }
        else if (x.cons == kDrop) { sync_cons = false; Result<R> dead{std::move(x.r)}; x.rec.done = true; x.rec.resumed = 1; }
        else if constexpr (std::is_void_v<R>) { x.r.get(); out = 1; }
        else { auto v = x.r.get(); out = Maker<R>::good(v, i) ? 1 : 4; }
      } catch (const TaskError &e) { out = e.id == i ? 2 : 4; } catch (const std::runtime_error &) { out = 3; }
      if (sync_cons) {
        if (x.effect != i * 7 + 1) out = 5;
        x.rec.outcome = out; x.rec.resumed = 1; x.rec.done = true;
        if (x.r) viol(cat("result:", tn, ":not-empty-after-get"), "");
        bool threw = false;
        try { (void)x.r.status(); } catch (const std::runtime_error &) { threw = true; }
        if (!threw) viol(cat("result:", tn, ":empty-status"), "an empty result answered status()");
      }
      progress();
    }
  });
  prod.join(); cons.join();
  std::string shown;
  for (unsigned i = 0; i < N; ++i) {
    auto &x = *items[i];
    if (!wait_until([&] { progress(); return x.rec.done.load(); }, 20000)) stuck(cat("consumer (", cname(x.cons), ") of producer kind ", x.prod, " was never resumed"));
    if (x.cons == kDrop) continue;
    uint32_t want = x.prod == kValue || x.prod == kFunction || x.prod == kCoroutine ? 1 : x.prod == kAbandon || x.prod == kOverwrite ? 3 : 2;
    auto got = x.rec.outcome.load();
    if (x.rec.resumed.load() != 1) viol(cat("result:", tn, ":resumed-count"), cat(cname(x.cons), " resumed ", x.rec.resumed.load(), " times"));
    if (got == 5) viol(cat("result:", tn, ":effects-not-visible"), cat(cname(x.cons)));
    else if (got != want) viol(cat("result:", tn, ":outcome"), cat("producer kind ", x.prod, " consumer ", cname(x.cons), ": outcome ", got, " want ", want));
    count(cat("consumed_", cname(x.cons)));
  }
  distinct(h);
  eval(N);
  items.clear();
}

static void result_misc(uint64_t seed) {
  Rng g{seed};
  {
    ResultPromise<Payload> p;
    auto r = p.get_result();
    bool t = false;
    try { auto r2 = p.get_result(); } catch (const std::runtime_error &) { t = true; }
    if (!t) viol("result:get_result-twice", "two results from one promise");
    t = false;
    try { p.set_exception(nullptr); } catch (const std::invalid_argument &) { t = true; }
    if (!t) viol("result:null-exception", "");
    if (r.status() != ResultStatus::Idle) viol("result:idle-status", "");
    if (g.chance(1, 2)) p.set_result(Payload{9});
    else if (g.chance(1, 2)) { p.set_result(Payload{9}); if (!r.get().good(9)) viol("result:value", ""); }
  }
  { ResultPromise<Payload> never; }
  { ResultPromise<Payload> p; p.set_result(Payload{4}); }
  { ResultPromise<Payload> p; ResultPromise<Payload> q{std::move(p)}; if (p) viol("result:moved-promise", ""); auto r = q.get_result(); q.set_result(Payload{5}); if (!r.get().good(5)) viol("result:value", "moved promise"); }
  { auto r = res::make_ready<Payload>(uint64_t(3)); if (r.status() != ResultStatus::Value || !r.get().good(3)) viol("result:make_ready", ""); }
  { auto r = res::make_exceptional<Payload>(TaskError{8}); bool t = false; try { r.get(); } catch (const TaskError &e) { t = e.id == 8; } if (!t) viol("result:make_exceptional", ""); }
  { ResultPromise<Payload &> p; auto r = p.get_result(); auto i = g.below(4); p.set_result(g_refs[i]); if (&r.get() != &g_refs[i]) viol("result:reference", ""); }
  { Result<int> e; int n = 0; try { e.get(); } catch (const std::runtime_error &) { ++n; } try { e.wait(); } catch (const std::runtime_error &) { ++n; } try { e.resolve(); } catch (const std::runtime_error &) { ++n; } if (n != 3) viol("result:empty-ops", ""); }
  eval();
}

// ---------------------------------------------------------------- P06
struct SharedSeen { std::atomic<uint64_t> values{0}, errors{0}, broken{0}, bad{0}; std::atomic<const void *> addr{nullptr}; std::atomic<uint64_t> pending{0}; };
static void saw_value(SharedSeen &s, Payload &v, uint64_t id) {
  if (!v.good(id)) s.bad++;
  const void *want = nullptr;
  if (!s.addr.compare_exchange_strong(want, &v) && want != &v) s.bad++;
  s.values++;
}
static res::null shared_co(res::Shared<Payload> sh, SharedSeen *s, uint64_t id, const uint64_t *effect, bool resolve) {
  Guard g;
  try {
    if (resolve) {
      auto r = co_await sh.resolve();
      if (r.status() == ResultStatus::Idle) s->bad++;
      saw_value(*s, r.get(), id);
    } else saw_value(*s, co_await sh, id);
  } catch (const TaskError &e) { if (e.id == id) s->errors++; else s->bad++; } catch (const std::runtime_error &) { s->broken++; }
  if (*effect != id + 5) s->bad++;
  s->pending.fetch_sub(1);
}
static void shared_round(uint64_t seed) {
  Rng g{seed};
  uint64_t effect = 0, id = g.below(1000);
  int kind = static_cast<int>(g.below(4));  // value, exception, abandon, coroutine
  unsigned nt = 1 + static_cast<unsigned>(g.below(4));
  {
    SharedSeen seen;
    ResultPromise<Payload> p;
    ResultPromise<uint64_t> start;
    Result<Payload> base = kind == 3 ? producer_co<Payload>(start.get_result(), id, false) : p.get_result();
    std::atomic<uint64_t> expected{0}, finished_early{0};
    bool before = g.chance(1, 3);
    auto complete = [&] {
      effect = id + 5;
      switch (kind) {
        case 0: p.set_result(Payload{id}); break;
        case 1: p.set_exception(std::make_exception_ptr(TaskError{id})); break;
        case 2: { ResultPromise<Payload> dead{std::move(p)}; break; }
        default: start.set_result(1);
      }
    };
    if (before) complete();
    auto sh = std::make_unique<res::Shared<Payload>>(std::move(base));
    std::vector<std::thread> ts;
    std::barrier go{static_cast<std::ptrdiff_t>(nt + 1)};
    uint64_t ops = 0;
    for (unsigned t = 0; t < nt; ++t) {
      auto copy = *sh;
      ts.emplace_back([&, t, copy]() mutable {
        Rng r{seed * 17 + t};
        go.arrive_and_wait();
        for (int k = 0; k < 8; ++k) {
          jitter(r);
          auto op = r.below(8);
          try {
            switch (op) {
              case 0: expected++; saw_value(seen, copy.get(), id); if (effect != id + 5) seen.bad++; break;
              case 1: copy.wait(); if (copy.status() == ResultStatus::Idle) viol("shared:wait-idle", ""); if (effect != id + 5) seen.bad++; break;
              case 2: {
                auto d = std::chrono::milliseconds(r.below(3));
                auto t0 = std::chrono::system_clock::now();
                auto s = r.chance(1, 2) ? copy.wait_for(d) : copy.wait_until(t0 + d);
                if (s == ResultStatus::Idle && std::chrono::system_clock::now() - t0 < d) viol("shared:wait_for-early", "");
                if (s != ResultStatus::Idle && s != (kind == 0 || kind == 3 ? ResultStatus::Value : ResultStatus::Exception)) viol("shared:status", "");
                break;
              }
              case 3: case 4: case 5: expected++; seen.pending++; shared_co(copy, &seen, id, &effect, op == 5); break;
              case 6: { auto c2 = copy; res::Shared<Payload> c3; c3 = c2; c2 = std::move(c3); copy = c2; break; }
              default: if (copy.status() != ResultStatus::Idle && effect != id + 5) seen.bad++; break;
            }
          } catch (const TaskError &e) { if (e.id == id) seen.errors++; else seen.bad++; } catch (const std::runtime_error &) { seen.broken++; }
          progress();
        }
      });
    }
    std::thread pt([&, b = before] {
      go.arrive_and_wait();
      Rng r{seed + 9};
      jitter(r);
      if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
      if (!b) complete();
    });
    if (g.chance(1, 2)) sh.reset();
    pt.join();
    for (auto &t : ts) t.join();
    if (!wait_until([&] { progress(); return seen.pending.load() == 0; }, 20000)) stuck("an awaiter of a shared result was never resumed");
    ops = expected.load();
    uint64_t got = kind == 0 || kind == 3 ? seen.values.load() : kind == 1 ? seen.errors.load() : seen.broken.load();
    if (seen.bad.load()) viol("shared:bad-outcome", cat(seen.bad.load(), " consumers saw a wrong value, another object or missing effects"));
    if (got != ops) viol("shared:outcome-count", cat("kind ", kind, ": ", got, " of ", ops, " consumers saw the outcome"));
    count("shared_consumers", ops);
    if (nt > 1) distinct(hash_mix(hash_mix(seed, kind), ops));
    sample(cat("shared result, outcome kind ", kind, ", ", nt, " threads, ", ops, " consumers"));
  }
  leak_check("shared");
  eval();
}
// a result is made shared while it completes
static void shared_make_round(uint64_t seed) {
  constexpr unsigned N = 120;
  {
    std::vector<ResultPromise<Payload>> ps(N);
    std::vector<Result<Payload>> rs;
    for (auto &p : ps) rs.push_back(p.get_result());
    std::atomic<uint64_t> a{0}, b{0};
    SharedSeen seen;
    std::thread pt([&] { Rng r{seed + 1}; for (unsigned i = 0; i < N; ++i) { sync_at(a, b, i + 1); jitter(r); if (i % 5 == 4) ps[i].set_exception(std::make_exception_ptr(TaskError{i})); else ps[i].set_result(Payload{i}); } });
    std::thread ct([&] {
      Rng r{seed + 2};
      const uint64_t effect = 0;
      for (unsigned i = 0; i < N; ++i) {
        sync_at(b, a, i + 1);
        jitter(r);
        res::Shared<Payload> sh{std::move(rs[i])};
        auto copy = sh;
        SharedSeen one;
        if (r.chance(1, 2)) { one.pending++; shared_co(sh, &one, i, &effect, r.chance(1, 2)); }
        if (copy.wait_for(std::chrono::seconds(20)) == ResultStatus::Idle) { viol("shared:never-ready", "made shared while it completed, the result does not become ready"); finish(); fflush(stdout); _exit(0); }
        try { if (!copy.get().good(i) || i % 5 == 4) viol("shared:make-outcome", cat("value of ", i)); } catch (const TaskError &e) { if (e.id != i || i % 5 != 4) viol("shared:make-outcome", cat("error of ", i)); }
        if (!wait_until([&] { return one.pending.load() == 0; }, 20000)) stuck("an awaiter of a result made shared while it completed was never resumed");
        progress();
      }
    });
    pt.join(); ct.join();
  }
  leak_check("shared-make");
  count("shared_made_while_completing", N);
  eval(N);
}
// all handles dropped while the producer completes
static void shared_drop_round(uint64_t seed) {
  Rng g{seed};
  constexpr unsigned N = 100;
  std::vector<ResultPromise<Payload>> ps(N);
  std::vector<res::Shared<Payload>> ss;
  for (auto &p : ps) ss.emplace_back(p.get_result());
  std::atomic<uint64_t> a{0}, b{0};
  std::thread pt([&] { Rng r{seed + 1}; for (unsigned i = 0; i < N; ++i) { sync_at(a, b, i + 1); jitter(r); ps[i].set_result(Payload{i}); } });
  std::thread ct([&] { Rng r{seed + 2}; for (unsigned i = 0; i < N; ++i) { sync_at(b, a, i + 1); jitter(r); res::Shared<Payload> last{std::move(ss[i])}; } });
  pt.join(); ct.join();
  ps.clear(); ss.clear();
  leak_check("shared-drop");
  count("shared_dropped_while_completing", N);
  eval(N);
}

// ---------------------------------------------------------------- P07
static thread_local unsigned t_tag = 0;
struct Waiter { std::atomic<bool> done{false}; std::atomic<unsigned> tag{999}; std::atomic<int> err{0}; };
template <class E>
static res::null all_vec_co(std::shared_ptr<E> e, std::vector<Result<Payload>> v, Waiter *w, std::vector<std::atomic<bool>> *completed, const std::vector<int> *kinds) {
  Guard g;
  auto lazy = res::when_all(e, v.begin(), v.end());
  for (auto &r : v) if (r) w->err = 7;
  auto out = co_await lazy;
  w->tag = t_tag;
  if (out.size() != kinds->size()) w->err = 1;
  else for (size_t i = 0; i < out.size(); ++i) {
    if (!(*completed)[i].load()) { w->err = 2; break; }
    if (!out[i] || out[i].status() == ResultStatus::Idle) { w->err = 3; break; }
    int got;
    try { got = out[i].get().good(i) ? 0 : 9; } catch (const TaskError &x) { got = x.id == i ? 1 : 9; } catch (const std::runtime_error &) { got = 2; }
    if (got != (*kinds)[i]) { w->err = 4; break; }
  }
  w->done = true;
}
template <class E>
static res::null all_tuple_co(std::shared_ptr<E> e, Result<Payload> a, Result<uint64_t> b, Result<void> c, Waiter *w, std::vector<std::atomic<bool>> *completed) {
  Guard g;
  auto out = co_await res::when_all(e, std::move(a), std::move(b), std::move(c));
  w->tag = t_tag;
  for (auto &x : *completed) if (!x.load()) w->err = 2;
  if (!std::get<0>(out).get().good(0)) w->err = 4;
  if (std::get<1>(out).get() != 3) w->err = 4;
  std::get<2>(out).get();
  w->done = true;
}
struct AnyOut { std::atomic<size_t> index{~size_t(0)}; std::atomic<bool> was_done{false}; std::vector<Result<Payload>> rest; };
template <class E>
static res::null any_vec_co(std::shared_ptr<E> e, std::vector<Result<Payload>> v, Waiter *w, AnyOut *o, std::vector<std::atomic<bool>> *completed) {
  Guard g;
  auto out = co_await res::when_any(e, v.begin(), v.end());
  w->tag = t_tag;
  if (out.index >= out.results.size()) w->err = 1;
  else {
    o->index = out.index;
    if (!(*completed)[out.index].load()) w->err = 2;
    if (!out.results[out.index] || out.results[out.index].status() == ResultStatus::Idle) w->err = 3;
  }
  o->rest = std::move(out.results);
  w->done = true;
}
template <class E>
static res::null any_tuple_co(std::shared_ptr<E> e, Result<Payload> a, Result<uint64_t> b, Result<void> c, Waiter *w, std::vector<std::atomic<bool>> *completed) {
  Guard g;
  auto out = co_await res::when_any(e, std::move(a), std::move(b), std::move(c));
  w->tag = t_tag;
  if (out.index > 2) w->err = 1;
  else if (!(*completed)[out.index].load()) w->err = 2;
  else {
    bool okv = false;
    if (out.index == 0) okv = std::get<0>(out.results).get().good(0);
    else if (out.index == 1) okv = std::get<1>(out.results).get() == 3;
    else { std::get<2>(out.results).get(); okv = true; }
    if (!okv) w->err = 4;
  }
  // the rest still deliver
  try {
    if (std::get<0>(out.results)) { auto r = co_await std::get<0>(out.results); if (!r.good(0)) w->err = 5; }
    if (std::get<1>(out.results)) { if (co_await std::get<1>(out.results) != 3) w->err = 5; }
    if (std::get<2>(out.results)) co_await std::get<2>(out.results);
  } catch (...) { w->err = 6; }
  w->done = true;
}
static void complete_item(ResultPromise<Payload> &p, int kind, size_t i, std::vector<std::atomic<bool>> &c) {
  c[i] = true;
  if (kind == 0) p.set_result(Payload{i});
  else if (kind == 1) p.set_exception(std::make_exception_ptr(TaskError{i}));
  else ResultPromise<Payload> dead{std::move(p)};
}
static void when_round(uint64_t seed, std::shared_ptr<ex::WorkerThread> worker, std::shared_ptr<ex::Inline> inl) {
  Rng g{seed};
  bool any = g.chance(2, 3), use_inline = g.chance(1, 3);
  size_t n = 1 + g.below(7);
  std::vector<int> kinds(n);
  for (auto &k : kinds) k = static_cast<int>(g.below(4)) % 3;
  std::vector<std::atomic<bool>> completed(n);
  {
    std::vector<ResultPromise<Payload>> ps(n);
    std::vector<Result<Payload>> rs;
    for (auto &p : ps) rs.push_back(p.get_result());
    Waiter w;
    AnyOut out;
    // some complete before, the rest race with the registration
    std::vector<std::vector<size_t>> plan(1 + g.below(3));
    unsigned pre = 0;
    for (size_t i = 0; i < n; ++i) if (g.chance(1, 8)) { complete_item(ps[i], kinds[i], i, completed); ++pre; } else plan[g.below(plan.size())].push_back(i);
    std::barrier go{static_cast<std::ptrdiff_t>(plan.size() + 1)};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < plan.size(); ++t) ts.emplace_back([&, t] {
      Rng r{seed * 13 + t};
      go.arrive_and_wait();
      for (auto i : plan[t]) { jitter(r); if (r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(120))); complete_item(ps[i], kinds[i], i, completed); }
    });
    go.arrive_and_wait();
    jitter(g);
    if (any) { if (use_inline) any_vec_co(inl, std::move(rs), &w, &out, &completed); else any_vec_co(worker, std::move(rs), &w, &out, &completed); }
    else { if (use_inline) all_vec_co(inl, std::move(rs), &w, &completed, &kinds); else all_vec_co(worker, std::move(rs), &w, &completed, &kinds); }
    std::string key = any ? "when_any" : "when_all";
    // everything handed back keeps its outcome, consumed while its producers may still be completing
    if (any) {
      if (!wait_until([&] { progress(); return w.done.load(); }, 20000)) stuck("when_any over a completed result never resumed");
      for (size_t i = 0; i < out.rest.size(); ++i) {
        int got;
        if (!out.rest[i]) { viol("when_any:lost-result", ""); continue; }
        if (g.chance(1, 3)) { auto r = std::move(out.rest[i]); (void)r; continue; }  // drop
        try { got = out.rest[i].get().good(i) ? 0 : 9; } catch (const TaskError &x) { got = x.id == i ? 1 : 9; } catch (const std::runtime_error &) { got = 2; }
        if (got != kinds[i]) viol("when_any:outcome", cat("result ", i, " outcome ", got, " want ", kinds[i]));
      }
      if (out.rest.size() != n) viol("when_any:size", "");
    }
    for (auto &t : ts) t.join();
    if (!any && !wait_until([&] { progress(); return w.done.load(); }, 20000)) stuck("when_all over completed results never resumed");
    if (w.err.load()) viol(cat(key, ":err", w.err.load()), w.err.load() == 2 ? "resumed although a needed result had not completed" : "wrong results");
    if (!use_inline && w.tag.load() != 77) viol(cat(key, ":resume-executor"), "did not resume on the given executor");
    count(cat(key, "_rounds"));
    if (n > 1) distinct(hash_mix(hash_mix(seed, n * 2 + any), out.index.load()));
    sample(cat(key, " over ", n, " results, ", pre, " completed before, ", plan.size(), " completing threads"));
    // tuple flavour
    std::vector<std::atomic<bool>> tc(3);
    Waiter w2;
    ResultPromise<Payload> p0; ResultPromise<uint64_t> p1; ResultPromise<void> p2;
    auto r0 = p0.get_result(); auto r1 = p1.get_result(); auto r2 = p2.get_result();
    std::vector<int> ord{0, 1, 2};
    std::swap(ord[0], ord[g.below(3)]); std::swap(ord[1], ord[1 + g.below(2)]);
    std::atomic<bool> goo{false};
    std::thread t([&] { while (!goo.load()) {} Rng r{seed + 3}; for (int k : ord) { jitter(r); tc[k] = true; if (k == 0) p0.set_result(Payload{0}); else if (k == 1) p1.set_result(uint64_t(3)); else p2.set_result(); } });
    goo = true;
    jitter(g);
    if (any) any_tuple_co(worker, std::move(r0), std::move(r1), std::move(r2), &w2, &tc);
    else all_tuple_co(worker, std::move(r0), std::move(r1), std::move(r2), &w2, &tc);
    t.join();
    if (!wait_until([&] { progress(); return w2.done.load(); }, 20000)) stuck(cat(key, " over a tuple never resumed"));
    if (w2.err.load()) viol(cat(key, ":tuple:err", w2.err.load()), "");
    if (!any && w2.tag.load() != 77) viol(cat(key, ":tuple:resume-executor"), "");
  }
  // the coroutine frames are freed shortly after `done`
  wait_until([&] { return g_live.load() == 0; }, 5000);
  leak_check("when");
  eval();
}
// one result completes while the set is being registered, the others only after when_any has resumed
static void when_one_round(uint64_t seed, std::shared_ptr<ex::WorkerThread> worker, std::shared_ptr<ex::Inline> inl) {
  constexpr unsigned N = 40;
  {
    Rng g{seed};
    struct Set { std::vector<ResultPromise<Payload>> ps; std::vector<Result<Payload>> rs; std::vector<std::atomic<bool>> completed; size_t one; Waiter w; AnyOut out; };
    std::vector<std::unique_ptr<Set>> sets;
    for (unsigned i = 0; i < N; ++i) {
      size_t k = 1 + g.below(4);
      auto s = std::make_unique<Set>();
      s->ps = std::vector<ResultPromise<Payload>>(k);
      s->completed = std::vector<std::atomic<bool>>(k);
      for (auto &p : s->ps) s->rs.push_back(p.get_result());
      s->one = g.chance(1, 2) ? k - 1 : g.below(k);
      sets.push_back(std::move(s));
    }
    std::atomic<uint64_t> a{0}, b{0};
    std::thread pt([&] { Rng r{seed + 1}; for (unsigned i = 0; i < N; ++i) { sync_at(a, b, i + 1); jitter(r); if (r.chance(1, 3)) perturb_point(63); complete_item(sets[i]->ps[sets[i]->one], 0, sets[i]->one, sets[i]->completed); } });
    for (unsigned i = 0; i < N; ++i) {
      auto &s = *sets[i];
      sync_at(b, a, i + 1);
      jitter(g);
      if (g.chance(1, 2)) any_vec_co(inl, std::move(s.rs), &s.w, &s.out, &s.completed); else any_vec_co(worker, std::move(s.rs), &s.w, &s.out, &s.completed);
      if (!wait_until([&] { progress(); return s.w.done.load(); }, 20000)) stuck("when_any with one completed result never resumed");
      if (s.w.err.load()) viol(cat("when_any:err", s.w.err.load()), "of one");
      if (s.out.index.load() != s.one) viol("when_any:index", cat(s.out.index.load(), " for ", s.one));
      for (size_t k = 0; k < s.ps.size(); ++k) if (k != s.one) { complete_item(s.ps[k], 0, k, s.completed); if (!s.out.rest[k].get().good(k)) viol("when_any:outcome", "of a later one"); }
    }
    pt.join();
  }
  wait_until([&] { return g_live.load() == 0; }, 5000);
  leak_check("when");
  count("when_any_of_one", N);
  eval(N);
}
static void when_misc(std::shared_ptr<ex::WorkerThread> worker) {
  std::vector<Result<int>> none;
  bool t = false;
  try { auto l = res::when_any(worker, none.begin(), none.end()); } catch (const std::invalid_argument &) { t = true; }
  if (!t) viol("when_any:empty-range", "");
  t = false;
  std::vector<Result<int>> empty(2);
  try { auto l = res::when_all(worker, empty.begin(), empty.end()); } catch (const std::runtime_error &) { t = true; }
  if (!t) viol("when_all:empty-result", "");
  t = false;
  try { std::vector<Result<int>> v; v.push_back(res::make_ready<int>(1)); auto l = res::when_all(std::shared_ptr<ex::WorkerThread>{}, v.begin(), v.end()); } catch (const std::invalid_argument &) { t = true; }
  if (!t) viol("when_all:null-executor", "");
  auto r = res::when_all(worker).run();
  r.get();
  auto r2 = res::when_all(worker, none.begin(), none.end()).run();
  if (!r2.get().empty()) viol("when_all:empty-range", "");
  eval();
}

// ---------------------------------------------------------------- P08
static LazyResult<Payload> lazy_leaf(uint64_t id, std::atomic<uint32_t> *starts, bool thrower, Guard g = {}) {
  starts->fetch_add(1);
  if (thrower) throw TaskError{id};
  co_return Payload{id};
}
static LazyResult<Payload> lazy_wait(Result<uint64_t> on, uint64_t id, std::atomic<uint32_t> *starts, bool thrower, Guard g = {}) {
  starts->fetch_add(1);
  co_await on;
  if (thrower) throw TaskError{id};
  co_return Payload{id};
}
static LazyResult<uint64_t> lazy_deep(unsigned n) {
  Guard g;
  if (n == 0) co_return 1;
  co_return 1 + co_await lazy_deep(n - 1);
}
static LazyResult<void> lazy_void(std::atomic<uint32_t> *starts) { starts->fetch_add(1); co_return; }
static Result<int> lazy_consumer(LazyResult<Payload> l, uint64_t id, bool resolve, bool thrower, uint64_t fate) {
  Guard g;
  try {
    if (resolve) {
      auto r = co_await l.resolve();
      for (uint64_t again = fate / 8 % 3; again; --again) {  // a resolved one can be resolved again
        auto q = co_await r.resolve();
        if (r) co_return 11;
        r = std::move(q);
        count("lazy_resolved_again");
      }
      if (r.status() != (thrower ? ResultStatus::Exception : ResultStatus::Value)) co_return 10;
      switch (fate % 8) {  // not taken: what it holds is released all the same
        case 0: co_return thrower ? 1 : 0;
        case 1: { auto a = r.resolve(); count("lazy_done_resolve_dropped"); co_return r ? 12 : thrower ? 1 : 0; }
        case 2: { auto a = r.operator co_await(); count("lazy_done_await_dropped"); co_return r ? 12 : thrower ? 1 : 0; }
        case 3: r = LazyResult<Payload>{}; count("lazy_done_overwritten"); co_return r ? 12 : thrower ? 1 : 0;
        case 4: { auto v = r.run().get(); co_return v.good(id) ? 0 : 9; }
      }
      auto v = co_await r;
      co_return v.good(id) ? 0 : 9;
    }
    auto v = co_await l;
    co_return v.good(id) ? 0 : 9;
  } catch (const TaskError &e) { co_return e.id == id ? 1 : 9; }
}
static void lazy_round(uint64_t seed) {
  Rng g{seed};
  {
    std::atomic<uint32_t> starts{0};
    bool thrower = g.chance(1, 3), waiting = g.chance(1, 2), race = g.chance(1, 2);
    uint64_t id = g.below(100);
    ResultPromise<uint64_t> p;
    LazyResult<Payload> l = waiting ? lazy_wait(p.get_result(), id, &starts, thrower) : lazy_leaf(id, &starts, thrower);
    if (!waiting) p.set_result(1);
    if (starts.load()) viol("lazy:started-early", "a lazy coroutine ran before it was awaited");
    if (l.status() != ResultStatus::Idle) viol("lazy:status", "");
    std::thread t;
    if (waiting && race) t = std::thread([&] { Rng r{seed + 1}; jitter(r); p.set_result(1); });
    int op = static_cast<int>(g.below(4));
    if (op == 0) {  // destroyed without a start
      if (g.chance(1, 2)) l = LazyResult<Payload>{};
      if (l && g.chance(1, 3)) { auto a = l.resolve(); }  // asked for, never awaited
      else if (l && g.chance(1, 3)) { auto a = l.operator co_await(); }
      LazyResult<Payload> dead{std::move(l)};
      if (starts.load()) viol("lazy:started-on-drop", "");
    } else if (op == 1) {
      auto r = l.run();
      if (l) viol("lazy:not-empty-after-run", "");
      if (starts.load() != 1) viol("lazy:start-count", cat(starts.load()));
      if (waiting && !race) { if (r.status() != ResultStatus::Idle) viol("lazy:done-early", ""); p.set_result(1); }
      int got;
      try { got = r.get().good(id) ? 0 : 9; } catch (const TaskError &e) { got = e.id == id ? 1 : 9; }
      if (got != (thrower ? 1 : 0)) viol("lazy:run-outcome", cat(got));
    } else {
      auto r = lazy_consumer(std::move(l), id, op == 3, thrower, g.next());
      if (starts.load() != 1) viol("lazy:start-count", cat(starts.load()));
      if (waiting && !race) p.set_result(1);
      if (r.get() != (thrower ? 1 : 0)) viol(op == 3 ? "lazy:resolve-outcome" : "lazy:await-outcome", "");
    }
    if (t.joinable()) t.join();
    if (op && starts.load() != 1) viol("lazy:start-count", cat(starts.load()));
    bool threw = false;
    try { (void)l.status(); } catch (const std::runtime_error &) { threw = true; }
    if (!threw) viol("lazy:consumed-not-empty", "");
    count("lazy_rounds");
    distinct(hash_mix(seed, op * 8 + thrower * 4 + waiting * 2 + race));
    unsigned depth = 1 + static_cast<unsigned>(g.below(60));
    auto r = lazy_deep(depth).run();
    if (r.get() != depth + 1) viol("lazy:nested", "");
    std::atomic<uint32_t> vs{0};
    lazy_void(&vs).run().get();
    if (vs.load() != 1) viol("lazy:void", "");
  }
  wait_until([&] { return g_live.load() == 0; }, 5000);
  leak_check("lazy");
  eval();
}
static res::Generator<uint64_t> gen_values(uint64_t seed, size_t n, size_t throw_at) {
  Guard g;
  Rng r{seed};
  for (size_t i = 0; i < n; ++i) {
    if (i == throw_at) throw TaskError{i};
    uint64_t v = r.next();
    if (v & 1) co_yield v; else co_yield uint64_t(v);
  }
  if (throw_at == n) throw TaskError{n};
}
static res::Generator<Payload> gen_objects(std::vector<Payload> &v) {
  Guard g;
  for (auto &p : v) co_yield p;
}
static void gen_round(uint64_t seed) {
  Rng g{seed};
  {
    size_t n = g.below(30), ta = g.chance(1, 3) ? g.below(n + 1) : ~size_t(0), stop = g.chance(1, 3) ? g.below(n + 1) : ~size_t(0);
    auto gen0 = gen_values(seed, n, ta);
    auto gen = std::move(gen0);
    if (gen0) viol("generator:moved", "");
    Rng r{seed};
    size_t seen = 0;
    bool threw = false;
    if (stop != 0) try {
      for (auto it = gen.begin(); it != gen.end();) {
        if (*it != r.next()) viol("generator:value", cat("element ", seen, " of ", n));
        ++seen;
        if (seen == stop) break;
        if (g.chance(1, 2)) ++it; else it++;
      }
    } catch (const TaskError &e) { threw = true; if (e.id != ta) viol("generator:exception", ""); }
    size_t len = std::min(n, ta);
    size_t want = std::min(len, stop);
    if (seen != want) viol("generator:count", cat(seen, " elements, want ", want));
    bool want_throw = ta <= n && stop > len;
    if (threw != want_throw) viol("generator:exception-lost", "");
    distinct(hash_mix(seed, n * 64 + seen));
    std::vector<Payload> objs;
    size_t m = g.below(6);
    for (size_t i = 0; i < m; ++i) objs.emplace_back(i);
    { size_t k = 0; for (auto &o : gen_objects(objs)) { if (&o != &objs[k]) viol("generator:reference", ""); o.id += 100; ++k; } if (k != m) viol("generator:count", ""); }
    for (size_t i = 0; i < m; ++i) if (objs[i].id != i + 100) viol("generator:reference-write", "");
    count("generator_elements", seen + m);
  }
  leak_check("generator");
  eval();
}

// ---------------------------------------------------------------- P09
struct HopRec { std::atomic<uint32_t> hops{0}, wrong{0}, interrupted{0}, ended{0}; };
struct Exes {
  std::vector<std::pair<std::shared_ptr<ex::Basic>, unsigned>> v;
  std::vector<std::thread> loopers;
  std::atomic<bool> stop{false};
};
static res::null hop_co(Exes *x, std::vector<unsigned> plan, HopRec *rec, bool by_ref) {
  Guard g;
  try {
    for (auto i : plan) {
      auto e = x->v[i].first;
      if (by_ref) co_await res::resume_on(*e); else co_await res::resume_on(e);
      if (t_tag != x->v[i].second) rec->wrong++;
      rec->hops++;
    }
  } catch (const std::runtime_error &) { rec->interrupted++; }
  rec->ended++;
}
static Result<uint64_t> tag_co(executor_tag, std::shared_ptr<ex::Basic> e, unsigned want, std::atomic<uint32_t> *bad, uint64_t v) {
  Guard g;
  if (t_tag != want) bad->fetch_add(1);
  co_return v;
}
static res::null null_tag_co(executor_tag, ex::Basic &e, unsigned want, std::atomic<uint32_t> *bad, std::atomic<uint32_t> *n) {
  Guard g;
  if (t_tag != want) bad->fetch_add(1);
  n->fetch_add(1);
  co_return;
}
static Result<uint64_t> inner_hop(Exes *x, unsigned i, uint64_t v) { co_await res::resume_on(x->v[i].first); co_return v; }
static Result<uint64_t> outer_hop(Exes *x, unsigned i, unsigned j, uint64_t v, std::atomic<uint32_t> *bad) {
  co_await res::resume_on(x->v[i].first);
  auto r = co_await inner_hop(x, j, v);
  co_await res::resume_on(x->v[i].first);
  if (t_tag != x->v[i].second) bad->fetch_add(1);
  co_return r + 1;
}
static void resume_round(uint64_t seed, bool shutdown) {
  Rng g{seed};
  {
    Exes x;
    unsigned n = 2 + static_cast<unsigned>(g.below(3));
    for (unsigned i = 0; i < n; ++i) {
      unsigned tag = i + 1;
      auto started = [tag](std::string_view) { t_tag = tag; };
      switch (g.below(4)) {
        case 0: x.v.emplace_back(std::make_shared<ex::ThreadPool>("rp", 1 + g.below(3), std::chrono::milliseconds(g.chance(1, 2) ? 2 : 3600000), started), tag); break;
        case 1: x.v.emplace_back(std::make_shared<ex::WorkerThread>(started), tag); break;
        case 2: x.v.emplace_back(std::make_shared<ex::Thread>(started), tag); break;
        default: {
          auto m = std::make_shared<ex::Manual>();
          x.v.emplace_back(m, tag);
          x.loopers.emplace_back([m, tag, &x] { t_tag = tag; while (!x.stop.load()) { try { m->loop_for(8, 2ms); } catch (const std::runtime_error &) { break; } } });
        }
      }
    }
    unsigned nc = 4 + static_cast<unsigned>(g.below(12));
    std::vector<std::unique_ptr<HopRec>> recs;
    std::atomic<uint32_t> bad{0}, nulls{0};
    uint64_t want_hops = 0, want_nulls = 0;
    std::vector<std::pair<uint64_t, Result<uint64_t>>> results;
    std::thread killer;
    unsigned victim = static_cast<unsigned>(g.below(n));
    if (shutdown) killer = std::thread([&, us = g.below(800)] { std::this_thread::sleep_for(std::chrono::microseconds(us)); x.v[victim].first->shutdown(); });
    std::vector<uint64_t> lens;
    for (unsigned c = 0; c < nc; ++c) {
      std::vector<unsigned> plan;
      for (size_t k = 0, l = 1 + g.below(8); k < l; ++k) plan.push_back(static_cast<unsigned>(g.below(n)));
      lens.push_back(plan.size());
      want_hops += plan.size();
      recs.push_back(std::make_unique<HopRec>());
      hop_co(&x, plan, recs.back().get(), g.chance(1, 2));
      auto i = g.below(n), j = g.below(n);
      results.emplace_back(c * 5, tag_co({}, x.v[i].first, x.v[i].second, &bad, c * 5));
      if (!shutdown) { null_tag_co({}, *x.v[j].first, x.v[j].second, &bad, &nulls); ++want_nulls; }
      results.emplace_back(c + 1001, outer_hop(&x, static_cast<unsigned>(i), static_cast<unsigned>(j), c + 1000, &bad));
      progress();
    }
    uint64_t hops = 0, intr = 0, vals = 0;
    for (auto &r : recs) {
      if (!wait_until([&] { progress(); return r->ended.load() > 0; }, 20000)) stuck("a coroutine rescheduled on an executor was never resumed");
    }
    for (auto &[v, r] : results) {
      if (r.wait_for(20s) == ResultStatus::Idle) stuck("the result of a rescheduled coroutine never completes");
      try { if (r.get() != v) viol("resume:value", ""); ++vals; } catch (const std::runtime_error &) { if (!shutdown) viol("resume:spurious-interruption", ""); ++intr; }
    }
    if (killer.joinable()) killer.join();
    if (!shutdown) wait_until([&] { progress(); return nulls.load() == want_nulls; }, 20000);
    x.stop = true;
    for (auto &e : x.v) e.first->shutdown();
    for (auto &t : x.loopers) t.join();
    for (size_t i = 0; i < recs.size(); ++i) {
      auto &r = *recs[i];
      if (r.ended.load() != 1) viol("resume:resumed-count", cat("coroutine ended ", r.ended.load(), " times"));
      if (r.wrong.load()) viol("resume:wrong-executor", cat(r.wrong.load(), " resumptions on a thread of another executor"));
      if (!r.interrupted.load() && r.hops.load() != lens[i]) viol("resume:hop-count", "");
      if (r.interrupted.load() && !shutdown) viol("resume:spurious-interruption", "");
      hops += r.hops.load(); intr += r.interrupted.load();
    }
    if (bad.load()) viol("resume:wrong-executor", cat(bad.load(), " coroutines on a thread of another executor"));
    if (!shutdown && nulls.load() != want_nulls) viol("resume:null-result-lost", "");
    count("resume_hops", hops); count("resume_interrupted", intr);
    if (hops) distinct(hash_mix(hash_mix(seed, hops), intr));
    sample(cat(n, " executors, ", nc, " coroutines, ", hops, " hops, ", intr, " interrupted", shutdown ? " (one executor shut down meanwhile)" : ""));
  }
  wait_until([&] { return g_live.load() == 0; }, 5000);
  leak_check("resume");
  eval();
}

int main(int argc, char **argv) {
  g_live = 0;
  init(argc, argv);
  uint64_t S = opt.seed * 1000003, n = opt.scale;
  auto want = [](const char *p) { return opt.scenario.empty() || opt.scenario == p; };
  if (want("result")) for (uint64_t i = 0; i < n; ++i) {
    scenario("result:payload"); result_round<Payload>(S + i, "payload"); leak_check("result:payload");
    scenario("result:int"); result_round<uint64_t>(S + i + 1000000, "int");
    scenario("result:void"); result_round<void>(S + i + 2000000, "void");
    scenario("result:unique"); result_round<std::unique_ptr<Payload>>(S + i + 3000000, "unique"); leak_check("result:unique");
    scenario("result:misc"); result_misc(S + i); leak_check("result:misc");
  }
  if (want("shared")) for (uint64_t i = 0; i < n; ++i) {
    scenario("shared:round"); for (int k = 0; k < 6; ++k) shared_round(S + i * 6 + k);
    scenario("shared:drop"); shared_drop_round(S + i);
    scenario("shared:make"); shared_make_round(S + i);
  }
  if (want("when")) {
    auto w = std::make_shared<ex::WorkerThread>([](std::string_view) { t_tag = 77; });
    auto in = std::make_shared<ex::Inline>();
    scenario("when:misc"); when_misc(w);
    for (uint64_t i = 0; i < n * 8; ++i) { scenario("when:round"); when_round(S + i, w, in); if (i % 8 == 0) when_one_round(S + i, w, in); }
    w->shutdown(); in->shutdown();
  }
  if (want("lazy")) for (uint64_t i = 0; i < n; ++i) {
    scenario("lazy"); for (int k = 0; k < 20; ++k) lazy_round(S + i * 20 + k);
    scenario("generator"); for (int k = 0; k < 20; ++k) gen_round(S + i * 20 + k);
  }
  if (want("resume")) for (uint64_t i = 0; i < n; ++i) {
    scenario("resume"); resume_round(S + i, false);
    scenario("resume:shutdown"); resume_round(S + i + 500000, true);
  }
  return finish();
}
