// P10: timers and delay objects.
#include "common.h"
#include <condition_variable>
#include <memory>
#include <span>
#include <thread>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/engine/timer.h"
#include "plain/engine/timer_queue.h"
using namespace vf;
using namespace std::chrono_literals;
namespace ex = plain::concurrency::executor;
namespace res = plain::concurrency::result;
using plain::Timer;
using plain::TimerQueue;
using clk = std::chrono::high_resolution_clock;
using plain::concurrency::Result;

static std::atomic<int64_t> g_live{0};
struct Guard {
  Guard() noexcept { g_live++; }
  Guard(const Guard &) noexcept { g_live++; }
  Guard(Guard &&) noexcept { g_live++; }
  ~Guard() { g_live--; }
};
static thread_local unsigned t_tag = 0;

struct Rec {
  clk::time_point made;
  int64_t due{0}, freq{0};       // ms
  int64_t min_freq{0};
  bool oneshot{true};
  std::atomic<uint32_t> runs{0}, early{0}, wrong_thread{0}, after_cancel{0};
  std::atomic<int> cancelled{0};  // 1: cancel() has returned
  std::atomic<bool> self_cancelled{false};
  std::mutex m; Timer timer; std::condition_variable cv; bool set{false};
};

struct Ex { std::shared_ptr<ex::Basic> e; unsigned tag; bool serial; };
static Ex make_ex(Rng &g, unsigned tag, int kind) {
  auto started = [tag](std::string_view) { t_tag = tag; };
  switch (kind) {
    case 0: return {std::make_shared<ex::WorkerThread>(started), tag, true};
    case 1: return {std::make_shared<ex::ThreadPool>("tp", 1 + g.below(3), 3600000ms, started), tag, false};
    default: return {std::make_shared<ex::Inline>(), 0, true};
  }
}

static void tick(std::shared_ptr<Rec> r, unsigned want_tag, uint32_t cancel_at, bool check_tag) {
  auto now = clk::now();
  auto k = r->runs.fetch_add(1);
  auto floor = r->made + std::chrono::milliseconds(r->due) + std::chrono::milliseconds(r->min_freq * static_cast<int64_t>(k));
  if (now < floor) r->early++;
  if (check_tag && t_tag != want_tag) r->wrong_thread++;
  if (r->self_cancelled.load()) r->after_cancel++;
  else if (r->cancelled.load()) r->after_cancel++;
  if (!r->oneshot && cancel_at && k + 1 == cancel_at) {
    std::unique_lock<std::mutex> l{r->m};
    r->cv.wait_for(l, 20s, [&] { return r->set; });
    r->timer.cancel();
    r->self_cancelled = true;
  }
}

struct DelayRec { std::atomic<uint32_t> resumed{0}, early{0}, interrupted{0}, wrong{0}; };
static res::null delay_co(std::shared_ptr<TimerQueue> q, Ex e, int64_t ms, std::shared_ptr<DelayRec> d) {
  Guard g;
  auto t0 = clk::now();
  bool intr = false;
  try {
    co_await q->make_delay_object(std::chrono::milliseconds(ms), e.e);
  } catch (const std::runtime_error &) { intr = true; }
  q.reset();
  if (!intr) {
    if (clk::now() - t0 < std::chrono::milliseconds(ms)) d->early++;
    if (e.tag && t_tag != e.tag) d->wrong++;
  } else d->interrupted++;
  d->resumed++;
}
// owns a timer of the same queue: an interrupted delay must be able to release it
static res::null delay_owner_co(std::shared_ptr<TimerQueue> q, Ex e, int64_t ms, std::shared_ptr<DelayRec> d) {
  Guard g;
  try {
    Timer t = q->make_timer(10000ms, 10000ms, e.e, [] {});
    auto lz = q->make_delay_object(std::chrono::milliseconds(ms), e.e);
    co_await lz;
  } catch (const std::runtime_error &) { d->interrupted++; }
  d->resumed++;
}

static void timers_round(uint64_t seed) {
  Rng g{seed};
  uint64_t h = seed;
  {
    std::vector<Ex> es;
    es.push_back(make_ex(g, 1, 0));
    es.push_back(make_ex(g, 2, 1));
    es.push_back(make_ex(g, 0, 2));
    auto q = std::make_shared<TimerQueue>(std::chrono::milliseconds(g.chance(1, 2) ? 1 + g.below(4) : 2000));
    std::vector<std::shared_ptr<Rec>> recs;
    std::vector<std::shared_ptr<DelayRec>> delays;
    std::vector<Ex> rec_ex;
    std::mutex mm;
    unsigned nt = 1 + static_cast<unsigned>(g.below(3));
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nt; ++t) ts.emplace_back([&, t] {
      Rng r{seed * 7 + t};
      for (int i = 0; i < 6; ++i) {
        auto &e = es[r.below(3)];
        if (r.chance(1, 4)) {
          auto d = std::make_shared<DelayRec>();
          delay_co(q, e, static_cast<int64_t>(r.below(12)), d);
          std::lock_guard l{mm};
          delays.push_back(d);
        } else {
          auto rec = std::make_shared<Rec>();
          rec->oneshot = r.chance(1, 2);
          rec->due = static_cast<int64_t>(r.below(15));
          rec->freq = rec->oneshot ? 0 : 1 + static_cast<int64_t>(r.below(4));
          rec->min_freq = rec->freq;
          uint32_t cancel_at = r.chance(1, 2) ? 1 + static_cast<uint32_t>(r.below(4)) : 0;
          int64_t nf = 0;
          if (!rec->oneshot && r.chance(1, 4)) { nf = 1 + static_cast<int64_t>(r.below(6)); rec->min_freq = std::min(nf, rec->freq); }
          rec->made = clk::now();
          auto body = [rec, tag = e.tag, cancel_at, chk = e.tag != 0, gd = Guard{}] { tick(rec, tag, cancel_at, chk); };
          Timer tm = rec->oneshot ? q->make_one_shot_timer(std::chrono::milliseconds(rec->due), e.e, body)
                                  : q->make_timer(std::chrono::milliseconds(rec->due), std::chrono::milliseconds(rec->freq), e.e, body);
          if (tm.get_due_time().count() != rec->due || tm.get_frequency().count() != rec->freq || tm.get_executor() != e.e) viol("timer:getters", "");
          if (nf) { tm.set_frequency(std::chrono::milliseconds(nf)); if (tm.get_frequency().count() != nf) viol("timer:set_frequency", ""); }
          { std::lock_guard l{rec->m}; rec->timer = std::move(tm); rec->set = true; }
          rec->cv.notify_all();
          std::lock_guard l{mm};
          recs.push_back(rec); rec_ex.push_back(e);
        }
        if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        progress();
      }
    });
    for (auto &t : ts) t.join();
    // cancel some from outside at random times
    uint64_t outside = 0;
    std::vector<char> cancelled_before_fire(recs.size(), 0);
    for (size_t i = 0; i < recs.size(); ++i) {
      if (!g.chance(1, 3)) continue;
      auto &r = recs[i];
      Timer t;
      { std::lock_guard l{r->m}; t = std::move(r->timer); }
      switch (g.below(3)) {
        case 0: t.cancel(); break;
        case 1: t = Timer{}; break;
        default: { Timer dead{std::move(t)}; }
      }
      r->cancelled = 1;
      if (t) viol("timer:cancelled-not-empty", "");
      ++outside;
      cancelled_before_fire[i] = 1;
    }
    // every one-shot still armed fires, every periodic timer keeps firing
    for (size_t i = 0; i < recs.size(); ++i) {
      auto &r = recs[i];
      if (cancelled_before_fire[i]) continue;
      uint32_t need = r->oneshot ? 1 : 2;
      if (!wait_until([&] { progress(); return r->runs.load() >= need || r->self_cancelled.load(); }, 20000)) stuck(cat(r->oneshot ? "one-shot" : "periodic", " timer never fired"));
    }
    for (auto &d : delays) if (!wait_until([&] { progress(); return d->resumed.load() > 0; }, 20000)) stuck("delay object never resumed");
    std::this_thread::sleep_for(std::chrono::milliseconds(g.below(8)));
    for (auto &r : recs) { Timer t; { std::lock_guard l{r->m}; t = std::move(r->timer); } t.cancel(); r->cancelled = 1; }
    q->shutdown();
    if (!q->shutdown_requested()) viol("timer:shutdown_requested", "");
    bool threw = false;
    try { auto t = q->make_one_shot_timer(1ms, es[0].e, [] {}); } catch (const std::runtime_error &) { threw = true; }
    if (!threw) viol("timer:make-after-shutdown", "a shut-down queue accepted a timer");
    { auto d = std::make_shared<DelayRec>(); delay_co(q, es[0], 1, d); if (!wait_until([&] { return d->resumed.load() > 0; }, 20000)) stuck("delay on a shut-down queue"); if (!d->interrupted.load()) viol("timer:delay-after-shutdown", "completed without an interruption"); }
    q.reset();
    for (auto &e : es) e.e->shutdown();
    uint64_t fires = 0;
    for (size_t i = 0; i < recs.size(); ++i) {
      auto &r = recs[i];
      auto n = r->runs.load();
      fires += n;
      h = hash_mix(h, n);
      if (r->oneshot && n > 1) viol("timer:oneshot-twice", cat("ran ", n, " times"));
      if (r->oneshot && !cancelled_before_fire[i] && n != 1) viol("timer:oneshot-lost", cat("ran ", n, " times"));
      if (r->early.load()) viol("timer:early", cat(r->early.load(), " of ", n, " executions before their time (due ", r->due, " freq ", r->freq, ")"));
      if (r->wrong_thread.load()) viol("timer:wrong-executor", "");
      // one dispatched execution per executor thread may already be past the check when cancel() returns from another thread
      if (r->after_cancel.load() > (rec_ex[i].serial ? (r->self_cancelled.load() ? 0u : 1u) : 3u)) viol("timer:after-cancel", cat(r->after_cancel.load(), " executions began after cancel() returned", r->self_cancelled.load() ? " (cancelled from its own callback)" : ""));
    }
    for (auto &d : delays) {
      if (d->resumed.load() != 1) viol("timer:delay-resumed-count", cat(d->resumed.load()));
      if (d->early.load()) viol("timer:delay-early", "");
      if (d->wrong.load()) viol("timer:delay-executor", "");
      if (d->interrupted.load()) viol("timer:delay-interrupted", "without a shutdown");
    }
    count("timers", recs.size()); count("timer_executions", fires); count("timers_cancelled_outside", outside); count("delays", delays.size());
    if (fires) distinct(h);
    sample(cat(nt, " threads, ", recs.size(), " timers, ", delays.size(), " delays, ", fires, " executions, ", outside, " cancelled"));
  }
  if (auto n = g_live.load()) { viol("timer:callable-leak", cat(n, " captured objects not destroyed after the queue is gone")); g_live = 0; }
  eval();
}

// timers armed in order with non-decreasing due times run in that order on a serial executor
static void order_round(uint64_t seed) {
  Rng g{seed};
  auto w = std::make_shared<ex::WorkerThread>();
  auto q = std::make_shared<TimerQueue>(std::chrono::milliseconds(1 + g.below(100)));
  std::vector<unsigned> log;
  std::atomic<unsigned> done{0};
  std::vector<Timer> ts;
  unsigned n = 5 + static_cast<unsigned>(g.below(20));
  int64_t due = static_cast<int64_t>(g.below(4));
  std::function<void()> shared_fn;  // an lvalue callable handed to several timers
  std::atomic<unsigned> shared_runs{0};
  shared_fn = [&shared_runs, pad = std::string(64, 'x')] { shared_runs++; };
  for (unsigned i = 0; i < n; ++i) {
    ts.push_back(q->make_one_shot_timer(std::chrono::milliseconds(due), w, [&, i] { log.push_back(i); done++; }));
    if (g.chance(1, 4)) due += static_cast<int64_t>(g.below(4));
  }
  unsigned k = 1 + static_cast<unsigned>(g.below(4));
  for (unsigned i = 0; i < k; ++i) ts.push_back(q->make_one_shot_timer(1ms, w, shared_fn));
  if (!shared_fn) viol("timer:callable-stolen", "making a timer from an lvalue callable emptied the caller's callable");
  if (!wait_until([&] { progress(); return done.load() == n && (!shared_fn || shared_runs.load() == k); }, 20000)) stuck("ordered timers did not all fire");
  q->shutdown();
  w->shutdown();
  for (unsigned i = 0; i < log.size(); ++i) if (log[i] != i) { viol("timer:order", cat("timer ", log[i], " ran at position ", i)); break; }
  distinct(hash_mix(seed, n));
  count("ordered_timers", n);
  eval();
}

// queue and executor shutdowns racing with firing, making and cancelling timers
static void shutdown_round(uint64_t seed) {
  Rng g{seed};
  {
    std::vector<Ex> es{make_ex(g, 1, 0), make_ex(g, 2, 1), make_ex(g, 0, 2)};
    auto q = std::make_shared<TimerQueue>(std::chrono::milliseconds(g.chance(1, 2) ? 1 : 500));
    std::vector<std::shared_ptr<DelayRec>> delays;
    std::atomic<uint64_t> runs{0}, late{0}, rejected{0};
    std::mutex mm;
    std::vector<std::thread> ts;
    std::vector<Timer> kept;
    std::atomic<bool> stop{false};
    for (unsigned t = 0; t < 2; ++t) ts.emplace_back([&, t] {
      Rng r{seed * 11 + t};
      for (int i = 0; i < 14 && !stop.load(); ++i) {
        auto &e = es[r.below(3)];
        try {
          switch (r.below(4)) {
            case 0: { auto d = std::make_shared<DelayRec>(); delay_co(q, e, static_cast<int64_t>(r.below(4)), d); std::lock_guard l{mm}; delays.push_back(d); break; }
            case 1: { auto d = std::make_shared<DelayRec>(); delay_owner_co(q, e, static_cast<int64_t>(r.below(3000)), d); std::lock_guard l{mm}; delays.push_back(d); break; }
            case 2: { auto tm = q->make_timer(std::chrono::milliseconds(r.below(2)), 1ms, e.e, [&runs, gd = Guard{}] { runs++; }); std::lock_guard l{mm}; kept.push_back(std::move(tm)); break; }
            default: { auto tm = q->make_one_shot_timer(std::chrono::milliseconds(r.below(3)), e.e, [&runs, gd = Guard{}] { runs++; }); if (r.chance(1, 2)) { std::lock_guard l{mm}; kept.push_back(std::move(tm)); } }
          }
        } catch (const std::runtime_error &) { rejected++; if (!q->shutdown_requested()) viol("timer:rejected-early", ""); }
        if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(700)));
        progress();
      }
    });
    std::this_thread::sleep_for(std::chrono::microseconds(g.below(4000)));
    bool ex_first = g.chance(1, 2);
    if (ex_first) es[g.below(2)].e->shutdown();
    std::this_thread::sleep_for(std::chrono::microseconds(g.below(2000)));
    std::thread second;
    if (g.chance(1, 3)) second = std::thread([&] { q->shutdown(); });
    q->shutdown();
    for (auto &t : ts) t.join();
    if (second.joinable()) second.join();
    { std::lock_guard l{mm}; kept.clear(); }
    q->shutdown();
    q.reset();
    for (auto &e : es) e.e->shutdown();
    uint64_t intr = 0;
    for (auto &d : delays) {
      if (!wait_until([&] { progress(); return d->resumed.load() > 0; }, 20000)) stuck("a delay was neither resumed nor interrupted by the shutdown");
      if (d->resumed.load() != 1) viol("timer:delay-resumed-count", cat(d->resumed.load()));
      intr += d->interrupted.load();
    }
    count("shutdown_rounds"); count("delays_interrupted", intr); count("timers_rejected", rejected.load());
    distinct(hash_mix(hash_mix(seed, intr), runs.load()));
  }
  wait_until([&] { return g_live.load() == 0; }, 2000);
  if (auto n = g_live.load()) { viol("timer:shutdown-leak", cat(n)); g_live = 0; }
  eval();
}

// A timer with an earlier time than those waited for must not wait for them; a queue that went idle must wake up.
static void wake_round(uint64_t seed) {
  Rng g{seed};
  auto w = std::make_shared<ex::WorkerThread>();
  const bool idle = g.chance(1, 2);
  auto q = std::make_shared<TimerQueue>(std::chrono::milliseconds(idle ? 1 + g.below(3) : 5000));
  {
    std::vector<Timer> far;
    if (!idle) for (size_t i = 0, k = 1 + g.below(3); i < k; ++i) far.push_back(g.chance(1, 2) ? q->make_one_shot_timer(3600s, w, [] {}) : q->make_timer(3600s, 3600s, w, [] {}));
    for (int i = 0; i < 12; ++i) {
      auto fired = std::make_shared<std::atomic<int>>(0);
      if (g.chance(2, 3)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(4000)));
      auto due = std::chrono::milliseconds(g.below(4));
      std::vector<Timer> ts;
      int want = 1 + static_cast<int>(g.below(2));
      for (int k = 0; k < want; ++k) ts.push_back(q->make_one_shot_timer(due, w, [fired] { (*fired)++; }));
      if (!wait_until([&] { return *fired == want; }, 20000)) stuck(idle ? "a timer of a queue that was idle does not fire" : "a timer does not fire while one of a later time is waited for");
      progress();
      count("timers_woken");
    }
  }
  q->shutdown();
  w->shutdown();
  distinct(hash_mix(seed, idle));
  eval();
}
// A periodic timer held up does not fire several times at once afterwards.
static void stall_round(uint64_t seed) {
  Rng g{seed};
  auto in = std::make_shared<ex::Inline>();
  auto q = std::make_shared<TimerQueue>(1000ms);
  const auto period = std::chrono::milliseconds(10 + g.below(10));
  std::mutex m;
  std::vector<clk::time_point> at;
  std::atomic<bool> stalled{false};
  std::atomic<size_t> after{0};
  auto p = q->make_timer(1ms, period, in, [&] { std::unique_lock l{m}; at.push_back(clk::now()); if (stalled) after++; });
  auto s = q->make_one_shot_timer(period, in, [&] { std::this_thread::sleep_for(period * 8); stalled = true; });
  if (!wait_until([&] { return after >= 4; }, 20000)) stuck("a periodic timer which was held up does not go on");
  p.cancel();
  q->shutdown();
  // By chance two may come close together, not five.
  for (size_t i = 4; i < at.size(); ++i)
    if (at[i] - at[i - 4] < period) viol("timer:burst", cat("5 firings within one period of ", period.count(), " ms"));
  count("periodic_stalls");
  distinct(hash_mix(seed, static_cast<uint64_t>(period.count())));
  eval();
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t S = opt.seed * 1000003, n = opt.scale;
  auto want = [](const char *p) { return opt.scenario.empty() || opt.scenario == p; };
  if (want("timers")) for (uint64_t i = 0; i < n; ++i) { scenario("timers"); timers_round(S + i); }
  if (want("order")) for (uint64_t i = 0; i < n; ++i) { scenario("order"); order_round(S + i); }
  if (want("shutdown")) for (uint64_t i = 0; i < n; ++i) { scenario("shutdown"); shutdown_round(S + i); }
  if (want("wake")) for (uint64_t i = 0; i < n; ++i) { scenario("wake"); wake_round(S + i); if (i % 8 == 0) { scenario("stall"); stall_round(S + i); } }
  return finish();
}
