// P33 tasks: whatever callable goes in, it is run or dropped exactly once, wherever the task was moved.
#include "common.h"
#include <array>
#include <coroutine>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <span>
#include <thread>
#include "plain/basic/bind.h"
#include "plain/all.h"
#include "plain/concurrency/task.h"
using namespace vf;
using namespace std::chrono_literals;
namespace pc = plain::concurrency;
using pc::Task;

// What is known of each callable, by its number.
struct Book { std::atomic<int> live{0}, runs{0}, bad{0}; };
static constexpr unsigned kMax = 1 << 16;
static Book *g_book;
static std::atomic<unsigned> g_next{0};
static unsigned fresh() {
  auto id = g_next++;
  if (id >= kMax) harness_error("too many callables");
  g_book[id].live = 0; g_book[id].runs = 0; g_book[id].bad = 0;
  return id;
}
static void restart() { g_next = 0; }
struct Boom { unsigned id; };

// A callable of a size and alignment, copyable or not, whose move may throw or not, that may throw when it runs.
template <size_t Size, size_t Align, bool Copy, bool NoexMove>
struct alignas(Align) Body {
  unsigned id;
  bool throws;
  Body *self;
  std::array<unsigned char, Size> pad;
  void born() {
    self = this;
    g_book[id].live++;
    auto at = reinterpret_cast<uintptr_t>(this);
    asm volatile("" : "+r"(at));  // the compiler takes the alignment for granted
    if (at % Align) g_book[id].bad |= 1;
  }
  void fill() { for (size_t i = 0; i < Size; ++i) pad[i] = static_cast<unsigned char>(id * 31 + i * 7); }
  void look(int bit) {
    if (self != this) g_book[id].bad |= bit;
    for (size_t i = 0; i < Size; ++i) if (pad[i] != static_cast<unsigned char>(id * 31 + i * 7)) g_book[id].bad |= bit;
  }
  Body(unsigned _id, bool t) : id{_id}, throws{t} { fill(); born(); }
  Body(const Body &o) requires Copy : id{o.id}, throws{o.throws}, pad{o.pad} { born(); }
  Body(Body &&o) noexcept(NoexMove) : id{o.id}, throws{o.throws}, pad{o.pad} { o.look(2); born(); }
  ~Body() { look(4); self = nullptr; g_book[id].live--; }
  void operator()() {
    look(8);
    if (g_book[id].live < 1) g_book[id].bad |= 16;
    g_book[id].runs++;
    if (throws) throw Boom{id};
  }
};

// The same without a destructor: what becomes of its memory is seen by the leak check only.
template <size_t Size, size_t Align, bool Flat>
struct alignas(Align) Trivial {
  unsigned id;
  bool throws;
  std::array<unsigned char, Size> pad;
  Trivial(unsigned _id, bool t) : id{_id}, throws{t} { for (size_t i = 0; i < Size; ++i) pad[i] = static_cast<unsigned char>(id * 31 + i * 7); }
  Trivial(const Trivial &o) requires Flat = default;
  Trivial(const Trivial &o) requires (!Flat) : id{o.id}, throws{o.throws}, pad{o.pad} {}
  void operator()() {
    for (size_t i = 0; i < Size; ++i) if (pad[i] != static_cast<unsigned char>(id * 31 + i * 7)) g_book[id].bad |= 8;
    g_book[id].runs++;
    if (throws) throw Boom{id};
  }
};

struct Coro {
  struct promise_type {
    unsigned id;
    promise_type(unsigned _id) : id{_id} { g_book[id].live++; }
    ~promise_type() { g_book[id].live--; }
    Coro get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
static Coro body_coro(unsigned id) { g_book[id].runs++; co_return; }
static void plain_function() {}
static std::atomic<unsigned> g_plain_runs{0};
static void counted_function() { g_plain_runs++; }

static constexpr unsigned kKinds = 19;
// Makes a task of the kind; says if it may throw when run.
static Task make(unsigned kind, unsigned id, bool throws) {
  switch (kind) {
    case 0: return Task{Body<4, 8, true, true>{id, throws}};
    case 1: return Task{Body<24, 8, false, true>{id, throws}};
    case 2: return Task{Body<25, 8, true, true>{id, throws}};
    case 3: return Task{Body<200, 8, false, true>{id, throws}};
    case 4: return Task{Body<4, 8, true, false>{id, throws}};
    case 5: return Task{Body<8, 32, true, true>{id, throws}};
    case 6: return Task{Body<8, 64, false, true>{id, throws}};
    case 7: return Task{Body<128, 128, true, false>{id, throws}};
    case 8: { Body<16, 8, true, true> b{id, throws}; return Task{b}; }
    case 9: return Task{std::function<void()>{Body<40, 8, true, true>{id, throws}}};
    case 10: { auto p = std::make_unique<Body<8, 8, false, true>>(id, throws); return Task{[p = std::move(p)] { (*p)(); }}; }
    case 11: return Task{std::coroutine_handle<void>{body_coro(id).h}};
    case 12: { auto p = std::make_shared<Body<8, 16, false, true>>(id, throws); return Task{[p, n = 0]() mutable { ++n; (*p)(); }}; }
    case 13: { const Body<16, 8, true, true> b{id, throws}; return Task{b}; }
    case 14: return Task{Trivial<8, 4, true>{id, throws}};
    case 15: return Task{Trivial<150, 8, true>{id, throws}};
    case 16: return Task{Trivial<20, 64, true>{id, throws}};
    case 17: return Task{Trivial<8, 4, false>{id, throws}};
    default: return Task{Trivial<150, 4, false>{id, throws}};
  }
}
static bool is_coro(unsigned kind) { return kind == 11; }
static bool has_life(unsigned kind) { return kind < 14; }
static const char *kind_name(unsigned k) {
  static const char *n[] = {"small", "fits-exactly", "one-too-big", "big", "may-throw-move", "align32", "align64", "align128-big", "copied", "function", "unique", "coroutine", "shared", "const", "trivial", "trivial-big", "trivial-align64", "trivial-copied", "trivial-copied-big"};
  return n[k];
}

struct Slot { Task t; std::optional<unsigned> id; unsigned kind{0}; bool throws{false}; };

static void check(const Slot &s, const char *after) {
  if (static_cast<bool>(s.t) != s.id.has_value()) viol(cat("task:holds:", after), cat(static_cast<bool>(s.t), " expected ", s.id.has_value(), " kind ", kind_name(s.kind)));
  if (!s.id) return;
  auto &b = g_book[*s.id];
  if (b.live != (has_life(s.kind) ? 1 : 0) || b.runs != 0) viol(cat("task:kept:", after), cat("kind ", kind_name(s.kind), " live ", b.live.load(), " runs ", b.runs.load()));
  if (b.bad) viol(cat("task:object:", kind_name(s.kind)), cat("after ", after, " flags ", b.bad.load(), " (1 alignment, 2 moved from, 4 destroyed, 8 run: not the object that was made)"));
}
static void gone(unsigned id, unsigned kind, int runs, const char *after) {
  auto &b = g_book[id];
  if (b.live != 0) viol(cat("task:not-destroyed:", after), cat("kind ", kind_name(kind), " live ", b.live.load()));
  if (b.runs != runs) viol(cat("task:runs:", after), cat("kind ", kind_name(kind), " ran ", b.runs.load(), " expected ", runs));
  if (b.bad) viol(cat("task:object:", kind_name(kind)), cat("after ", after, " flags ", b.bad.load()));
}

static void program_case(Rng &g) {
  restart();
  std::vector<std::unique_ptr<Slot>> s;
  unsigned n = g.range(1, 6);
  for (unsigned i = 0; i < n; ++i) s.push_back(std::make_unique<Slot>());
  uint64_t h = n;
  unsigned steps = g.range(5, 80);
  for (unsigned k = 0; k < steps && viol_count() == 0; ++k) {
    auto &a = *s[g.below(n)];
    unsigned op = g.below(10);
    h = hash_mix(h, op);
    switch (op) {
      case 0: case 1: case 2: {  // a new callable over whatever was there
        unsigned kind = g.below(kKinds);
        bool th = !is_coro(kind) && g.chance(1, 3);
        auto id = fresh();
        auto old = a.id;
        auto oldk = a.kind;
        a.t = make(kind, id, th);
        a.id = id; a.kind = kind; a.throws = th;
        if (old) gone(*old, oldk, 0, "replace");
        h = hash_mix(h, kind);
        count(cat("made_", kind_name(kind)));
        break;
      }
      case 3: case 4: {  // moved over another, or over itself
        auto &b = *s[g.below(n)];
        if (&a == &b) { auto &r = a.t; a.t = std::move(r); count("self_moves"); check(a, "self-move"); break; }
        auto old = a.id; auto oldk = a.kind;
        a.t = std::move(b.t);
        a.id = b.id; a.kind = b.kind; a.throws = b.throws;
        b.id.reset();
        if (old) gone(*old, oldk, 0, "assign");
        if (a.id) count("moves");
        break;
      }
      case 5: {  // moved through others and back
        Task x{std::move(a.t)};
        if (static_cast<bool>(a.t)) viol("task:holds:moved-from", kind_name(a.kind));
        std::vector<Task> v;
        v.push_back(std::move(x));
        for (unsigned i = 0, m = g.below(4); i < m; ++i) v.emplace_back(plain_function);
        std::swap(v.front(), v.back());
        std::swap(v.front(), v.back());
        a.t = std::move(v.front());
        count("moves");
        break;
      }
      case 6: case 7: {  // run
        auto id = a.id;
        bool threw = false;
        unsigned which = 0;
        try { a.t(); } catch (const Boom &e) { threw = true; which = e.id; }
        if (id) {
          if (threw != a.throws || (threw && which != *id)) viol("task:exception", cat(kind_name(a.kind), " threw ", threw, " expected ", a.throws));
          a.id.reset();
          gone(*id, a.kind, 1, threw ? "run-threw" : "run");
          count(threw ? "runs_threw" : "runs");
          if (is_coro(a.kind)) count("coroutines_run");
        } else if (threw) viol("task:exception", "an empty task threw");
        else count("empty_runs");
        break;
      }
      case 8: {
        auto id = a.id;
        a.t.clear();
        a.id.reset();
        if (id) { gone(*id, a.kind, 0, "clear"); count("dropped"); if (is_coro(a.kind)) count("coroutines_dropped"); }
        break;
      }
      default: {  // destroyed with what it holds
        auto id = a.id; auto kind = a.kind;
        for (auto &p : s) if (p.get() == &a) { p = std::make_unique<Slot>(); break; }
        if (id) { gone(*id, kind, 0, "destroy"); count("dropped"); }
      }
    }
    for (auto &p : s) check(*p, "step");
    eval();
  }
  for (auto &p : s) { auto id = p->id; auto kind = p->kind; p.reset(); if (id) gone(*id, kind, 0, "destroy"); }
  distinct(h);
}

// What is known of a task's content by type, and plain functions and values.
static void contains_case(Rng &g) {
  int x = static_cast<int>(g.below(1000)), got = -1;
  auto lam = [x, &got] { got = x; };
  Task t{lam};
  if (!t.contains<decltype(lam)>() || t.contains<void (*)()>() || t.contains<std::coroutine_handle<void>>()) viol("task:contains", "lambda");
  Task u{std::move(t)};
  if (t || t.contains<decltype(lam)>() || !u.contains<decltype(lam)>()) viol("task:contains", "moved lambda");
  u();
  if (got != x) viol("task:value", cat(got, " expected ", x));
  if (u || u.contains<decltype(lam)>()) viol("task:contains", "run lambda");
  g_plain_runs = 0;
  Task f{counted_function};
  if (!f.contains<void (*)()>()) viol("task:contains", "function");
  Task f2;
  f2 = std::move(f);
  f2(); f2(); f();
  if (g_plain_runs != 1) viol("task:runs:function", cat("ran ", g_plain_runs.load()));
  restart();
  auto id = fresh();
  Task c{std::coroutine_handle<void>{body_coro(id).h}};
  if (!c.contains<std::coroutine_handle<void>>() || c.contains<void (*)()>()) viol("task:contains", "coroutine");
  Task c2{std::move(c)};
  if (c.contains<std::coroutine_handle<void>>() || !c2.contains<std::coroutine_handle<void>>()) viol("task:contains", "moved coroutine");
  if (g.chance(1, 2)) { c2(); gone(id, 11, 1, "run"); } else { c2.clear(); gone(id, 11, 0, "clear"); }
  // A value of every size lives through moves whole.
  auto sized = [&]<size_t N>(std::integral_constant<size_t, N>) {
    std::array<uint8_t, N> a{};
    for (size_t i = 0; i < N; ++i) a[i] = static_cast<uint8_t>(x + i * 13);
    bool ok = false;
    Task s{[a, x, &ok] { ok = true; for (size_t i = 0; i < N; ++i) ok &= a[i] == static_cast<uint8_t>(x + i * 13); }};
    Task m{std::move(s)};
    Task o{plain_function};
    o = std::move(m);
    Task *p = new Task{std::move(o)};
    (*p)();
    delete p;
    if (!ok) viol("task:value", cat("size ", N));
    eval();
  };
  [&]<size_t... I>(std::index_sequence<I...>) { (sized(std::integral_constant<size_t, I * 3 + 1>{}), ...); }(std::make_index_sequence<26>{});
  count("values_checked", 26);
  distinct(hash_mix(7, x));
}

// The same callables through the executors, and arguments with them.
static void executors_case(Rng &g) {
  restart();
  unsigned which = g.below(5);
  std::shared_ptr<pc::executor::Basic> e;
  std::shared_ptr<pc::executor::Manual> manual;
  switch (which) {
    case 0: e = std::make_shared<pc::executor::Inline>(); break;
    case 1: e = std::make_shared<pc::executor::Thread>(); break;
    case 2: e = std::make_shared<pc::executor::WorkerThread>(); break;
    case 3: e = std::make_shared<pc::executor::ThreadPool>("p33", g.range(1, 4), 1s); break;
    default: e = manual = std::make_shared<pc::executor::Manual>();
  }
  struct One { unsigned id, kind; };
  std::vector<One> all;
  unsigned n = g.range(1, 40);
  std::atomic<int> args_ok{0}, args_bad{0};
  int args = 0;
  std::vector<Task> batch;
  for (unsigned i = 0; i < n; ++i) {
    unsigned kind = g.below(kKinds);
    auto id = fresh();
    all.push_back({id, kind});
    if (g.chance(1, 2)) e->enqueue(make(kind, id, false));
    else batch.push_back(make(kind, id, false));
    if (!batch.empty() && (g.chance(1, 4) || i + 1 == n)) {
      std::span<Task> sp{batch};
      e->enqueue(sp);
      batch.clear();
      count("batches");
    }
    if (g.chance(1, 3)) {
      ++args;
      int a = static_cast<int>(g.below(100000));
      std::string s = cat("argument ", a, std::string(g.below(60), '.'));
      auto f = [a, s, &args_ok, &args_bad](int x, const std::string &y, std::vector<int> z) { (x == a && y == s && z == std::vector<int>{a, a + 1} ? args_ok : args_bad)++; };
      std::vector<int> v{a, a + 1};
      if (g.chance(1, 2)) e->post(f, a, s, v);
      else e->post(std::move(f), a, std::move(s), std::move(v));
    }
  }
  if (!batch.empty()) { std::span<Task> sp{batch}; e->enqueue(sp); batch.clear(); }
  unsigned keep = 0;
  if (manual) {
    unsigned total = n + args;
    keep = g.chance(1, 2) ? g.below(total + 1) : 0;
    if (manual->loop(total - keep) != total - keep) viol("task:manual-count", "");
  } else {
    auto left = [&] { int r = args - args_ok - args_bad; for (auto &o : all) if (g_book[o.id].runs == 0 || g_book[o.id].live != 0) ++r; return r; };
    if (!wait_until([&] { return left() == 0; }, 25000)) {
      for (auto &o : all) if (g_book[o.id].live != 0 && g_book[o.id].runs != 0) { viol("task:not-destroyed:executor", kind_name(o.kind)); return; }
      stuck("tasks not run");
    }
  }
  e->shutdown();
  unsigned ran = 0, not_ran = 0;
  for (auto &o : all) {
    auto r = g_book[o.id].runs.load();
    if (r > 1) viol("task:runs:executor", cat(kind_name(o.kind), " ran ", r));
    if (g_book[o.id].live != 0) viol("task:not-destroyed:executor", cat(kind_name(o.kind), " live ", g_book[o.id].live.load(), " ran ", r));
    if (g_book[o.id].bad) viol(cat("task:object:", kind_name(o.kind)), cat("in an executor, flags ", g_book[o.id].bad.load()));
    (r ? ran : not_ran)++;
    eval();
  }
  if (args_bad) viol("post:arguments", cat(args_bad.load(), " calls got others"));
  if (ran + args_ok + not_ran + (args - args_ok) != n + args || ran + args_ok != n + args - keep) viol("task:runs:executor", cat("ran ", ran + args_ok, " of ", n + args, ", ", keep, " kept back"));
  count("executor_runs", ran);
  count("posts_with_arguments", args);
  if (not_ran) count("executor_drops", not_ran);
  distinct(hash_mix(hash_mix(9, which), hash_mix(n, args)));
}

int main(int argc, char **argv) {
  init(argc, argv);
  g_book = new Book[kMax];
  struct { const char *name; void (*f)(Rng &); } all[] = {{"program", program_case}, {"contains", contains_case}, {"executors", executors_case}};
  uint64_t salt = 0;
  for (auto &s : all) {
    ++salt;
    if (!selected(s.name)) continue;
    scenario(s.name);
    for (uint64_t i = 0; i < opt.scale && viol_count() == 0; ++i) {
      Rng g{opt.seed * 1000003 + salt * 7919 + i};
      progress();
      s.f(g);
    }
  }
  auto r = finish();
  delete[] g_book;
  return r;
}
