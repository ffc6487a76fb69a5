// P27 memory pool and stack allocator, P28 thread pool, task queue and thread helper.
#include "common.h"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <future>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "plain/basic/logger.h"
#include "plain/basic/task_queue.h"
#include "plain/sys/memory/pool.h"
#include "plain/sys/memory/stack_allocator.h"
#include "plain/sys/thread.h"
using namespace vf;
using plain::memory::Pool;

// ---------------------------------------------------------------- the pool
// A block given out by a pool: who wrote it and with what.
struct Block {
  unsigned char *p{nullptr};
  size_t n{0};
  unsigned char mark{0};
  uint64_t id{0};
  void fill() {
    for (size_t i = 0; i < n; ++i) p[i] = static_cast<unsigned char>(mark + i * 7);
  }
  bool intact() const {
    for (size_t i = 0; i < n; ++i)
      if (p[i] != static_cast<unsigned char>(mark + i * 7)) return false;
    return true;
  }
};

// All blocks in use, so that an overlap is seen when a block is given out.
struct Live {
  std::mutex m;
  std::map<uintptr_t, size_t> blocks;
  bool add(const Block &b) {
    std::lock_guard<std::mutex> l{m};
    auto lo = reinterpret_cast<uintptr_t>(b.p), hi = lo + std::max<size_t>(b.n, 1);
    auto it = blocks.upper_bound(lo);
    if (it != blocks.end() && it->first < hi) return false;
    if (it != blocks.begin()) {
      --it;
      if (it->first + it->second > lo) return false;
    }
    blocks.emplace(lo, std::max<size_t>(b.n, 1));
    return true;
  }
  void drop(const Block &b) {
    std::lock_guard<std::mutex> l{m};
    blocks.erase(reinterpret_cast<uintptr_t>(b.p));
  }
};

static size_t block_size(Rng &g, size_t leaf) {
  switch (g.below(8)) {
    case 0: return 0;
    case 1: return 1 + g.below(8);
    case 2: return leaf > 64 ? leaf - 64 + g.below(96) : g.below(64);
    case 3: return leaf / 2 + g.below(32);
    default: return 1 + g.below(std::max<size_t>(leaf / 8, 2));
  }
}

// Threads allocate, write, hand blocks over to each other and free them.
template <class P>
static void pool_threads_of(uint64_t seed, size_t leaf, bool os, const char *kind) {
  Rng g{seed};
  auto pool = std::make_unique<P>();
  Live live;
  std::mutex hm;
  std::vector<Block> handed;
  std::atomic<uint64_t> ids{0}, given{0}, refused{0}, crossed{0};
  int n = static_cast<int>(g.range(1, 6)), ops = static_cast<int>(g.range(50, 600));
  bool small = g.chance(1, 2);
  std::vector<std::thread> ts;
  std::string ctx = cat("seed ", seed, " ", kind, " threads ", n);
  auto give_back = [&](Block b) {
    if (!b.intact()) viol("pool:content", cat(ctx, " block of ", b.n));
    bool in = false;
    try {
      in = b.n == 0 || pool->check_access(b.p, b.p, b.n);
    } catch (const std::range_error &) {}
    if (!in) viol("pool:access-refused", cat(ctx, " block of ", b.n));
    live.drop(b);
    try {
      pool->free(b.p);
    } catch (const std::range_error &e) {
      viol("pool:free-refused", cat(ctx, " block of ", b.n, ": ", e.what()));
    }
  };
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      Rng r{seed * 131 + static_cast<uint64_t>(t)};
      std::vector<Block> own;
      for (int i = 0; i < ops; ++i) {
        perturb_point(53);
        if (own.empty() || r.chance(1, 2)) {
          Block b;
          b.n = small ? r.below(64) : block_size(r, leaf);
          b.mark = static_cast<unsigned char>(r.next());
          try {
            b.p = static_cast<unsigned char *>(pool->malloc(b.n));
          } catch (const std::range_error &) {
            if (os) viol("pool:malloc-throws", ctx);
          }
          if (!b.p) {
            if (os) viol("pool:malloc-null", cat(ctx, " size ", b.n));
            ++refused;
            continue;
          }
          ++given;
          if (reinterpret_cast<uintptr_t>(b.p) % alignof(std::max_align_t)) viol("pool:alignment", cat(ctx, " size ", b.n));
          if (!live.add(b)) viol("pool:overlap", cat(ctx, " size ", b.n));
          b.fill();
          own.push_back(b);
        } else if (r.chance(1, 3)) {
          Block b = own.back();
          own.pop_back();
          std::lock_guard<std::mutex> l{hm};
          handed.push_back(b);
        } else if (r.chance(1, 3)) {
          Block b;
          {
            std::lock_guard<std::mutex> l{hm};
            if (handed.empty()) continue;
            b = handed.back();
            handed.pop_back();
          }
          ++crossed;
          give_back(b);
        } else {
          auto k = r.below(own.size());
          Block b = own[k];
          own.erase(own.begin() + static_cast<long>(k));
          give_back(b);
        }
      }
      for (auto &b : own) give_back(b);
    });
  for (auto &t : ts) t.join();
  for (auto &b : handed) give_back(b);
  handed.clear();
  count("pool_blocks", given);
  count("pool_freed_by_another_thread", crossed);
  count("pool_full", refused);
  eval();
  distinct(hash_mix(hash_str(kind), given * 31 + refused));
}

// Everything freed: the whole capacity is there again, as often as you like.
static void pool_capacity(uint64_t seed) {
  constexpr int leaf = 4096, leaves = 4;
  using P = Pool<leaf, leaves, 256, false, true>;
  Rng g{seed};
  P pool;
  size_t first = 0;
  size_t size = 1 + g.below(900);
  std::string ctx = cat("seed ", seed, " size ", size);
  for (int round = 0; round < 6; ++round) {
    std::vector<Block> bs;
    for (;;) {
      Block b;
      b.n = size;
      b.mark = static_cast<unsigned char>(g.next());
      try {
        b.p = static_cast<unsigned char *>(pool.malloc(size));
      } catch (const std::range_error &) {
        break;
      }
      if (!b.p) break;
      b.fill();
      bs.push_back(b);
      if (bs.size() > 5000) break;
    }
    // the size of a block and its book-keeping, generously
    size_t least = (leaf / (size + 64)) * leaves;
    if (bs.size() < least) viol("pool:capacity", cat(ctx, " ", bs.size(), " of ", least, " round ", round));
    if (bs.size() * size > static_cast<size_t>(leaf) * leaves) viol("pool:more-than-it-has", cat(ctx, " ", bs.size()));
    if (round == 0) first = bs.size();
    if (bs.size() != first) viol("pool:capacity-lost", cat(ctx, " round ", round, ": ", bs.size(), " of ", first));
    for (auto &b : bs)
      if (!b.intact()) viol("pool:content", ctx);
    // freed in any order
    while (!bs.empty()) {
      auto k = g.chance(1, 3) ? bs.size() - 1 : g.below(bs.size());
      pool.free(bs[k].p);
      bs.erase(bs.begin() + static_cast<long>(k));
    }
    count("pool_refilled");
  }
  eval();
  distinct(size);
}

// What is not a block of this pool is not freed, what is outside not accessed.
static void pool_guards(uint64_t seed) {
  Rng g{seed};
  using P = Pool<4096, 4, 256, true, true>;
  using Q = Pool<4096, 4, 256, true, false>;
  auto a = std::make_unique<P>(), b = std::make_unique<P>();
  auto q = std::make_unique<Q>();
  auto throws = [](auto f) {
    try {
      f();
    } catch (const std::range_error &) {
      return true;
    }
    return false;
  };
  std::string ctx = cat("seed ", seed);
  for (int i = 0; i < 20; ++i) {
    bool os = g.chance(1, 3);  // too big for a leaf
    size_t n = os ? 4097 + g.below(6000) : 1 + g.below(3000);
    auto p = static_cast<char *>(a->malloc(n));
    auto z = static_cast<char *>(q->malloc(n));
    if (!p || !z) return viol("pool:malloc-null", ctx);
    memset(p, 'x', n);
    memset(z, 'x', n);
    if (!os && !throws([&] { b->free(p); })) viol("pool:other-pool-free", cat(ctx, " size ", n));
    if (p[0] != 'x' || p[n - 1] != 'x') viol("pool:content", ctx);
    size_t at = g.below(n), len = 1 + g.below(n - at);
    bool ok = false;
    if (throws([&] { ok = a->check_access(p, p + at, len); }) || !ok) viol("pool:access-refused", cat(ctx, " ", at, "+", len, " of ", n));
    if (!q->check_access(z, z + at, len)) viol("pool:access-refused", cat(ctx, " ", at, "+", len, " of ", n, " quiet"));
    size_t over = n - at + 1 + g.below(g.chance(1, 2) ? 4 : 64);
    if (!throws([&] { a->check_access(p, p + at, over); })) viol("pool:access-outside", cat(ctx, " ", at, "+", over, " of ", n));
    if (q->check_access(z, z + at, over)) viol("pool:access-outside", cat(ctx, " ", at, "+", over, " of ", n, " quiet"));
    if (!throws([&] { a->check_access(p, p - 1 - g.below(8), 1); })) viol("pool:access-before", cat(ctx, " of ", n));
    if (os) count("pool_os_accesses_checked", 3);
    else if (!throws([&] { b->check_access(p, p, 1); })) viol("pool:other-pool-access", cat(ctx, " of ", n));
    count("pool_accesses_checked", 5);
    a->free(p);
    q->free(z);
    // memory of no pool
    std::vector<uint64_t> own(64, g.chance(1, 2) ? 0 : g.next());
    if (!throws([&] { a->free(&own[32]); })) viol("pool:foreign-free", ctx);
    q->free(&own[32]);
    count("pool_foreign_refused", 2);
  }
  // a block freed twice while its memory is not in use again
  {
    auto keep = a->malloc(16);
    auto p = a->malloc(16);
    a->free(p);
    if (!throws([&] { a->free(p); })) viol("pool:double-free", ctx);
    a->free(keep);
  }
  // sizes which can not be kept
  for (size_t n : {std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() - 15, size_t{1} << 32, (size_t{1} << 32) + 8, (size_t{1} << 31) - 8, size_t{1} << 31, std::numeric_limits<size_t>::max() / 2}) {
    void *p = nullptr;
    try {
      p = a->malloc(n);
    } catch (const std::exception &) {}
    if (p && n > (size_t{1} << 33)) viol("pool:huge", cat(ctx, " ", n));
    if (p) {
      // it must be all there
      static_cast<char *>(p)[0] = 1;
      static_cast<char *>(p)[n - 1] = 1;
      a->free(p);
    }
    count("pool_huge");
  }
  eval();
  distinct(seed);
}

static void pool_random(uint64_t seed) {
  switch (seed % 4) {
    case 0: return pool_threads_of<Pool<4096, 4, 256, true, true>>(seed, 4096, true, "4096x4+os");
    case 1: return pool_threads_of<Pool<4096, 4, 256, false, true>>(seed, 4096, false, "4096x4");
    case 2: return pool_threads_of<Pool<512, 2, 64, false, false>>(seed, 512, false, "512x2 quiet");
    default: return pool_threads_of<Pool<1000, 1, 32, true, true>>(seed, 1000, true, "1000x1+os");
  }
}

// Containers over the pool's allocator and the stack.
struct Counted {
  static inline std::atomic<long> alive{0};
  std::string v;
  Counted() { ++alive; }
  Counted(std::string s) : v{std::move(s)} { ++alive; }
  Counted(const Counted &o) : v{o.v} { ++alive; }
  Counted &operator=(const Counted &) = default;
  ~Counted() { --alive; }
};
static void pool_containers(uint64_t seed) {
  Rng g{seed};
  using namespace plain::memory;
  {
    std::vector<int, PoolAllocator<int>> v;
    std::map<int, std::string, std::less<int>, PoolAllocator<std::pair<const int, std::string>>> m;
    std::list<std::string, PoolAllocator<std::string>> l;
    std::vector<int> rv;
    std::map<int, std::string> rm;
    std::list<std::string> rl;
    for (int i = 0; i < 300; ++i) {
      int k = static_cast<int>(g.below(100));
      std::string s(g.below(80), static_cast<char>('a' + g.below(26)));
      switch (g.below(6)) {
        case 0: m[k] = s; rm[k] = s; break;
        case 1: m.erase(k); rm.erase(k); break;
        case 2: l.push_back(s); rl.push_back(s); break;
        case 3: if (!rl.empty()) { l.pop_front(); rl.pop_front(); } break;
        default: v.push_back(k); rv.push_back(k);
      }
    }
    if (!std::equal(v.begin(), v.end(), rv.begin(), rv.end())) viol("pool:vector", cat("seed ", seed));
    if (!std::equal(m.begin(), m.end(), rm.begin(), rm.end())) viol("pool:map", cat("seed ", seed));
    if (!std::equal(l.begin(), l.end(), rl.begin(), rl.end())) viol("pool:list", cat("seed ", seed));
    count("pool_container_operations", 300);
  }
  {
    // pools of their own
    using P = Pool<4096, 4, 256, true, true>;
    auto a = std::make_unique<P>(), b = std::make_unique<P>();
    using V = std::vector<std::string, PoolAllocator<std::string, P>>;
    using M = std::map<int, std::string, std::less<int>, PoolAllocator<std::pair<const int, std::string>, P>>;
    V va{PoolAllocator<std::string, P>{a.get()}}, vb{PoolAllocator<std::string, P>{b.get()}};
    M ma{PoolAllocator<std::pair<const int, std::string>, P>{a.get()}}, mb{PoolAllocator<std::pair<const int, std::string>, P>{b.get()}};
    std::vector<std::string> ra, rb;
    std::map<int, std::string> sa, sb;
    auto in = [&](P &pool, const void *p, size_t n) {
      try {
        return pool.check_access(const_cast<void *>(p), const_cast<void *>(p), n);
      } catch (const std::range_error &) {
        return false;
      }
    };
    for (int i = 0; i < 120; ++i) {
      int k = static_cast<int>(g.below(40));
      std::string t(g.below(60), static_cast<char>('a' + g.below(26)));
      switch (g.below(9)) {
        case 0: va.push_back(t); ra.push_back(t); break;
        case 1: vb.push_back(t); rb.push_back(t); break;
        case 2: ma[k] = t; sa[k] = t; break;
        case 3: mb[k] = t; sb[k] = t; break;
        case 4: ma.erase(k); sa.erase(k); break;
        case 5: va = vb; ra = rb; break;
        case 6: mb = ma; sb = sa; break;
        case 7: if (g.chance(1, 4)) { V c{vb}; va = std::move(c); ra = rb; } break;
        case 8: if (g.chance(1, 4)) { M c{mb}; ma = std::move(c); sa = sb; } break;
      }
      if (!vb.empty() && !in(*b, vb.data(), sizeof(std::string))) viol("pool:injected-pool-unused", cat("seed ", seed));
    }
    if (!std::equal(va.begin(), va.end(), ra.begin(), ra.end()) || !std::equal(vb.begin(), vb.end(), rb.begin(), rb.end())) viol("pool:own-vector", cat("seed ", seed));
    if (!std::equal(ma.begin(), ma.end(), sa.begin(), sa.end()) || !std::equal(mb.begin(), mb.end(), sb.begin(), sb.end())) viol("pool:own-map", cat("seed ", seed));
    count("pool_own_containers");
  }
  long before = Counted::alive;
  {
    StackAllocator<Counted> s;
    StackAllocator<Counted, PoolAllocator<Counted>> ps;
    std::vector<std::string> ref;
    for (int i = 0; i < 300; ++i) {
      if (s.empty() != ref.empty() || ps.empty() != ref.empty()) viol("stack:empty", cat("seed ", seed));
      if (ref.empty() || g.chance(3, 5)) {
        std::string t(g.below(60), static_cast<char>('a' + g.below(26)));
        ref.push_back(t);
        s.push(Counted{t});
        ps.push(Counted{t});
      } else if (g.chance(1, 40)) {
        s.clear();
        ps.clear();
        ref.clear();
        if (Counted::alive != before) viol("stack:clear-keeps", cat("seed ", seed, " ", Counted::alive - before));
      } else {
        if (s.top().v != ref.back() || ps.top().v != ref.back()) viol("stack:top", cat("seed ", seed));
        if (s.pop().v != ref.back() || ps.pop().v != ref.back()) viol("stack:order", cat("seed ", seed));
        ref.pop_back();
      }
    }
    count("stack_operations", 300);
  }
  if (Counted::alive != before) viol("stack:elements-left", cat("seed ", seed, " ", Counted::alive - before));
  eval();
  distinct(seed);
}

// ---------------------------------------------------------------- threads
struct Oops : std::runtime_error { using runtime_error::runtime_error; };

static void threadpool_case(uint64_t seed) {
  Rng g{seed};
  int workers = static_cast<int>(g.range(1, 6)), feeders = static_cast<int>(g.range(1, 5));
  int per = static_cast<int>(g.range(1, 120));
  bool wait_first = g.chance(1, 2), nested = g.chance(1, 3);
  std::string ctx = cat("seed ", seed, " workers ", workers, " feeders ", feeders, " tasks ", per);
  size_t total = static_cast<size_t>(feeders) * static_cast<size_t>(per);
  std::vector<std::atomic<int>> ran(total);
  std::vector<std::atomic<int>> ran2(total);
  std::atomic<int> inside{0}, most{0}, refused{0};
  struct Got { std::future<uint64_t> f; size_t id; bool fails; };
  std::mutex gm;
  std::vector<Got> got;
  {
    plain::ThreadPool pool{static_cast<size_t>(workers)};
    std::vector<std::thread> ts;
    for (int t = 0; t < feeders; ++t)
      ts.emplace_back([&, t] {
        Rng r{seed * 77 + static_cast<uint64_t>(t)};
        for (int i = 0; i < per; ++i) {
          size_t id = static_cast<size_t>(t * per + i);
          bool fails = r.chance(1, 6), again = nested && r.chance(1, 4);
          perturb_point(54);
          auto f = pool.enqueue([&, fails, again](size_t k, const std::string &text) {
            if (text != std::string(k % 50, 's')) viol("threadpool:argument", ctx);
            int now = ++inside;
            int old = most;
            while (now > old && !most.compare_exchange_weak(old, now)) {}
            ++ran[k];
            perturb_point(55);
            if (again) {
              try {
                pool.enqueue([&ran2, k] { ++ran2[k]; });
              } catch (const std::runtime_error &) {
                ++refused;
                ++ran2[k];
              }
            } else ++ran2[k];
            --inside;
            if (fails) throw Oops{std::to_string(k)};
            return static_cast<uint64_t>(k) * 3 + 1;
          }, id, std::string(id % 50, 's'));
          std::lock_guard<std::mutex> l{gm};
          got.push_back({std::move(f), id, fails});
        }
      });
    for (auto &t : ts) t.join();
    if (wait_first)
      for (auto &x : got)
        if (x.f.wait_for(std::chrono::seconds{60}) != std::future_status::ready) stuck("threadpool: a task is not run");
  }
  for (auto &x : got) {
    if (x.f.wait_for(std::chrono::seconds{0}) != std::future_status::ready) {
      viol("threadpool:not-run", cat(ctx, " task ", x.id));
      continue;
    }
    try {
      auto v = x.f.get();
      if (x.fails) viol("threadpool:exception-lost", cat(ctx, " task ", x.id));
      else if (v != x.id * 3 + 1) viol("threadpool:result", cat(ctx, " task ", x.id, " ", v));
    } catch (const Oops &e) {
      if (!x.fails || e.what() != std::to_string(x.id)) viol("threadpool:exception", cat(ctx, " task ", x.id, " ", e.what()));
      count("threadpool_exceptions");
    } catch (const std::exception &e) {
      viol("threadpool:exception", cat(ctx, " task ", x.id, " ", e.what()));
    }
  }
  for (size_t k = 0; k < total; ++k) {
    if (ran[k] != 1) viol("threadpool:count", cat(ctx, " task ", k, " ran ", ran[k].load()));
    if (ran2[k] != 1) viol("threadpool:nested-count", cat(ctx, " task ", k, " ran ", ran2[k].load()));
  }
  if (most > workers) viol("threadpool:too-many", cat(ctx, " at once ", most.load()));
  if (wait_first) count("threadpool_waited"); else count("threadpool_destroyed_with_queued");
  if (refused) count("threadpool_refused_when_stopped", static_cast<uint64_t>(refused.load()));
  count("threadpool_tasks", total);
  eval();
  distinct(hash_mix(hash_mix(total, static_cast<uint64_t>(workers)), static_cast<uint64_t>(wait_first * 2 + nested)));
}

// All workers are needed at once: each of them has to be woken.
static void threadpool_rendezvous(uint64_t seed) {
  Rng g{seed};
  int workers = static_cast<int>(g.range(1, 6));
  plain::ThreadPool pool{static_cast<size_t>(workers)};
  for (int round = 0; round < 10; ++round) {
    std::mutex m;
    std::condition_variable cv;
    int in = 0;
    bool late = false;
    std::vector<std::future<void>> fs;
    for (int i = 0; i < workers; ++i)
      fs.push_back(pool.enqueue([&] {
        std::unique_lock<std::mutex> l{m};
        ++in;
        cv.notify_all();
        if (!cv.wait_for(l, std::chrono::seconds{40}, [&] { return in >= workers; })) late = true;
      }));
    for (auto &f : fs) f.wait();
    if (late) stuck("threadpool: idle workers while tasks are queued");
    count("threadpool_rendezvous");
  }
  eval();
  distinct(static_cast<uint64_t>(workers));
}

static void queue_case(uint64_t seed) {
  Rng g{seed};
  int feeders = static_cast<int>(g.range(1, 5)), takers = static_cast<int>(g.range(1, 3)), per = static_cast<int>(g.range(1, 150));
  std::string ctx = cat("seed ", seed, " feeders ", feeders, " takers ", takers, " tasks ", per);
  size_t total = static_cast<size_t>(feeders * per);
  std::vector<std::atomic<int>> ran(total);
  std::mutex om;
  std::vector<size_t> order;
  struct Got { std::future<size_t> f; size_t id; bool fails; };
  std::vector<Got> got;
  std::mutex gm;
  int left = 0;
  {
    plain::TaskQueue q;
    if (q.work_one()) viol("queue:empty-worked", ctx);
    std::atomic<bool> done{false};
    std::vector<std::thread> ts;
    for (int t = 0; t < takers; ++t)
      ts.emplace_back([&, t] {
        Rng r{seed * 91 + static_cast<uint64_t>(t)};
        while (!done) {
          perturb_point(56);
          if (r.chance(1, 2)) q.work_all();
          else if (!q.work_one()) std::this_thread::yield();
        }
      });
    std::vector<std::thread> fs;
    for (int t = 0; t < feeders; ++t)
      fs.emplace_back([&, t] {
        Rng r{seed * 77 + static_cast<uint64_t>(t)};
        for (int i = 0; i < per; ++i) {
          size_t id = static_cast<size_t>(t * per + i);
          bool fails = r.chance(1, 8);
          perturb_point(57);
          auto f = q.enqueue([&, fails](size_t k) {
            ++ran[k];
            if (takers == 1) {
              std::lock_guard<std::mutex> l{om};
              order.push_back(k);
            }
            if (fails) throw Oops{std::to_string(k)};
            return k + 5;
          }, id);
          std::lock_guard<std::mutex> l{gm};
          got.push_back({std::move(f), id, fails});
        }
      });
    for (auto &t : fs) t.join();
    bool drain = g.chance(1, 2);
    if (drain) {
      for (auto &x : got)
        if (x.f.wait_for(std::chrono::seconds{60}) != std::future_status::ready) stuck("queue: a task is not run");
    }
    done = true;
    for (auto &t : ts) t.join();
    for (auto &x : got)
      if (x.f.wait_for(std::chrono::seconds{0}) != std::future_status::ready) ++left;
  }
  if (left) count("queue_destroyed_with_queued");
  {  // functions which enqueue others: all of them are worked, in order
    std::vector<int> seq;
    std::vector<std::future<void>> fs;
    int first = static_cast<int>(g.range(1, 4)), depth = static_cast<int>(g.range(1, 5)), next = 0;
    plain::TaskQueue q;
    std::function<void(int, int)> work = [&](int id, int d) {
      seq.push_back(id);
      if (d > 0) fs.push_back(q.enqueue(work, next++, d - 1));
    };
    for (int i = 0; i < first; ++i) fs.push_back(q.enqueue(work, next++, depth));
    q.work_all();
    bool inorder = static_cast<int>(seq.size()) == first * (depth + 1);
    for (size_t i = 0; i < seq.size(); ++i) inorder = inorder && seq[i] == static_cast<int>(i);
    if (!inorder) viol("queue:nested", cat(ctx, " ", seq.size(), " of ", first * (depth + 1), " nested functions were worked in order"));
    if (q.work_one()) viol("queue:nested", ctx + " some were left");
    count("queue_nested", seq.size());
  }
  for (auto &x : got) {
    if (x.f.wait_for(std::chrono::seconds{0}) != std::future_status::ready) {
      viol("queue:not-run", cat(ctx, " task ", x.id));
      continue;
    }
    try {
      auto v = x.f.get();
      if (x.fails || v != x.id + 5) viol("queue:result", cat(ctx, " task ", x.id));
    } catch (const Oops &e) {
      if (!x.fails || e.what() != std::to_string(x.id)) viol("queue:exception", cat(ctx, " task ", x.id));
    } catch (const std::exception &e) {
      viol("queue:exception", cat(ctx, " task ", x.id, " ", e.what()));
    }
  }
  for (size_t k = 0; k < total; ++k)
    if (ran[k] != 1) viol("queue:count", cat(ctx, " task ", k, " ran ", ran[k].load()));
  // one taker: the tasks of one feeder in the order they were put in
  std::vector<size_t> last(static_cast<size_t>(feeders), 0);
  for (auto k : order) {
    auto f = k / static_cast<size_t>(per), i = k % static_cast<size_t>(per) + 1;
    if (i != last[f] + 1) { viol("queue:order", cat(ctx, " feeder ", f, " ", i, " after ", last[f])); break; }
    last[f] = i;
  }
  if (takers == 1) count("queue_orders");
  count("queue_tasks", total);
  eval();
  distinct(hash_mix(total, static_cast<uint64_t>(takers)));
}

static void thread_case(uint64_t seed) {
  Rng g{seed};
  int n = static_cast<int>(g.range(1, 6));
  std::vector<std::atomic<int>> calls(static_cast<size_t>(n)), wants(static_cast<size_t>(n));
  std::vector<std::atomic<int>> args(static_cast<size_t>(n));
  auto before = plain::ThreadCollect::count();
  {
    std::vector<plain::thread_t> ts;
    for (int i = 0; i < n; ++i) {
      auto k = static_cast<size_t>(i);
      bool once = g.chance(1, 3);
      int times = once ? 1 : static_cast<int>(g.range(1, 20));
      wants[k] = times;
      std::string name(g.below(14) + 1, 'n');
      if (once)
        ts.push_back(plain::thread::create(name, [&calls, &args, k](int a) { ++calls[k]; args[k] += a; }, i + 1));
      else
        ts.push_back(plain::thread::create(name, [&calls, &args, &wants, k](int a) -> bool {
          perturb_point(58);
          args[k] += a;
          return ++calls[k] < wants[k];
        }, i + 1));
    }
    for (auto &t : ts) {
      auto until = std::chrono::steady_clock::now() + std::chrono::seconds{60};
      (void)until;
      t.join();
    }
  }
  for (int i = 0; i < n; ++i) {
    auto k = static_cast<size_t>(i);
    if (calls[k] != wants[k]) viol("thread:calls", cat("seed ", seed, " called ", calls[k].load(), " of ", wants[k].load()));
    if (args[k] != wants[k] * (i + 1)) viol("thread:arguments", cat("seed ", seed));
  }
  // Threads that would go on until they are told to stop.
  {
    struct Loop { std::atomic<int> calls{0}, inside{0}; };
    std::vector<plain::thread_t> ts;
    std::vector<std::shared_ptr<Loop>> loops;
    int m = static_cast<int>(g.range(1, 4));
    for (int i = 0; i < m; ++i) {
      auto x = std::make_shared<Loop>();
      loops.push_back(x);
      ts.push_back(plain::thread::create("loop", [x] { ++x->inside; ++x->calls; perturb_point(58); --x->inside; return true; }));
      if (!plain::thread::is_running(ts.back()) || plain::thread::is_stopping(ts.back())) viol("thread:not-running", cat("seed ", seed));
    }
    if (plain::ThreadCollect::count() > before + m) viol("thread:collect", cat("seed ", seed));
    bool at_once = g.chance(1, 2);
    for (int i = 0; i < m; ++i) {
      auto k = static_cast<size_t>(i);
      if (!at_once && !wait_until([&] { return loops[k]->calls > 1; }, 30000)) viol("thread:not-called", cat("seed ", seed));
      plain::thread::stop(ts[k]);
      if (plain::thread::is_running(ts[k]) || !plain::thread::is_stopping(ts[k])) viol("thread:not-stopping", cat("seed ", seed));
      progress();
      if (!wait_until([&] { return plain::ThreadCollect::count() <= before + m - i - 1; }, 60000)) stuck(cat("a stopped thread goes on, seed ", seed));
      ts[k].join();
      if (loops[k]->inside) viol("thread:not-ended", cat("seed ", seed));
    }
    count("threads_stopped", static_cast<uint64_t>(m));
  }
  if (plain::ThreadCollect::count() != before) viol("thread:collect", cat("seed ", seed, " ", plain::ThreadCollect::count(), " for ", before));
  count("thread_calls", static_cast<uint64_t>(n));
  // ids
  std::mutex m;
  std::set<std::uintptr_t> ids;
  std::vector<std::thread> ts;
  size_t many = static_cast<size_t>(g.range(2, 10));
  for (size_t i = 0; i < many; ++i)
    ts.emplace_back([&] {
      auto a = plain::thread::get_current_virtual_id();
      std::this_thread::yield();
      if (a != plain::thread::get_current_virtual_id()) viol("thread:id-changes", cat("seed ", seed));
      std::lock_guard<std::mutex> l{m};
      ids.insert(a);
    });
  for (auto &t : ts) t.join();
  if (ids.size() != many) viol("thread:id-shared", cat("seed ", seed, " ", ids.size(), " of ", many));
  if (plain::thread::hardware_concurrency() == 0) viol("thread:hardware", "0");
  eval();
  distinct(hash_mix(static_cast<uint64_t>(n), many));
}

int main(int argc, char **argv) {
  init(argc, argv);
  plain::Logger::set_output([](const std::string_view &) {});
  std::cout.setstate(std::ios::badbit);
  uint64_t s = opt.seed * 1000003, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, const std::function<void(uint64_t)> &f) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  run("pool", 4, pool_random);
  run("pool_capacity", 4, pool_capacity);
  run("pool_guards", 2, pool_guards);
  run("pool_containers", 2, pool_containers);
  run("threadpool", 4, threadpool_case);
  run("threadpool_rendezvous", 1, threadpool_rendezvous);
  run("queue", 4, queue_case);
  run("threads", 4, thread_case);
  return finish();
}
