// P38: times, globals and single instances, from any thread.
#include "common.h"
#include <cstring>
#include <ctime>
#include <filesystem>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/basic/singleton.h"
#include "plain/basic/time.h"
#include "plain/engine/config.h"
using namespace vf;
namespace fs = std::filesystem;
using plain::Time;
using sysclock = std::chrono::system_clock;
using stdclock = std::chrono::steady_clock;

static std::string ref(time_t t) {
  std::tm tm{};
  localtime_r(&t, &tm);
  char b[64];
  snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
  return b;
}
static int64_t ms_of(sysclock::time_point t) { return std::chrono::floor<std::chrono::milliseconds>(t.time_since_epoch()).count(); }
static std::string ref_ms(int64_t ms) {
  char b[8];
  snprintf(b, sizeof b, ".%03d", static_cast<int>(ms % 1000));
  return ref(static_cast<time_t>(ms / 1000)) + b;
}
static void time_case(uint64_t seed) {
  Rng g0{seed};
  const auto n = g0.range(1, 6);
  std::vector<std::thread> ts;
  std::atomic<uint64_t> h{seed};
  for (int64_t k = 0; k < n; ++k)
    ts.emplace_back([&, k] {
      Rng g{seed * 31 + static_cast<uint64_t>(k)};
      auto made0 = stdclock::now();
      Time own;
      auto made1 = stdclock::now();
      auto inst = TIME;
      uint64_t last_ns = 0, last_tick = 0, last_inst = 0;
      for (int i = 0; i < 40; ++i) {
        switch (g.below(7)) {
          case 0: {
            auto a = sysclock::to_time_t(sysclock::now());
            auto t = Time::timestamp();
            auto b = sysclock::to_time_t(sysclock::now());
            if (a <= b && (t < a || t > b)) viol("time:timestamp", cat(t, " not in ", a, " .. ", b));
            break;
          }
          case 1: {
            auto a = sysclock::to_time_t(sysclock::now());
            auto t = g.chance(1, 2) ? Time::format() : Time::format(false);
            auto b = sysclock::to_time_t(sysclock::now());
            if (b - a < 0 || b - a > 20) break;
            bool ok = false;
            for (auto x = a; x <= b; ++x) ok = ok || t == ref(x);
            if (!ok) viol("time:now", cat(t, " not in ", ref(a), " .. ", ref(b)));
            break;
          }
          case 2: {
            auto a = ms_of(sysclock::now());
            auto t = Time::format(true);
            auto b = ms_of(sysclock::now());
            if (b - a < 0 || b - a > 2000) break;
            bool ok = false;
            for (auto x = a; x <= b; ++x) ok = ok || t == ref_ms(x);
            if (!ok) viol("time:now-ms", cat(t, " not in ", ref_ms(a), " .. ", ref_ms(b)));
            count("time_ms");
            break;
          }
          case 3: {
            auto x = static_cast<time_t>(g.chance(1, 4) ? g.range(0, 100000) : g.chance(1, 2) ? g.range(1, 4102444800) : -g.range(1, 2000000000));
            auto t = Time::format(x);
            if (t != ref(x)) viol("time:format", cat(x, " gives ", t, " for ", ref(x)));
            h = hash_mix(h.load(), static_cast<uint64_t>(x));
            count("time_formats");
            break;
          }
          case 4: {
            auto a = static_cast<uint64_t>(std::chrono::nanoseconds(stdclock::now().time_since_epoch()).count());
            auto t = Time::nanoseconds();
            auto b = static_cast<uint64_t>(std::chrono::nanoseconds(stdclock::now().time_since_epoch()).count());
            if (t < a || t > b || t < last_ns) viol("time:nanoseconds", cat(t, " not in ", a, " .. ", b));
            last_ns = t;
            break;
          }
          case 5: {
            auto a = std::chrono::duration_cast<std::chrono::milliseconds>(stdclock::now() - made1).count();
            auto t = own.tickcount();
            auto b = std::chrono::duration_cast<std::chrono::milliseconds>(stdclock::now() - made0).count();
            if (static_cast<int64_t>(t) < a || static_cast<int64_t>(t) > b || t < last_tick) viol("time:tick", cat(t, " not in ", a, " .. ", b));
            last_tick = t;
            count("time_ticks");
            break;
          }
          default: {
            auto t = inst->tickcount();
            if (t < last_inst || TIME != inst) viol("time:instance", cat(t, " after ", last_inst));
            last_inst = t;
            if (g.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(3000)));
          }
        }
      }
    });
  for (auto &t : ts) t.join();
  eval();
  distinct(h);
}

// One instance, made once, however many ask first.
static std::atomic<int> made[64];
template <int N>
struct Single {
  uint64_t a{0}, b{0};
  Single() { made[N]++; a = 0x5a5a + N; std::this_thread::sleep_for(std::chrono::microseconds(N * 7 % 200)); b = ~a; }
};
template <int N>
static void single_case(Rng &g) {
  const int n = static_cast<int>(g.range(2, 12));
  std::vector<std::shared_ptr<Single<N>>> got(static_cast<size_t>(n));
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < n; ++k)
    ts.emplace_back([&, k] {
      ready++;
      while (ready < n) std::this_thread::yield();
      auto p = plain::Singleton<Single<N>>::get_instance();
      if (!p || p->a != 0x5a5a + N || p->b != ~p->a) viol("single:half-made", cat(N));
      got[static_cast<size_t>(k)] = p;
    });
  for (auto &t : ts) t.join();
  std::set<void *> all;
  for (auto &p : got) all.insert(p.get());
  if (all.size() != 1 || made[N] != 1) viol("single:many", cat(all.size(), " instances, made ", made[N].load(), " times"));
  if (plain::Singleton<Single<N>>::get_instance() != got[0]) viol("single:other", cat(N));
  count("single_instances");
  eval();
  distinct(hash_mix(977, static_cast<uint64_t>(N) * 16 + static_cast<uint64_t>(n)));
}
template <int... N>
static void singles(Rng &g, std::integer_sequence<int, N...>) { (single_case<N>(g), ...); }

// The globals: what is set under a name is there for all, under that name only.
static void globals_case(uint64_t seed) {
  Rng g0{seed};
  const auto n = g0.range(2, 6);
  const auto shared = g0.range(1, 6), per = g0.range(20, 150);
  std::atomic<int> ready{0};
  std::vector<std::atomic<int64_t>> sums(static_cast<size_t>(shared));
  std::vector<plain::variable_t *> at(static_cast<size_t>(shared * n));
  for (int64_t s = 0; s < shared; ++s) if (g0.chance(1, 2)) GLOBALS[cat("vf.", seed, ".s", s)] = int64_t{0};
  std::vector<std::thread> ts;
  for (int64_t k = 0; k < n; ++k)
    ts.emplace_back([&, k] {
      Rng g{seed * 131 + static_cast<uint64_t>(k)};
      std::map<std::string, std::string> mine;
      std::map<std::string, plain::variable_t *> place;
      ready++;
      while (ready < n) std::this_thread::yield();
      for (int64_t s = 0; s < shared; ++s) at[static_cast<size_t>(k * shared + s)] = &GLOBALS[cat("vf.", seed, ".s", s)];
      for (int64_t i = 0; i < per; ++i) {
        switch (g.below(4)) {
          case 0: {
            auto s = g.below(static_cast<uint64_t>(shared));
            ++GLOBALS[cat("vf.", seed, ".s", s)];
            sums[s]++;
            break;
          }
          case 1: case 2: {
            auto key = cat("vf.", seed, '.', k, '.', g.below(60));
            auto v = std::string(g.below(40), static_cast<char>('a' + k)) + std::to_string(i);
            auto &r = GLOBALS[key];
            r = v;
            mine[key] = v;
            if (auto [it, fresh] = place.emplace(key, &r); !fresh && it->second != &r) viol("globals:moved", key);
            break;
          }
          default: if (!mine.empty()) {
            auto it = std::next(mine.begin(), static_cast<int64_t>(g.below(mine.size())));
            if (GLOBALS[it->first].get<std::string>() != it->second) viol("globals:value", it->first);
            if (place[it->first]->get<std::string>() != it->second) viol("globals:reference", it->first);
            count("globals_read");
          }
        }
      }
      for (auto &x : mine) if (GLOBALS[x.first].get<std::string>() != x.second) viol("globals:last-value", x.first);
    });
  for (auto &t : ts) t.join();
  for (int64_t s = 0; s < shared; ++s) {
    if (GLOBALS[cat("vf.", seed, ".s", s)].to_int64() != sums[static_cast<size_t>(s)]) viol("globals:lost-update", cat(s));
    for (int64_t k = 1; k < n; ++k) if (at[static_cast<size_t>(k * shared + s)] != at[static_cast<size_t>(s)]) viol("globals:two-of-a-name", cat(s));
  }
  if (GLOBALS["app.name"].get<std::string>() != "unknown" || GLOBALS["app.debug"].get<bool>() || GLOBALS["log.print"].get<bool>()
      || GLOBALS["app.status"].to_int64() != static_cast<int64_t>(plain::AppStatus::Stopped)) viol("globals:defaults", "");
  auto base = GLOBALS["app.basepath"].get<std::string>();
  if (base != fs::current_path().string() || GLOBALS["log.directory"].get<std::string>() != base + "/log" || !fs::is_directory(base + "/log")) viol("globals:paths", base);
  count("globals_cases");
  eval();
  distinct(hash_mix(seed, static_cast<uint64_t>(n * 100 + shared)));
}

int main(int argc, char **argv) {
  init(argc, argv);
  plain::Logger::set_output([](const std::string_view &) {});
  std::cout.setstate(std::ios::badbit);
  Rng g{opt.seed};
  static const char *zones[] = {"UTC", "EST5EDT", "Asia/Kathmandu", "CET-1CEST", "<+1345>-13:45", "<-0930>9:30", "America/St_Johns"};
  const char *zone = zones[g.below(7)];
  setenv("TZ", zone, 1);
  tzset();
  count(cat("time_zone_", zone));
  uint64_t s = opt.seed * 1000003, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, const std::function<void(uint64_t)> &f) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  if (selected("single")) { scenario("single"); singles(g, std::make_integer_sequence<int, 64>{}); }
  run("time", 4, time_case);
  run("globals", 1, globals_case);
  return finish();
}
