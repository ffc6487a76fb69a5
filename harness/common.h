// Shared monitor runtime for the /verif harnesses.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

namespace vf {

// splitmix64 / xoshiro-like small RNG; every random choice goes through it.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567} {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class C> auto &pick(C &c) { return c[below(c.size())]; }
  template <class T> T pick(std::vector<T> &&c) { return c[below(c.size())]; }
};

struct Options {
  uint64_t seed{1};
  uint64_t scale{1};        // number of cases / rounds multiplier (never seconds)
  std::string scenario;     // run only this scenario when non-empty
  std::string out;          // event file
  bool thorough{false};
  unsigned perturb{0};      // 0: off; else 1/perturb of the hook points are delayed
  unsigned watchdog_s{60};
};
extern Options opt;

void init(int argc, char **argv);
int finish();  // writes the coverage record; returns process exit code (always 0 unless harness error)

// Violations observed by a monitor. `key` identifies *what* failed (stable, no
// run-dependent numbers); `detail` is the witness.
void viol(const std::string &key, const std::string &detail);
uint64_t viol_count();
// Harness-internal failure (inconclusive, never a violation).
[[noreturn]] void harness_error(const std::string &what);

void eval(uint64_t n = 1);                      // cases executed
void distinct(uint64_t hash);                   // a non-trivial distinct case
void count(const std::string &name, uint64_t n = 1);  // measured counters
void sample(const std::string &s);              // up to a few actual cases

// Marks what is running (crash/hang attribution) and feeds the watchdog.
void scenario(const std::string &name);
bool selected(const std::string &name);
void progress();
// Report that a bounded wait in the current scenario did not complete.
[[noreturn]] void stuck(const std::string &what);

// Scheduling perturbation, callable from the harness too.
void perturb_point(unsigned id);
void set_perturb(unsigned one_in);
uint64_t perturb_hits();
uint64_t perturb_sites();

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 1469598103934665603ull) {
  return hash_bytes(s.data(), s.size(), h);
}
inline uint64_t hash_mix(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }

std::string hex(const void *p, size_t n, size_t max = 48);
template <class... A> std::string cat(const A &...a);

namespace detail {
inline void cat1(std::string &o, const std::string &s) { o += s; }
inline void cat1(std::string &o, std::string_view s) { o += s; }
inline void cat1(std::string &o, const char *s) { o += s; }
inline void cat1(std::string &o, char c) { o += c; }
inline void cat1(std::string &o, bool b) { o += b ? "true" : "false"; }
template <class T> requires std::is_arithmetic_v<T>
void cat1(std::string &o, T v) { o += std::to_string(v); }
}
template <class... A> std::string cat(const A &...a) {
  std::string o;
  (detail::cat1(o, a), ...);
  return o;
}

// Spin/sleep until pred() or `ms`; generous bound, only used to declare `stuck`.
bool wait_until(const std::function<bool()> &pred, unsigned ms);

}  // namespace vf
