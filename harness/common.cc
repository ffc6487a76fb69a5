#include "common.h"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <set>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>

namespace vf {

Options opt;

namespace {
std::mutex g_mu;
int g_fd = -1;
std::atomic<uint64_t> g_evals{0}, g_viols{0}, g_progress{0};
std::unordered_set<uint64_t> g_distinct;
std::map<std::string, uint64_t> g_counters;
std::vector<std::string> g_samples;
std::set<std::string> g_reported;
std::string g_scenario{"start"};
std::atomic<bool> g_done{false};
std::atomic<unsigned> g_perturb{0};
std::atomic<uint64_t> g_hits{0};
std::atomic<uint64_t> g_site[64];

std::string esc(std::string_view s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}
void emit(const std::string &line) {  // g_mu held
  std::string l = line + "\n";
  if (g_fd >= 0) { auto r = ::write(g_fd, l.data(), l.size()); (void)r; }
}
void watchdog() {
  uint64_t last = g_progress.load();
  unsigned idle = 0;
  while (!g_done.load()) {
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
    auto now = g_progress.load();
    if (now != last) { last = now; idle = 0; continue; }
    if (++idle >= opt.watchdog_s * 2) {
      { std::unique_lock<std::mutex> l{g_mu, std::try_to_lock};
        emit("{\"t\":\"stuck\",\"scn\":\"" + esc(g_scenario) + "\",\"detail\":\"watchdog\"}"); }
      _exit(97);
    }
  }
}
}  // namespace

void init(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (++i >= argc) harness_error("bad args"); return argv[i]; };
    if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale") opt.scale = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scenario") opt.scenario = val();
    else if (a == "--out") opt.out = val();
    else if (a == "--thorough") opt.thorough = true;
    else if (a == "--perturb") opt.perturb = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
    else if (a == "--watchdog") opt.watchdog_s = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
    else harness_error("unknown argument " + a);
  }
  if (opt.out.empty()) g_fd = ::dup(1);
  else g_fd = ::open(opt.out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
  g_perturb = opt.perturb;
  ::signal(SIGPIPE, SIG_IGN);
  std::thread(watchdog).detach();
}

#if defined(__has_feature) && __has_feature(address_sanitizer)
extern "C" int __lsan_do_recoverable_leak_check();
// What nothing points to any more, after everything of this run has ended.
static void leaks() { if (!getenv("VF_NO_LEAKS")) __lsan_do_recoverable_leak_check(); }
#else
static void leaks() {}
#endif
int finish() {
  std::unique_lock<std::mutex> l{g_mu};
  g_done = true;
  std::string s = cat("{\"t\":\"cov\",\"evals\":", g_evals.load(), ",\"hashes\":[");
  bool first = true;
  size_t n = 0;
  for (auto h : g_distinct) {
    if (++n > 20000) break;
    char b[24]; snprintf(b, sizeof b, "\"%llx\"", static_cast<unsigned long long>(h));
    if (!first) s += ',';
    first = false; s += b;
  }
  s += cat("],\"distinct\":", g_distinct.size(), ",\"counters\":{");
  first = true;
  if (g_hits.load()) g_counters["schedule_perturbations"] += g_hits.load();
  uint64_t sites = perturb_sites();
  if (sites) g_counters["perturb_sites_reached"] = sites;
  for (auto &[k, v] : g_counters) {
    if (!first) s += ',';
    first = false; s += cat("\"", esc(k), "\":", v);
  }
  s += "},\"samples\":[";
  first = true;
  for (auto &k : g_samples) { if (!first) s += ','; first = false; s += cat("\"", esc(k), "\""); }
  s += "]}";
  emit(s);
  l.unlock();
  if (!g_viols.load()) leaks();
  return 0;
}

void viol(const std::string &key, const std::string &detail) {
  g_viols++;
  std::unique_lock<std::mutex> l{g_mu};
  if (g_reported.size() > 60 || !g_reported.insert(key).second) return;
  emit("{\"t\":\"viol\",\"key\":\"" + esc(key) + "\",\"scn\":\"" + esc(g_scenario) +
       "\",\"detail\":\"" + esc(detail.substr(0, 2000)) + "\"}");
}
uint64_t viol_count() { return g_viols.load(); }

void harness_error(const std::string &what) {
  fprintf(stderr, "HARNESS-ERROR: %s\n", what.c_str());
  _exit(98);
}

void eval(uint64_t n) { g_evals += n; g_progress++; }
void distinct(uint64_t h) {
  std::unique_lock<std::mutex> l{g_mu};
  if (g_distinct.size() < 400000) g_distinct.insert(h);
}
void count(const std::string &name, uint64_t n) {
  std::unique_lock<std::mutex> l{g_mu};
  g_counters[name] += n;
}
void sample(const std::string &s) {
  std::unique_lock<std::mutex> l{g_mu};
  if (g_samples.size() < 4) g_samples.push_back(s.substr(0, 400));
}
void scenario(const std::string &name) {
  std::unique_lock<std::mutex> l{g_mu};
  g_progress++;
  if (g_scenario == name) return;
  g_scenario = name;
  emit("{\"t\":\"scn\",\"scn\":\"" + esc(name) + "\"}");
}
bool selected(const std::string &name) {
  return opt.scenario.empty() || opt.scenario == name;
}
void progress() { g_progress++; }
void stuck(const std::string &what) {
  {
    std::unique_lock<std::mutex> l{g_mu};
    emit("{\"t\":\"stuck\",\"scn\":\"" + esc(g_scenario) + "\",\"detail\":\"" + esc(what) + "\"}");
  }
  _exit(97);
}

void set_perturb(unsigned one_in) { g_perturb = one_in; }
uint64_t perturb_hits() { return g_hits.load(); }
uint64_t perturb_sites() {
  uint64_t n = 0;
  for (auto &s : g_site) n += s.load(std::memory_order_relaxed) != 0;
  return n;
}
void perturb_point(unsigned id) {
  if (g_site[id & 63].load(std::memory_order_relaxed) == 0)
    g_site[id & 63].store(1, std::memory_order_relaxed);
  unsigned p = g_perturb.load(std::memory_order_relaxed);
  if (!p) return;
  static std::atomic<uint64_t> ids{0};
  thread_local Rng rng{opt.seed * 7919 + ids.fetch_add(1, std::memory_order_relaxed)};
  if (rng.below(p)) return;
  g_hits.fetch_add(1, std::memory_order_relaxed);
  switch (rng.below(8)) {
    case 0: case 1: case 2: std::this_thread::yield(); break;
    case 3: case 4: { for (volatile unsigned i = 0, n = static_cast<unsigned>(rng.below(3000)); i < n; i = i + 1) {} break; }
    case 5: case 6: std::this_thread::sleep_for(std::chrono::microseconds(rng.below(120))); break;
    default: std::this_thread::sleep_for(std::chrono::microseconds(rng.below(1200))); break;
  }
}

std::string hex(const void *p, size_t n, size_t max) {
  std::string o;
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n && i < max; ++i) { char t[4]; snprintf(t, sizeof t, "%02x", b[i]); o += t; }
  if (n > max) o += "..";
  return o;
}

bool wait_until(const std::function<bool()> &pred, unsigned ms) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  unsigned i = 0;
  while (!pred()) {
    if (std::chrono::steady_clock::now() > end) return pred();
    if (++i < 200) std::this_thread::yield();
    else std::this_thread::sleep_for(std::chrono::microseconds(i < 2000 ? 100 : 1000));
  }
  return true;
}

}  // namespace vf

// The /repo hook (guard PLAIN_VERIF) lands here.
extern "C" void plain_verif_point(unsigned id) { vf::perturb_point(id); }
