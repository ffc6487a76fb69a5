// P36 process helpers: pid files, waiting for an end, names, commands, usage, daemons, limits.
// No signal is ever sent and nothing is slept for: kill and the sleeps are stand-ins over a model.
#include "common.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "plain/basic/utility.h"
#include "plain/file/api.h"
#include "plain/sys/process.h"
#include "plain/sys/utility.h"
using namespace vf;
namespace pr = plain::process;

// ---- stand-ins
namespace {
struct Model {
  bool on{false};
  int pid{0};
  int left{0};         // sleeps and probes until it is gone
  bool permitted{true};
  bool ends_on_ask{false};
  int asked{0}, probed{0}, slept{0};
  bool gone() const { return left <= 0; }
};
thread_local Model model;
thread_local int fork_fails = -1;  // which fork from now on
thread_local int host_kind = 0;
}
extern "C" {
int __real_kill(pid_t, int);
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
pid_t __real_fork();
int __real_gethostname(char *, size_t);

int __wrap_kill(pid_t pid, int sig) {
  // Nothing here may ever signal for real.
  if (!model.on) { viol("signal:unasked", cat("kill(", pid, ", ", sig, ')')); errno = EPERM; return -1; }
  if (pid <= 0 || pid != model.pid) { viol("wait:signals-others", cat("kill(", pid, ", ", sig, ") for the process ", model.pid)); errno = EPERM; return -1; }
  if (sig != 0 && sig != SIGUSR1) viol("wait:signal", cat("signal ", sig));
  if (model.gone()) { errno = ESRCH; return -1; }
  --model.left;
  if (sig == 0) ++model.probed; else { ++model.asked; if (model.ends_on_ask && model.permitted) model.left = std::min(model.left, 2); }
  if (!model.permitted) { errno = EPERM; return -1; }
  return 0;
}
int __wrap_nanosleep(const timespec *a, timespec *b) {
  if (!model.on) return __real_nanosleep(a, b);
  ++model.slept; if (model.left > 0) --model.left;
  progress();
  return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) {
  if (!model.on) return __real_clock_nanosleep(c, f, a, b);
  ++model.slept; if (model.left > 0) --model.left;
  return 0;
}
int __wrap_usleep(useconds_t u) { timespec t{static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000}; return __wrap_nanosleep(&t, nullptr); }
pid_t __wrap_fork() {
  if (fork_fails >= 0 && fork_fails-- == 0) { errno = EAGAIN; return -1; }
  return __real_fork();
}
int __wrap_gethostname(char *p, size_t n) {
  switch (host_kind) {
    case 1: errno = ENAMETOOLONG; if (n) memset(p, 'h', n); return -1;
    case 2: memset(p, 'h', n); return 0;  // As long as there is place, with no end.
    default: return __real_gethostname(p, n);
  }
}
}

static int open_fds() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}
static void spill(const std::string &f, const std::string &s) { std::ofstream o{f, std::ios::binary | std::ios::trunc}; o << s; }
static std::string slurp(const std::string &f) { std::ifstream i{f, std::ios::binary}; return {std::istreambuf_iterator<char>{i}, {}}; }
// What a pid file of this content may give: an id, none (-1), or either (-2).
struct Content { std::string text; int64_t id; bool either{false}; };
static Content content(Rng &g) {
  auto digits = [&](int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>('0' + (i ? g.below(10) : 1 + g.below(9))); return s; };
  const char *blanks[] = {"", "\n", " ", "  ", "\t", "\r\n", " \n"};
  std::string pre = g.chance(1, 3) ? blanks[g.below(7)] : "", post = g.chance(1, 2) ? blanks[g.below(7)] : "";
  switch (g.below(9)) {
    case 0: return {pre + post, -1};
    case 1: { static const char *no[] = {"x", "pid", "-", "+", ".5", "abc123", "\x01", "- 5", "\xff\xfe"}; return {pre + no[g.below(9)] + post, -1}; }
    case 2: return {pre + "-" + digits(static_cast<int>(g.range(1, 9))) + post, -1};
    case 3: return {pre + (g.chance(1, 2) ? "0" : "000") + post, -1};
    case 4: { static const char *big[] = {"2147483648", "4294967295", "4294967297", "4294968000", "9223372036854775807", "99999999999", "18446744073709551617", "-4294967295", "-9999999999999999999"}; return {pre + big[g.below(9)] + post, -1}; }
    case 5: { auto s = digits(static_cast<int>(g.range(1, 7))); return {pre + s + (g.chance(1, 2) ? "x" : " 77") + post, std::stoll(s), true}; }
    case 6: return {pre + "2147483647" + post, 2147483647};
    case 7: { auto n = std::to_string(getpid()); return {pre + n + post, getpid()}; }
    default: { auto s = digits(static_cast<int>(g.range(1, 9))); return {pre + s + post, std::stoll(s)}; }
  }
}

static void pidfile_case(Rng &g) {
  if (pr::getid() != getpid()) viol("pid:own", cat(pr::getid(), " for ", getpid()));
  std::string f = "some.pid";
  int fds = open_fds();
  if (g.chance(1, 5)) {
    static const char *no[] = {"/dev/full", "no/such/file.pid", ".", "ro/x.pid"};
    int k = static_cast<int>(g.below(3));
    if (pr::writeid(no[k])) viol("pid:written-nowhere", cat("writeid(", no[k], ") tells it wrote"));
    if (k == 1 || k == 2) { if (auto r = pr::getid(no[k]); r != -1) viol("pid:from-nowhere", cat(no[k], " gives ", r)); }
    model.on = true; model.pid = 1; model.left = 5;
    if (k >= 1 && pr::waitexit(no[k])) viol("wait:nothing", no[k]);
    model = {};
    count("files_not_there");
  } else if (g.chance(1, 4)) {
    spill(f, std::string(g.below(40), '9'));
    if (!pr::writeid(f.c_str())) viol("pid:not-written", f);
    if (slurp(f) != std::to_string(getpid()) && std::stoll("0" + slurp(f)) != getpid()) viol("pid:written", slurp(f));
    if (auto r = pr::getid(f.c_str()); r != getpid()) viol("pid:read-back", cat(r, " for ", getpid()));
    count("written");
  } else {
    auto c = content(g);
    spill(f, c.text);
    auto r = pr::getid(f.c_str());
    if (!(r == c.id || (c.either && r == -1))) viol("pid:read", cat("a file with ", hex(c.text.data(), c.text.size()), " gives ", r, " want ", c.id));
    count(c.id < 0 ? "no_pid" : "read");
    distinct(hash_str(c.text));
  }
  if (open_fds() != fds) viol("pid:descriptors", cat(open_fds() - fds, " are left open"));
  eval();
}

static void wait_case(Rng &g) {
  auto c = content(g);
  std::string f = "wait.pid";
  spill(f, c.text);
  model = {};
  model.on = true;
  model.pid = static_cast<int>(c.id > 0 ? c.id : 1);
  model.left = static_cast<int>(g.chance(1, 5) ? 0 : g.range(1, 40));
  model.permitted = !g.chance(1, 4);
  model.ends_on_ask = g.chance(1, 3);
  const int life = model.left;
  bool r = pr::waitexit(g.chance(1, 30) ? (c.id = -1, g.chance(1, 2) ? nullptr : "") : f.c_str());
  Model m = model;
  model = {};
  if (c.id < 0) {
    if (r) viol("wait:nothing", cat("waited for the process of ", hex(c.text.data(), c.text.size())));
    if (m.asked || m.probed) viol("wait:signals-others", cat("signalled the process ", m.pid, " of ", hex(c.text.data(), c.text.size())));
    count("waits_refused");
  } else {
    if (!r && !c.either) viol("wait:gave-up", cat("life ", life, m.permitted ? "" : " not permitted"));
    if (r && !m.gone()) viol("wait:too-early", cat("the process is still there, life ", life, " left ", m.left, m.permitted ? "" : ", not permitted to signal it"));
    if (r && life > 0 && m.asked == 0) viol("wait:not-asked", cat("life ", life));
    count(m.permitted ? "waited" : "waited_not_permitted");
  }
  eval();
  distinct(hash_mix(hash_str(c.text), static_cast<uint64_t>(life * 4 + m.permitted * 2 + m.ends_on_ask)));
}

static void names_case(Rng &g) {
  char exe[4096];
  auto n = readlink("/proc/self/exe", exe, sizeof exe);
  if (n <= 0) harness_error("no /proc/self/exe");
  const std::string full{exe, static_cast<size_t>(n)};
  auto check = [&](size_t size, bool pid) {
    std::unique_ptr<char[]> b{new char[size]};
    memset(b.get(), 'Z', size);
    if (pid) pr::get_filename(b.get(), size); else plain::get_module_filename(b.get(), size);
    if (size == 0) return;
    auto want = pid ? full + ".pid" : full;
    if (memchr(b.get(), 0, size) == nullptr) { viol("name:no-end", cat("size ", size, " pid ", pid)); return; }
    std::string got{b.get()};
    if (got != want.substr(0, size - 1)) viol("name:wrong", cat("size ", size, " gives ", got, " want ", want.substr(0, size - 1)));
    count(size > want.size() ? "names_whole" : "names_cut");
  };
  size_t size = g.chance(2, 3) ? static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(full.size()) + g.range(-8, 12))) : g.below(full.size() + 300);
  check(size, true);
  check(size, false);
  host_kind = static_cast<int>(g.below(4));
  int k = host_kind;
  auto a = pr::hostname(), b = plain::hostname();
  host_kind = 0;
  char h[300]{};
  __real_gethostname(h, sizeof h);
  if (a != b) viol("host:differs", cat(a, " and ", b));
  if ((k == 0 || k == 3) && a != h) viol("host:wrong", cat(a, " for ", h));
  if (k == 1 && a != "unknownhost") viol("host:failed", a);
  if (k == 2 && (a.empty() || a.find_first_not_of('h') != std::string::npos)) viol("host:too-long", cat(a.size(), " characters"));
  eval();
  distinct(hash_mix(size, static_cast<uint64_t>(k)));
}

static void exec_case(Rng &g) {
  int fds = open_fds();
  std::string line, more, cmd;
  size_t n = g.chance(1, 4) ? g.below(3000) : g.below(60);
  for (size_t i = 0; i < n; ++i) line += static_cast<char>(g.chance(1, 2) ? 'a' + g.below(26) : '0' + g.below(10));
  bool nl = g.chance(2, 3);
  // The size of the command: longer ones must run as a whole as well.
  if (g.chance(1, 2)) cmd += ": " + std::string(g.chance(1, 2) ? g.below(3000) : static_cast<size_t>(g.range(960, 1030)), 'p') + "; ";
  std::string rest;
  switch (g.below(4)) {
    case 0: break;
    case 1: rest = "; exit " + std::to_string(g.below(5)); break;
    case 2: if (nl) rest = "; echo second; echo third"; break;
    default: if (nl) rest = "; head -c 200000 /dev/zero | tr '\\0' q"; break;
  }
  cmd += "printf '" + line + (nl ? "\\n" : "") + "'" + rest;
  bool silent = g.chance(1, 10);
  if (silent) { cmd = "true"; line.clear(); nl = false; }
  size_t size = g.chance(1, 3) ? 1 + g.below(20) : g.chance(1, 3) ? 1 + g.below(4000) : line.size() + static_cast<size_t>(g.range(1, 3));
  std::unique_ptr<char[]> b{new char[size]{}};
  int r = plain::exec(cmd.c_str(), b.get(), size);
  std::string want = (line + (nl ? "\n" : "")).substr(0, size - 1);
  if (r != 0) viol("exec:failed", cat(r));
  else if (memchr(b.get(), 0, size) == nullptr) viol("exec:no-end", cat(size));
  else if (std::string got{b.get()}; got != want) viol(cmd.size() > 1023 ? "exec:long-command" : "exec:line", cat("command of ", cmd.size(), " printing ", line.size(), " into ", size, ": got ", got.size(), " characters ", got.substr(0, 30), " want ", want.size(), ' ', want.substr(0, 30)));
  if (open_fds() != fds) viol("exec:descriptors", cat(open_fds() - fds));
  if (waitpid(-1, nullptr, WNOHANG) != -1 || errno != ECHILD) viol("exec:children", "a process of a command is left");
  if (cmd.size() > 1023) count("exec_long");
  if (line.size() > 1023 && size > 1024) count("exec_long_line");
  count("exec");
  eval();
  distinct(hash_mix(hash_str(cmd), size));
}

static uint64_t status_kb(int pid, const char *key) {
  std::ifstream i{cat("/proc/", pid, "/status")};
  for (std::string l; std::getline(i, l);) if (l.starts_with(key)) return strtoull(l.c_str() + strlen(key) + 1, nullptr, 10);
  return 0;
}
static void usage_case(Rng &g) {
  int go[2], up[2];
  if (pipe(go) || pipe(up)) harness_error("pipe");
  const size_t touched = static_cast<size_t>(g.range(1, 40)) << 20, untouched = static_cast<size_t>(g.range(0, 3) ? g.range(64, 4000) : 20000) << 20;
  const bool busy = g.chance(1, 3);
  pid_t pid = __real_fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    auto a = static_cast<char *>(mmap(nullptr, touched, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    for (size_t i = 0; i < touched; i += 4096) a[i] = 1;
    (void)mmap(nullptr, untouched, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (busy) for (volatile uint64_t i = 0; i < 30000000; i = i + 1) {}
    char c = 1;
    if (write(up[1], &c, 1) != 1) _exit(1);
    close(go[1]);
    if (read(go[0], &c, 1) < 0) _exit(1);
    _exit(0);
  }
  close(go[0]);
  char c;
  if (read(up[0], &c, 1) != 1) harness_error("child");
  // It does nothing any more, so what it uses does not change.
  uint64_t vsz = status_kb(pid, "VmSize"), rss = status_kb(pid, "VmRSS");
  auto v = pr::get_virtualmemory_usage(pid), r = pr::get_physicalmemory_usage(pid);
  auto cpu = pr::get_cpu_usage(pid);
  auto far = [](uint64_t a, uint64_t b) { return a > b + 600 * 1024 || b > a + 600 * 1024; };
  if (far(v, vsz * 1024)) viol("usage:virtual", cat(v, " bytes for ", vsz * 1024));
  if (far(r, rss * 1024)) viol("usage:physical", cat(r, " bytes for ", rss * 1024));
  if (!(cpu >= 0 && cpu <= 101.f * static_cast<float>(sysconf(_SC_NPROCESSORS_ONLN)))) viol("usage:cpu", cat(cpu));
  pr::info_t info{};
  pr::get_info(pid, info);
  if (info.id != pid || far(info.VSZ, v) || far(info.RSS, r) || !(info.cpu_percent >= 0 && info.cpu_percent <= 101.f * static_cast<float>(sysconf(_SC_NPROCESSORS_ONLN)))) viol("usage:info", cat(info.id, ' ', info.VSZ, ' ', info.RSS, ' ', info.cpu_percent));
  close(go[1]); close(up[0]); close(up[1]);
  waitpid(pid, nullptr, 0);
  // It is not there any more.
  if (pr::get_virtualmemory_usage(pid) != 0 || pr::get_physicalmemory_usage(pid) != 0) viol("usage:gone", "an ended process uses memory");
  count("usages");
  eval();
  distinct(hash_mix(touched, untouched + busy));
}

// What the daemon tells through the pipe.
struct Report { int ok, sid_same, leader, parent_same, fds_open, umask_was, hup_ignored, tty; };
static void daemon_case(Rng &g) {
  int up[2];
  if (pipe(up)) harness_error("pipe");
  const int fails = g.chance(1, 3) ? static_cast<int>(g.below(2)) : -1;
  const mode_t mask = static_cast<mode_t>(g.below(0100));
  fflush(stdout); fflush(stderr);
  pid_t pid = __real_fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    // Nothing of the harness may run in here at the end.
    close(up[0]);
    umask(mask);
    int self = getpid(), sid = getsid(0);
    fork_fails = fails;
    bool ok = pr::daemon();
    Report r{};
    r.ok = ok;
    if (ok) {
      r.sid_same = getsid(0) == sid;
      r.leader = getsid(0) == getpid();
      r.parent_same = getpid() == self || getppid() == self;
      for (int i = 0; i < 3; ++i) r.fds_open += fcntl(i, F_GETFD) != -1;
      r.umask_was = static_cast<int>(umask(0));
      struct sigaction sa{};
      sigaction(SIGHUP, nullptr, &sa);
      r.hup_ignored = sa.sa_handler == SIG_IGN;
      int t = open("/dev/tty", O_RDWR);
      r.tty = t >= 0;
    }
    if (write(up[1], &r, sizeof r) != sizeof r) _exit(3);
    _exit(0);
  }
  close(up[1]);
  Report r{};
  size_t got = 0;
  int reports = 0;
  for (;;) {
    auto k = read(up[0], reinterpret_cast<char *>(&r) + got, sizeof r - got);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
    got += static_cast<size_t>(k);
    if (got == sizeof r) { ++reports; got = 0; }
  }
  close(up[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) viol("daemon:parent", cat("the starting process ended with ", st));
  if (reports != 1) viol("daemon:returns", cat("daemon returned in ", reports, " processes", fails >= 0 ? " with a failing fork" : ""));
  else if (fails >= 0) {
    if (r.ok) viol("daemon:failed-fork", cat("fork ", fails, " fails, daemon tells success"));
    count("daemon_fork_fails");
  } else {
    if (!r.ok) viol("daemon:failed", "");
    else {
      if (r.sid_same) viol("daemon:session", "is in the session it was started in");
      if (r.leader) viol("daemon:leader", "leads its session and can get a terminal");
      if (r.parent_same) viol("daemon:parent", "is no process of its own");
      if (r.fds_open) viol("daemon:descriptors", cat(r.fds_open, " standard descriptors are open"));
      if (r.umask_was) viol("daemon:umask", cat(r.umask_was));
      if (!r.hup_ignored) viol("daemon:hangup", "");
      if (r.tty) viol("daemon:terminal", "");
    }
    count("daemons");
  }
  eval();
  distinct(hash_mix(mask, static_cast<uint64_t>(fails + 1)));
}

static void rlimit_case(Rng &g) {
  const bool user = geteuid() == 0 && g.chance(1, 2);
  const bool low = g.chance(1, 2);
  const rlim_t hard = low ? static_cast<rlim_t>(g.below(3) * 4096) : RLIM_INFINITY, soft = low ? 0 : static_cast<rlim_t>(g.below(3) * 4096);
  fflush(stdout);
  pid_t pid = __real_fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    rlimit l{soft, hard};
    if (setrlimit(RLIMIT_CORE, &l)) _exit(9);
    if (user && (setgid(65534) || setuid(65534))) _exit(9);
    bool r = plain::set_core_rlimit();
    rlimit now{};
    getrlimit(RLIMIT_CORE, &now);
    bool inf = now.rlim_cur == RLIM_INFINITY;
    _exit(r && inf ? 1 : !r && !inf ? 2 : r ? 3 : 4);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  int e = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  if (e == 9) count("rlimit_not_possible");
  else if (e == 3) viol("rlimit:not-set", "tells success, cores are limited");
  else if (e == 4) viol("rlimit:set", "tells failure, cores are not limited");
  else if (e != 1 && e != 2) viol("rlimit:ended", cat(st));
  else if (user && !low && e != 1) viol("rlimit:refused", "");
  else count(e == 1 ? "rlimit_set" : "rlimit_refused");
  eval();
  distinct(hash_mix(static_cast<uint64_t>(hard) * 3 + soft, user));
}

// Calls on descriptors against a model of the file and against the system's own view.
static void file_case(Rng &g) {
  auto path = cat("f", g.next() % 100000, ".bin");
  ::unlink(path.c_str());
  if (plain::open(path.c_str(), O_RDONLY) >= 0) return viol("file:opened-none", path);
  int mode = g.pick(std::vector<int>{0600, 0640, 0644, 0700});
  umask(0);
  bool append = g.chance(1, 5);
  int fd = plain::openmode(path.c_str(), O_RDWR | O_CREAT | (append ? O_APPEND : 0), mode);
  if (fd < 0) return viol("file:open", path);
  struct stat st;
  if (::stat(path.c_str(), &st) || (st.st_mode & 07777) != static_cast<mode_t>(mode)) viol("file:mode", cat(st.st_mode & 07777, " for ", mode));
  if (plain::openmode(path.c_str(), O_RDWR | O_CREAT | O_EXCL, mode) >= 0) viol("file:opened-twice", path);
  std::string file;
  size_t at = 0;
  std::vector<int> fds{fd};
  uint64_t h = append;
  for (auto n = g.range(5, 40); n && viol_count() == 0; --n) {
    int d = g.pick(fds);
    auto op = g.below(9);
    h = hash_mix(h, op);
    switch (op) {
      case 0: case 1: {
        std::string b;
        for (auto k = g.below(g.chance(1, 10) ? 20000 : 60); k; --k) b += static_cast<char>(g.next());
        if (plain::write(d, b.data(), static_cast<uint32_t>(b.size())) != b.size()) { viol("file:write", path); break; }
        if (append && !b.empty()) at = file.size();
        if (!b.empty() && file.size() < at + b.size()) file.resize(at + b.size(), '\0');
        if (!b.empty()) file.replace(at, b.size(), b);
        at += b.size();
        count("file_writes");
        break;
      }
      case 2: case 3: {
        size_t n2 = g.below(g.chance(1, 10) ? 30000 : 80);
        std::unique_ptr<char[]> b{new char[n2 + 1]};
        memset(b.get(), 'q', n2 + 1);
        auto left = at < file.size() ? std::min(n2, file.size() - at) : 0;
        auto r = plain::read(d, b.get(), static_cast<uint32_t>(n2));
        if (r != left || memcmp(b.get(), file.data() + std::min(at, file.size()), left) != 0 || b[left] != 'q') { viol("file:read", cat(r, " of ", left)); break; }
        at += left;
        count(left ? "file_reads" : "file_reads_at_end");
        break;
      }
      case 4: {
        int whence = g.pick(std::vector<int>{SEEK_SET, SEEK_CUR, SEEK_END});
        int64_t base = whence == SEEK_SET ? 0 : static_cast<int64_t>(whence == SEEK_CUR ? at : file.size());
        int64_t off = g.chance(1, 2) ? -static_cast<int64_t>(g.below(static_cast<uint64_t>(base) + 1)) : g.range(-3 - static_cast<int64_t>(g.below(file.size() + 1)), static_cast<int64_t>(file.size()) + 5);
        auto r = plain::lseek(d, static_cast<uint64_t>(off), whence);
        if (base + off < 0) { if (r >= 0) viol("file:seek-before-start", cat(r)); count("file_seeks_refused"); }
        else if (r != base + off) viol("file:seek", cat(r, " for ", base + off));
        else { at = static_cast<size_t>(r); count("file_seeks"); }
        break;
      }
      case 5:
        if (plain::tell(d) != static_cast<int64_t>(at)) viol("file:tell", cat(plain::tell(d), " for ", at));
        count("file_tells");
        break;
      case 6: {
        auto x = plain::dup(d);
        if (x < 0 || std::find(fds.begin(), fds.end(), x) != fds.end()) { viol("file:dup", cat(x)); break; }
        fds.push_back(x);
        break;
      }
      case 7: {
        bool on = g.chance(1, 2);
        int before = ::fcntl(d, F_GETFL);
        if (!plain::set_nonblocking(d, on) || plain::get_nonblocking(d) != on) { viol("file:nonblocking", cat(on)); break; }
        int now = ::fcntl(d, F_GETFL);
        if ((now & ~O_NONBLOCK) != (before & ~O_NONBLOCK) || plain::fcntl(d, F_GETFL) != now) viol("file:flags", cat(before, " ", now));
        break;
      }
      default: {
        if (g.chance(1, 10)) {
          if (!plain::truncate(path.c_str())) { viol("file:truncate", path); break; }
          file.clear();
          count("file_truncated");
        }
        auto a = plain::available(d);
        auto want = at < file.size() ? file.size() - at : 0;
        if (a != want && at <= file.size()) viol("file:available", cat(a, " for ", want));
        if (::stat(path.c_str(), &st) || static_cast<size_t>(st.st_size) != file.size()) viol("file:size", cat(st.st_size, " for ", file.size()));
        if (fds.size() > 1) {
          int x = fds.back();
          fds.pop_back();
          plain::close(x);
          if (::fcntl(x, F_GETFD) != -1) viol("file:not-closed", cat(x));
          count("file_duplicates_closed");
        }
      }
    }
  }
  {  // the whole, by the system
    std::ifstream f(path, std::ios::binary);
    std::string all{std::istreambuf_iterator<char>(f), {}};
    if (viol_count() == 0 && all != file) viol("file:content", cat(all.size(), " for ", file.size()));
  }
  for (int x : fds) plain::close(x);
  int gone = fds[0];
  char c[4];
  if (plain::read(gone, c, 1) != UINT32_MAX || plain::write(gone, c, 1) != UINT32_MAX || plain::lseek(gone, 0, SEEK_SET) >= 0 || plain::tell(gone) >= 0
      || plain::dup(gone) >= 0 || plain::set_nonblocking(gone, true) || plain::fcntl(gone, F_GETFL) >= 0 || plain::fcntlarg(gone, F_SETFL, 0) >= 0
      || plain::ioctl(gone, FIONREAD, c) >= 0 || plain::available(gone) != 0)
    viol("file:closed-works", path);
  if (plain::truncate(cat("none/", path).c_str())) viol("file:truncate-none", path);
  int p[2];
  if (::pipe(p) == 0) {  // what waits in a pipe
    size_t n = g.below(3000);
    std::string b(n, 'p');
    if (n && plain::write(p[1], b.data(), static_cast<uint32_t>(n)) != n) viol("file:pipe", cat(n));
    int av = -1;
    if (plain::available(p[0]) != n || plain::ioctl(p[0], FIONREAD, &av) != 0 || av != static_cast<int>(n)) viol("file:pipe-available", cat(n));
    plain::set_nonblocking(p[0], true);
    std::vector<char> in(n + 1);
    if (n && (plain::read(p[0], in.data(), static_cast<uint32_t>(n + 1)) != n || std::string(in.data(), n) != b)) viol("file:pipe-read", cat(n));
    if (plain::read(p[0], in.data(), 1) != UINT32_MAX || errno != EAGAIN) viol("file:pipe-empty", cat(n));
    plain::close(p[1]);
    if (plain::read(p[0], in.data(), 1) != 0) viol("file:pipe-end", cat(n));
    plain::close(p[0]);
    count("file_pipes");
  }
  ::unlink(path.c_str());
  eval();
  distinct(h);
}

int main(int argc, char **argv) {
  init(argc, argv);
  struct { const char *name; void (*f)(Rng &); } all[] = {
    {"pidfile", pidfile_case}, {"wait", wait_case}, {"names", names_case}, {"exec", exec_case},
    {"usage", usage_case}, {"daemon", daemon_case}, {"rlimit", rlimit_case}, {"file", file_case}};
  uint64_t salt = 0;
  for (auto &s : all) {
    ++salt;
    if (!selected(s.name)) continue;
    scenario(s.name);
    for (uint64_t i = 0; i < opt.scale && viol_count() == 0; ++i) {
      Rng g{opt.seed * 1000003 + salt * 7919 + i};
      progress();
      s.f(g);
    }
  }
  return finish();
}
