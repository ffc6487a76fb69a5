// P29 console of the engine, P30 engine options, life cycle and net registry.
#include "common.h"
#include <arpa/inet.h>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <iostream>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include "plain/basic/logger.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/engine/kernel.h"
#include "plain/engine/timer.h"
#include "plain/engine/timer_queue.h"
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connection/manager.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/net/utility.h"
#include "plain/net/stream/codec.h"
using namespace vf;
using namespace std::chrono_literals;
namespace net = plain::net;

static std::mutex log_m;
static std::string log_text;

static constexpr int kDead = 25000;

struct Client {
  int fd{-1};
  std::string in;
  ~Client() { if (fd >= 0) ::close(fd); }
  bool connect(uint16_t port) {
    fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return ::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0;
  }
  void send(std::string_view s) {
    while (!s.empty()) {
      auto r = ::send(fd, s.data(), s.size(), MSG_NOSIGNAL);
      if (r <= 0) return;
      s.remove_prefix(static_cast<size_t>(r));
    }
  }
  // 1 a line, 0 end of the connection, -1 nothing for long
  int line(std::string &out, int ms = kDead) {
    for (;;) {
      auto e = in.find("\r\n");
      if (e != std::string::npos) {
        out = in.substr(0, e);
        in.erase(0, e + 2);
        return 1;
      }
      pollfd p{fd, POLLIN, 0};
      int r = ::poll(&p, 1, ms);
      if (r < 0 && errno == EINTR) continue;
      if (r == 0) return -1;
      char b[4096];
      auto n = ::recv(fd, b, sizeof b, 0);
      if (n <= 0) return 0;
      in.append(b, static_cast<size_t>(n));
      progress();
    }
  }
};

static std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> r;
  std::string w;
  for (char c : s + " ") {
    if (c == ' ') { if (!w.empty()) r.push_back(w); w.clear(); }
    else w += c;
  }
  return r;
}
static std::string word(Rng &g, size_t max) {
  std::string w;
  size_t n = 1 + g.below(max);
  for (size_t i = 0; i < n; ++i) w += static_cast<char>(33 + g.below(94));
  return w;
}

static uint16_t console_port() {
  std::lock_guard<std::mutex> l{log_m};
  auto i = log_text.rfind("console listen on ");
  if (i == std::string::npos) return 0;
  auto c = log_text.find(':', i);
  return c == std::string::npos ? uint16_t{0} : static_cast<uint16_t>(atoi(log_text.c_str() + c + 1));
}

// All answers up to a line which is known to be the last.
static bool upto(Client &c, const std::string &last, std::vector<std::string> &out) {
  std::string l;
  for (;;) {
    int r = c.line(l);
    if (r != 1) {
      viol(r == 0 ? "console:closed" : "console:no-answer", cat("waiting for ", last));
      return false;
    }
    if (l == last) return true;
    out.push_back(l);
  }
}

static std::atomic<uint64_t> version{0}, calls{0}, counted{0};

// Threads talk to the console in pieces of any size while handlers are replaced.
static void talk(uint16_t port, uint64_t seed) {
  Rng g{seed};
  int clients = static_cast<int>(g.range(1, 5)), per = static_cast<int>(g.range(5, 60));
  std::atomic<bool> done{false};
  std::thread changer{[&] {
    Rng r{seed * 3};
    while (!done) {
      auto v = version + 1;
      ENGINE->register_console_handler("version", [v](const std::vector<std::string> &) { return cat("v", v); }, cat("version is ", v));
      version = v;
      perturb_point(59);
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
    }
  }};
  std::vector<std::thread> ts;
  for (int t = 0; t < clients; ++t)
    ts.emplace_back([&, t] {
      Rng r{seed * 131 + static_cast<uint64_t>(t)};
      Client c;
      if (!c.connect(port)) return viol("console:connect", cat("seed ", seed));
      // what is sent and what has to come back
      std::string l;
      for (int i = 0; i < per; ++i) {
        std::string out;
        std::vector<std::pair<std::string, std::string>> want;  // command, answer
        int batch = static_cast<int>(r.range(1, 6));
        uint64_t least = version;
        uint64_t bumps = 0;
        for (int k = 0; k < batch; ++k) {
          std::string eol = r.chance(1, 2) ? "\r\n" : "\n";
          switch (r.below(6)) {
            case 0: out += "version" + eol; want.push_back({"version", ""}); break;
            case 1: out += eol; break;  // nothing to do
            case 2: out += "silent x" + eol; ++bumps; break;
            case 3: out += "   " + eol; break;
            default: {
              std::string s = "echo", a;
              auto n = r.below(5);
              for (uint64_t j = 0; j < n; ++j) {
                auto w = word(r, r.chance(1, 8) ? 300 : 12);
                s += std::string(1 + r.below(3), ' ') + w;
                a += "<" + w + ">";
              }
              if (r.chance(1, 6)) s += " ";
              out += s + eol;
              want.push_back({"echo", cat("e", n, ":", a)});
            }
          }
        }
        for (size_t at = 0; at < out.size();) {
          auto n = r.chance(1, 2) ? out.size() - at : 1 + r.below(out.size() - at);
          c.send(std::string_view{out}.substr(at, n));
          at += n;
          perturb_point(61);
        }
        for (auto &w : want) {
          int got = c.line(l);
          if (got != 1) return viol(got == 0 ? "console:closed" : "console:no-answer", cat("seed ", seed, " command ", w.first, " of ", out.substr(0, 200)));
          if (w.first == "version") {
            uint64_t v = l.size() > 1 && l[0] == 'v' ? strtoull(l.c_str() + 1, nullptr, 10) : 0;
            if (v < least || v > version + 1) return viol("console:old-handler", cat("seed ", seed, " got ", l, " after ", least));
            count("console_replaced_seen");
          } else if (l != w.second) return viol("console:answer", cat("seed ", seed, " got ", l.substr(0, 200), " for ", w.second.substr(0, 200)));
          count("console_answers");
        }
        counted += bumps;
      }
      // a command of nobody ends this connection
      if (r.chance(1, 2)) {
        c.send("nosuch" + word(r, 5) + " a b\r\n");
        int got = c.line(l);
        if (got == 1) viol("console:unknown-answered", cat("seed ", seed, " ", l));
        if (got == -1) viol("console:unknown-kept", cat("seed ", seed));
        count("console_unknown_closed");
      } else {
        c.send("echo end\n");
        if (c.line(l) != 1 || l != "e1:<end>") viol("console:answer", cat("seed ", seed, " at the end: ", l));
      }
    });
  for (auto &t : ts) t.join();
  done = true;
  changer.join();
  if (!wait_until([] { return calls >= counted; }, kDead)) viol("console:silent-not-run", cat(calls.load(), " of ", counted.load()));
  if (calls > counted) viol("console:silent-repeated", cat(calls.load(), " of ", counted.load()));
  eval();
  distinct(seed);
}

// Nets appear in the list and can be killed by name.
static void nets(uint16_t port, uint64_t seed) {
  Rng g{seed};
  Client c;
  if (!c.connect(port)) return viol("console:connect", cat("seed ", seed));
  struct Net { std::unique_ptr<net::Listener> l; std::string name; bool killed{false}; size_t conns{0}; std::vector<std::unique_ptr<Client>> cs; };
  std::vector<Net> ns;
  std::set<std::string> names;
  int n = static_cast<int>(g.range(1, 4));
  for (int i = 0; i < n; ++i) {
    Net x;
    x.name = cat("net", seed, "x", i);
    net::setting_t s;
    s.name = x.name;
    s.address = "127.0.0.1:0";
    s.default_count = 4;
    s.max_count = static_cast<uint32_t>(10 + g.below(50));
    s.mode = g.chance(1, 2) ? net::Mode::Epoll : net::Mode::Select;
    auto entered = std::make_shared<std::atomic<size_t>>(0);
    x.l = std::make_unique<net::Listener>(s);
    x.l->set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
    x.l->set_connect_callback([entered](net::connection::Basic *) { ++*entered; return true; });
    if (!x.l->start()) return viol("console:net-start", cat("seed ", seed));
    x.conns = g.below(4);
    for (size_t k = 0; k < x.conns; ++k) {
      auto q = std::make_unique<Client>();
      if (!q->connect(x.l->address().port())) return viol("console:net-connect", cat("seed ", seed));
      x.cs.push_back(std::move(q));
    }
    if (!wait_until([&] { return *entered == x.conns; }, kDead)) return viol("console:net-connect", cat("seed ", seed));
    names.insert(x.name);
    ns.push_back(std::move(x));
  }
  auto list = [&](const char *when) {
    std::vector<std::string> out;
    c.send("list\r\necho END\r\n");
    if (!upto(c, "e1:<END>", out)) return false;
    std::map<std::string, std::vector<std::string>> seen;
    for (size_t i = 1; i < out.size(); ++i) {
      auto l = out[i];
      if (l.empty() || l[0] != '\t') { viol("console:list", cat(when, " line ", l)); return false; }
      auto w = words(l.substr(1));
      if (w.empty() || seen.count(w[0])) { viol("console:list", cat(when, " line ", l)); return false; }
      seen[w[0]] = w;
    }
    if (out.empty() || out[0] != cat("Total: ", seen.size())) { viol("console:list-total", cat(when, " ", out.empty() ? "" : out[0], " for ", seen.size())); return false; }
    if (!seen.count("console")) { viol("console:list-console", when); return false; }
    for (auto &x : ns) {
      if (seen.count(x.name) != (x.killed ? 0u : 1u)) { viol("console:list-net", cat(when, " ", x.name, x.killed ? " still listed" : " not listed")); return false; }
      if (x.killed) continue;
      auto w = seen[x.name];
      // name count: N maxcount: M ...
      if (w.size() < 5 || w[1] != "count:" || w[2] != std::to_string(x.conns)) { viol("console:list-count", cat(when, " ", x.name, " ", w.size() > 2 ? w[2] : "", " for ", x.conns)); return false; }
    }
    for (auto &s : seen)
      if (s.first != "console" && !names.count(s.first)) { viol("console:list-stranger", cat(when, " ", s.first)); return false; }
    count("console_lists");
    return true;
  };
  if (!list("before")) return;
  // kill some, with names of nobody in between
  std::string cmd = "kill", fails;
  for (auto &x : ns) {
    if (g.chance(1, 4)) { auto w = cat("nobody", g.below(100)); cmd += " " + w; fails += w + " "; }
    if (g.chance(1, 2)) { cmd += " " + x.name; x.killed = true; }
  }
  if (g.chance(1, 4)) { cmd += " console"; fails += "console "; }
  if (cmd != "kill") {
    c.send(cmd + "\r\n");
    std::string l;
    int r = c.line(l);
    if (r != 1) return viol("console:kill-no-answer", cat("seed ", seed, " ", cmd));
    if (l != (fails.empty() ? "ok" : fails + "fails")) viol("console:kill-answer", cat("seed ", seed, " ", cmd, ": ", l));
    for (auto &x : ns) {
      if (x.l->running() == x.killed) viol(x.killed ? "console:kill-runs" : "console:killed-wrong", cat("seed ", seed, " ", cmd, " ", x.name));
      for (auto &q : x.cs) {
        std::string ql;
        if (x.killed) {
          if (q->line(ql) != 0) viol("console:kill-keeps-connection", cat("seed ", seed, " ", x.name));
          count("console_killed_connections");
        } else if (q->line(ql, 0) != -1) viol("console:kill-closes-another", cat("seed ", seed, " ", x.name));
      }
    }
    count("console_kills");
    if (!list("after")) return;
  }
  // help
  {
    std::string desc = cat("describes ", seed);
    auto name = cat("cmd", seed);
    ENGINE->register_console_handler(name, [](const std::vector<std::string> &) { return std::string{"x"}; }, desc);
    c.send(cat("help ", name, " nosuch kill\r\n"));
    std::string a, b;
    if (c.line(a) != 1 || c.line(b) != 1) return viol("console:help-no-answer", cat("seed ", seed));
    if (a != name + "\t" + desc || b.rfind("kill\t", 0) != 0) viol("console:help", cat("seed ", seed, " ", a, " | ", b));
    std::vector<std::string> out;
    c.send("help\r\necho END\r\n");
    if (!upto(c, "e1:<END>", out)) return;
    std::set<std::string> cmds;
    for (auto &x : out) cmds.insert(x.substr(0, x.find('\t')));
    for (auto w : {"list", "kill", "killall", "help", "version", name.c_str()})
      if (!cmds.count(w)) viol("console:help-missing", cat("seed ", seed, " ", w));
    count("console_helps");
  }
  eval();
  distinct(seed);
}

static void console_run(uint64_t seed, uint64_t n) {
  // an address somebody else has
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) || ::listen(fd, 1)) harness_error("bind");
  socklen_t len = sizeof a;
  ::getsockname(fd, reinterpret_cast<sockaddr *>(&a), &len);
  if (ENGINE->enable_console(cat("127.0.0.1:", ntohs(a.sin_port)))) viol("console:taken-address", "enabled");
  if (ENGINE->enable_console("no address at all")) viol("console:no-address", "enabled");
  count("console_refused", 2);
  ::close(fd);
  ENGINE->register_console_handler("echo", [](const std::vector<std::string> &args) {
    std::string r = cat("e", args.size(), ":");
    for (auto &x : args) r += "<" + x + ">";
    return r;
  }, "echo");
  ENGINE->register_console_handler("silent", [](const std::vector<std::string> &) { ++calls; return std::string{}; });
  ENGINE->register_console_handler("version", [](const std::vector<std::string> &) { return std::string{"v0"}; }, "version");
  if (!ENGINE->enable_console("127.0.0.1:0")) return viol("console:not-enabled", "");
  if (ENGINE->enable_console("127.0.0.1:0")) viol("console:enabled-twice", "");
  auto port = console_port();
  if (!port) harness_error("no port of the console in the log");
  for (uint64_t i = 0; i < n && viol_count() < 5; ++i) {
    progress();
    if (i % 3 == 2) nets(port, seed + i);
    else talk(port, seed + i);
  }
  // killall: every other net is stopped
  {
    net::setting_t st;
    st.name = "last";
    st.address = "127.0.0.1:0";
    net::Listener l{st};
    l.set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
    std::atomic<bool> entered{false};
    l.set_connect_callback([&](net::connection::Basic *) { entered = true; return true; });
    if (!l.start()) return viol("console:net-start", "last");
    Client c, q;
    if (!c.connect(port) || !q.connect(l.address().port())) return viol("console:connect", "last");
    if (!wait_until([&] { return entered.load(); }, kDead)) return viol("console:net-connect", "last");
    c.send("killall\r\n");
    std::string x;
    if (!wait_until([&] { return !l.running(); }, kDead)) viol("console:killall-runs", "");
    if (q.line(x) != 0) viol("console:killall-keeps-connection", "");
    int r = c.line(x);
    if (r != 1 || x != "ok") viol("console:killall-answer", cat(r, " ", x));
    c.send("echo still here\r\n");
    if (c.line(x) != 1 || x != "e2:<still><here>") viol("console:killall-ends-console", x);
    count("console_killall");
  }
}

// ---------------------------------------------------------------- the engine
static void kernel_case(uint64_t seed) {
  Rng g{seed};
  std::string ctx = cat("seed ", seed);
  std::mutex m;
  std::map<std::string, int> started, ended;
  plain::engine_option o;
  o.max_cpu_threads = static_cast<size_t>(g.range(1, 6));
  o.max_background_threads = static_cast<size_t>(g.range(1, 9));
  o.max_thread_pool_executor_waiting_time = std::chrono::milliseconds(g.pick(std::vector<int>{1, 20, 1000, 120000}));
  o.max_background_executor_waiting_time = std::chrono::milliseconds(g.pick(std::vector<int>{2, 30, 2000, 110000}));
  o.max_timer_queue_waiting_time = std::chrono::milliseconds(g.pick(std::vector<int>{1, 50, 120000}));
  bool cb = g.chance(3, 4);
  if (cb) {
    o.thread_started_callback = [&](std::string_view n) { std::lock_guard<std::mutex> l{m}; ++started[std::string{n}]; };
    o.thread_terminated_callback = [&](std::string_view n) { std::lock_guard<std::mutex> l{m}; ++ended[std::string{n}]; };
  }
  using namespace plain::concurrency;
  std::vector<std::shared_ptr<executor::Basic>> all;
  std::shared_ptr<plain::TimerQueue> tq;
  auto done = std::make_shared<std::atomic<int>>(0);
  auto ticks = std::make_shared<std::atomic<int>>(0);
  auto cpu_most = std::make_shared<std::atomic<int>>(0);
  plain::Timer timer;
  int after = 0;
  // Functions and threads of the engine.
  struct Given { std::atomic<int> calls{0}; int arg{0}; bool throws{false}; };
  struct Looped { std::atomic<int> calls{0}, args{0}; int wanted{0}; std::atomic<int> inside{0}; }; // wanted: 0 until the end, or so often
  std::vector<std::shared_ptr<Given>> given;
  std::vector<std::future<int>> futures;
  std::vector<std::shared_ptr<Looped>> looped;
  struct Made { std::mutex m; std::vector<std::shared_ptr<executor::Basic>> all; };
  std::shared_ptr<Made> made;
  bool looped_waited = g.chance(1, 2);
  {
    plain::Kernel k{o};
    tq = k.timer_queue();
    auto pool = k.thread_pool_executor();
    auto back = k.background_executor();
    if (!tq || !pool || !back || !k.inline_executor() || !k.thread_executor()) return viol("engine:missing", ctx);
    if (pool == back) viol("engine:same-pool", ctx);
    if (pool->max_concurrency_level() != static_cast<int>(o.max_cpu_threads)) viol("engine:cpu-threads", cat(ctx, " ", pool->max_concurrency_level(), " for ", o.max_cpu_threads));
    if (back->max_concurrency_level() != static_cast<int>(o.max_background_threads)) viol("engine:background-threads", cat(ctx, " ", back->max_concurrency_level(), " for ", o.max_background_threads));
    if (pool->max_worker_idle_time() != o.max_thread_pool_executor_waiting_time) viol("engine:cpu-idle", ctx);
    if (back->max_worker_idle_time() != o.max_background_executor_waiting_time) viol("engine:background-idle", ctx);
    if (tq->max_worker_idle_time() != o.max_timer_queue_waiting_time) viol("engine:timer-idle", ctx);
    if (k.thread_pool_executor() != pool || k.background_executor() != back || k.timer_queue() != tq) viol("engine:changes", ctx);
    all = {k.inline_executor(), pool, back, k.thread_executor()};
    std::vector<std::shared_ptr<executor::Manual>> manuals;
    for (auto i = g.below(3); i; --i) all.push_back(k.make_worker_thread_executor());
    for (auto i = g.below(3); i; --i) { manuals.push_back(k.make_manual_executor()); all.push_back(manuals.back()); }
    std::set<executor::Basic *> different;
    for (auto &e : all) different.insert(e.get());
    if (different.size() != all.size()) viol("engine:shared-executor", ctx);
    int want = 0;
    auto in = std::make_shared<std::atomic<int>>(0);
    int tasks = static_cast<int>(g.range(0, 12));
    for (int i = 0; i < tasks; ++i)
      for (auto &e : all) {
        bool manual = false;
        for (auto &x : manuals) manual |= x.get() == e.get();
        bool cpu = e == pool;
        e->post([done, in, cpu, cpu_most] {
          if (cpu) {
            int now = ++*in, old = *cpu_most;
            while (now > old && !cpu_most->compare_exchange_weak(old, now)) {}
            std::this_thread::sleep_for(200us);
          }
          ++*done;
          if (cpu) --*in;
        });
        if (!manual) ++want;
      }
    for (auto &x : manuals) { auto n = static_cast<int>(x->loop(1000)); if (n != tasks) viol("engine:manual", cat(ctx, " ", n)); want += n; }
    for (auto i = g.below(9); i; --i) {
      auto x = std::make_shared<Given>();
      x->arg = static_cast<int>(g.below(1000));
      x->throws = g.chance(1, 5);
      given.push_back(x);
      futures.push_back(k.enqueue([x](int a) -> int { ++x->calls; if (x->throws) throw a; return a + 1; }, x->arg));
    }
    for (auto i = g.below(4); i; --i) {
      auto x = std::make_shared<Looped>();
      looped.push_back(x);
      auto name = cat("looped", i);
      std::thread::id id;
      switch (g.below(3)) {
        case 0:
          x->wanted = 1;
          id = k.newthread(name, [x](int a) { ++x->calls; x->args += a; }, 7);
          break;
        case 1:
          x->wanted = static_cast<int>(g.range(1, 30));
          id = k.newthread(name, [x](int a) -> bool { x->args += a; return ++x->calls < x->wanted; }, 7);
          break;
        default:
          id = k.newthread(name, [x](int a) -> bool { ++x->inside; x->args += a; ++x->calls; std::this_thread::sleep_for(50us); --x->inside; return true; }, 7);
      }
      if (id == std::thread::id{} || id == std::this_thread::get_id()) viol("engine:thread-id", ctx);
    }
    if (looped_waited)
      for (auto &x : looped)
        if (!wait_until([&] { return x->wanted ? x->calls == x->wanted : x->calls > 2; }, 30000)) viol("engine:thread-calls", cat(ctx, " called ", x->calls.load(), " wanted ", x->wanted));
    // Tasks that make executors, also while the engine ends.
    if (g.chance(1, 2)) {
      made = std::make_shared<Made>();
      for (auto i = g.below(5); i; --i) {
        auto &e = all[1 + g.below(3)];
        e->post([k = &k, made, again = g.chance(1, 3), manual = g.chance(1, 2), us = g.below(3000)] {
          std::this_thread::sleep_for(std::chrono::microseconds(us));
          std::shared_ptr<executor::Basic> x;
          if (manual) x = k->make_manual_executor(); else x = k->make_worker_thread_executor();
          { std::lock_guard<std::mutex> l{made->m}; made->all.push_back(x); }
          if (again)
            try {
              x->post([k, made] { auto y = k->make_worker_thread_executor(); std::lock_guard<std::mutex> l{made->m}; made->all.push_back(y); });
            } catch (const std::exception &) {}
          progress();
        });
      }
    }
    bool wait = g.chance(2, 3);
    if (wait)
      for (size_t i = 0; i < given.size(); ++i) {
        if (futures[i].wait_for(30s) != std::future_status::ready) { viol("engine:function-not-run", cat(ctx, " ", i)); continue; }
        count("engine_functions");
      }
    if (wait && !wait_until([&] { return *done == want; }, 30000)) { viol("engine:tasks", cat(ctx, " ", done->load(), " of ", want)); }
    if (g.chance(2, 3)) {
      timer = tq->make_timer(1ms, 1ms, k.inline_executor(), [ticks] { ++*ticks; });
      if (!wait_until([&] { return *ticks > 2; }, 30000)) viol("engine:timer", ctx);
      count("engine_timers");
    }
    if (*cpu_most > static_cast<int>(o.max_cpu_threads)) viol("engine:more-than-cpu-threads", cat(ctx, " ", cpu_most->load()));
    if (wait) count("engine_ended_idle"); else count("engine_ended_busy");
  }
  after = *done;
  int after_ticks = *ticks;
  std::vector<int> looped_after;
  for (auto &x : looped) looped_after.push_back(x->calls);
  for (size_t i = 0; i < given.size(); ++i) {
    auto &x = *given[i];
    if (futures[i].wait_for(0s) != std::future_status::ready) { viol("engine:function-no-end", cat(ctx, " ", i)); continue; }
    int calls = x.calls;
    try {
      int v = futures[i].get();
      if (calls != 1 || x.throws || v != x.arg + 1) viol("engine:function-value", cat(ctx, " ", v, " for ", x.arg, " called ", calls));
    } catch (int v) {
      if (calls != 1 || !x.throws || v != x.arg) viol("engine:function-exception", cat(ctx, " ", v, " for ", x.arg, " called ", calls));
    } catch (const std::future_error &e) {
      if (calls != 0 || e.code() != std::future_errc::broken_promise) viol("engine:function-lost", cat(ctx, " ", e.what(), " called ", calls));
      count("engine_functions_dropped");
    }
  }
  for (auto &x : looped) {
    int calls = x->calls;
    if (x->args != calls * 7) viol("engine:thread-arguments", ctx);
    if (x->inside) viol("engine:thread-not-ended", ctx);
    if (x->wanted ? calls > x->wanted || (looped_waited && calls != x->wanted) : false) viol("engine:thread-calls", cat(ctx, " called ", calls, " of ", x->wanted));
    count(x->wanted ? "engine_threads_counted" : "engine_threads_ended");
  }
  if (made) {
    std::lock_guard<std::mutex> l{made->m};
    for (auto &e : made->all) all.push_back(e);
    count("engine_made_in_tasks", made->all.size());
  }
  for (auto &e : all) {
    if (!e->shutdown_requested()) viol("engine:not-shut-down", cat(ctx, " ", std::string{e->name_}));
    bool refused = false;
    try {
      e->post([done] { ++*done; });
    } catch (const std::exception &) { refused = true; }
    if (!refused) viol("engine:posted-after-end", cat(ctx, " ", std::string{e->name_}));
  }
  if (!tq->shutdown_requested()) viol("engine:timers-not-shut-down", ctx);
  std::this_thread::sleep_for(2ms);
  if (*done != after) viol("engine:runs-after-end", ctx);
  for (size_t i = 0; i < looped.size(); ++i) if (looped[i]->calls != looped_after[i]) viol("engine:thread-after-end", ctx);
  if (*ticks != after_ticks) viol("engine:ticks-after-end", ctx);
  {
    std::lock_guard<std::mutex> l{m};
    if (started != ended) viol("engine:thread-callbacks", cat(ctx, " ", started.size(), " names started, ", ended.size(), " ended"));
    for (auto &x : started) { if (ended[x.first] != x.second) viol("engine:thread-callback-count", cat(ctx, " ", x.first, " ", x.second, "/", ended[x.first])); count("engine_thread_callbacks", static_cast<uint64_t>(x.second)); }
    if (cb && started.empty() && (after || after_ticks)) viol("engine:no-thread-callback", ctx);
  }
  count("engines");
  eval();
  distinct(hash_mix(o.max_cpu_threads * 10 + o.max_background_threads, all.size()));
}

// Names of nets are unique; all of it from several threads.
static void registry_case(uint64_t seed) {
  Rng g{seed};
  std::string ctx = cat("seed ", seed);
  int n = static_cast<int>(g.range(2, 6));
  std::vector<std::unique_ptr<net::Listener>> ls(static_cast<size_t>(n));
  std::atomic<int> ok{0}, refused{0};
  bool same = g.chance(1, 2);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i) {
    net::setting_t s;
    s.address = "127.0.0.1:0";
    s.default_count = 4;
    s.max_count = 8;
    s.mode = g.chance(1, 2) ? net::Mode::Epoll : net::Mode::Select;
    if (same) s.name = cat("same", seed);
    ls[static_cast<size_t>(i)] = std::make_unique<net::Listener>(s);
    ls[static_cast<size_t>(i)]->set_codec({.encode = net::stream::line_encode, .decode = net::stream::line_decode});
  }
  auto listens = [](uint16_t port) { Client c; return c.connect(port); };
  for (int i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      perturb_point(62);
      try {
        if (ls[static_cast<size_t>(i)]->start()) ++ok;
        else viol("registry:not-started", ctx);
      } catch (const std::runtime_error &) {
        ++refused;
      }
    });
  for (auto &t : ts) t.join();
  if (same ? ok != 1 || refused != n - 1 : ok != n) viol(same ? "registry:name-shared" : "registry:unnamed-refused", cat(ctx, " ", ok.load(), " of ", n));
  int running = 0;
  for (auto &l : ls) {
    running += l->running();
    if (l->running() && !listens(l->address().port())) viol("registry:not-listening", ctx);
  }
  if (running != ok) viol("registry:running", cat(ctx, " ", running, " for ", ok.load()));
  // the refused ones go first: the name must stay taken
  if (same) {
    for (auto &l : ls) if (!l->running()) l.reset();
    net::setting_t s;
    s.address = "127.0.0.1:0";
    s.name = cat("same", seed);
    {
      net::Listener again{s};
      bool threw = false;
      try { again.start(); } catch (const std::runtime_error &) { threw = true; }
      if (!threw) viol("registry:name-forgotten", ctx);
    }
    for (auto &l : ls) {
      if (l && g.chance(1, 2)) l->stop();
      l.reset();
    }
    net::Listener again{s};
    try {
      if (!again.start() || !listens(again.address().port())) viol("registry:name-kept", ctx);
    } catch (const std::runtime_error &) { viol("registry:name-kept", ctx); }
    count("registry_names_again");
  }
  ls.clear();
  count(same ? "registry_same" : "registry_unnamed");
  eval();
  distinct(hash_mix(static_cast<uint64_t>(n), same));
}

// The same by hand: a net added under a name keeps it until it, and only it, is removed.
static void registry_by_hand(uint64_t seed) {
  Rng g{seed};
  std::string ctx = cat("by hand, seed ", seed);
  plain::Kernel k;
  std::map<std::string, std::shared_ptr<net::connection::Manager>> held;
  for (int i = 0; i < 12; ++i) {
    auto name = cat("n", g.below(4));
    auto it = held.find(name);
    if (g.chance(1, 2)) {
      net::setting_t s;
      s.name = name;
      s.mode = g.chance(1, 2) ? net::Mode::Epoll : net::Mode::Select;
      auto m = net::make_manager(s);
      if (m->size() != 0 || m->running()) viol("registry:new-net", ctx);
      bool threw = false;
      try { k.add(m); } catch (const std::runtime_error &) { threw = true; }
      if (threw != (it != held.end())) viol(threw ? "registry:name-kept" : "registry:name-shared", ctx);
      if (!threw) held[name] = m;
    } else if (it != held.end()) {
      if (g.chance(1, 2)) k.remove(it->second); else k.remove_net(name);
      held.erase(it);
      count("registry_removed_by_hand");
    } else k.remove_net(name);
  }
  eval();
}

int main(int argc, char **argv) {
  init(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  plain::Logger::set_output([](const std::string_view &s) {
    std::lock_guard<std::mutex> l{log_m};
    if (s.find("console listen") != std::string_view::npos) log_text += s;
  });
  plain::Logger::set_level(plain::LogLevel::Info);
  std::cout.setstate(std::ios::badbit);
  uint64_t s = opt.seed * 1000003, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, const std::function<void(uint64_t)> &f) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  if (selected("console")) { scenario("console"); console_run(s, n * 3); }
  run("kernel", 1, kernel_case);
  run("registry", 1, [](uint64_t x) { registry_case(x); if (x % 16 == 0) registry_by_hand(x); });
  int r = finish();
  std::cout.flush(); fflush(stdout);
  _exit(r);
}
