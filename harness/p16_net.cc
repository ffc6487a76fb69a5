// P16 delivery over connections, P17 connection life cycle, P18 rpc calls.
// Real listeners and connectors on the loopback interface, hostile raw sockets as peers.
#include "common.h"
#include "sockwrap.h"
#include <arpa/inet.h>
#include <barrier>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <cstring>
#include <dirent.h>
#include <future>
#include <iostream>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <set>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/socket/basic.h"
#include "plain/net/stream/codec.h"
using namespace vf;
using namespace std::chrono_literals;
namespace net = plain::net;
using PacketPtr = std::shared_ptr<net::packet::Basic>;
using ConnPtr = std::shared_ptr<net::connection::Basic>;
using Conn = net::connection::Basic;

// Nothing happened for this long although something is due. The loopback needs microseconds.
static constexpr unsigned kDead = 25000;
#if defined(__has_feature) && __has_feature(thread_sanitizer)
static constexpr bool kTsan = true;
#else
static constexpr bool kTsan = false;
#endif

[[noreturn]] static void dead(const std::string &key, const std::string &what) {
  viol(key, what);
  if (getenv("VF_HOLD")) for (;;) pause();  // for a debugger
  finish();
  std::cout.flush(); fflush(stdout);
  _exit(0);  // Threads of this case wait for ever.
}
static const std::byte *B(const std::string &s) { return reinterpret_cast<const std::byte *>(s.data()); }
static std::string text(const PacketPtr &p) {
  auto d = p->data();
  return {reinterpret_cast<const char *>(d.data()), d.size()};
}
static PacketPtr packet(const std::string &payload, uint16_t id = 7) {
  auto p = std::make_shared<net::packet::Basic>();
  p->set_id(id);
  p->set_writeable(true);
  if (!payload.empty()) p->write(B(payload), payload.size());
  p->set_writeable(false);
  return p;
}
static std::string wire(const std::string &payload, bool line, uint16_t id = 7) {
  if (line) return payload + "\n";
  std::string r;
  r += static_cast<char>(id >> 8); r += static_cast<char>(id);
  uint32_t n = static_cast<uint32_t>(payload.size());
  for (int s = 24; s >= 0; s -= 8) r += static_cast<char>(n >> s);
  return r + payload;
}

// ---- messages that identify themselves: "tag dir sender seq len:pattern"
static char pat(uint64_t t, uint64_t d, uint64_t s, uint64_t q, uint64_t i) {
  uint64_t x = (t * 31 + d * 7 + s * 131 + q * 1009 + i * 2654435761u);
  x ^= x >> 13;
  return static_cast<char>('a' + x % 26);
}
static std::string message(uint64_t t, uint64_t d, uint64_t s, uint64_t q, size_t len) {
  std::string r = cat(t, ' ', d, ' ', s, ' ', q, ' ', len, ':');
  for (size_t i = 0; i < len; ++i) r += pat(t, d, s, q, i);
  return r;
}
struct Parsed { bool ok{false}; uint64_t t{0}, d{0}, s{0}, q{0}; };
static Parsed parse(const std::string &m) {
  Parsed p;
  unsigned long long t, d, s, q, len;
  int used = 0;
  if (sscanf(m.c_str(), "%llu %llu %llu %llu %llu:%n", &t, &d, &s, &q, &len, &used) != 5 || used == 0) return p;
  if (m.size() != static_cast<size_t>(used) + len) return p;
  for (size_t i = 0; i < len; ++i)
    if (m[static_cast<size_t>(used) + i] != pat(t, d, s, q, i)) return p;
  p = {true, t, d, s, q};
  return p;
}
// What one direction of one connection must receive.
struct Rx {
  uint64_t tag, dir;
  std::vector<std::atomic<uint64_t>> next;
  std::atomic<uint64_t> got{0};
  Rx(uint64_t t, uint64_t d, size_t senders) : tag{t}, dir{d}, next(senders) {}
  void receive(const std::string &m, const char *where) {
    auto p = parse(m);
    if (!p.ok) { viol("delivery:damaged", cat(where, ": got ", m.size(), " bytes that are no packet sent: ", m.substr(0, 60))); return; }
    if (p.t != tag || p.d != dir || p.s >= next.size()) { viol("delivery:misrouted", cat(where, ": packet ", p.t, '/', p.d, '/', p.s, " arrived at ", tag, '/', dir)); return; }
    auto want = next[p.s].load();
    if (p.q != want) viol(p.q < want ? "delivery:repeated" : "delivery:lost-or-reordered", cat(where, ": connection ", tag, " sender ", p.s, " got ", p.q, " want ", want));
    next[p.s] = p.q + 1;
    got++;
    progress();
  }
};

// ---- raw peers
struct Raw {
  int fd{-1};
  std::string in;
  ~Raw() { close(); }
  bool connect(uint16_t port) {
    fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    for (int i = 0; i < 4000; ++i) {
      int r = ::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
      if (r == 0) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return true; }
      if (errno == EINTR) { pollfd p{fd, POLLOUT, 0}; ::poll(&p, 1, 5000); int e = 0; socklen_t l = sizeof e; getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l); if (!e) return true; }
      if (errno != EAGAIN && errno != EADDRNOTAVAIL) return false;
      progress();
      std::this_thread::sleep_for(20ms);
    }
    return false;
  }
  bool write(const std::string &s) {
    size_t off = 0;
    while (off < s.size()) {
      auto r = ::write(fd, s.data() + off, s.size() - off);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) return false;
      off += static_cast<size_t>(r);
    }
    return true;
  }
  // 1 data came, 0 end, -1 reset, -2 nothing came
  int fill(unsigned ms) {
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    for (;;) {
      pollfd p{fd, POLLIN, 0};
      auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
      int r = ::poll(&p, 1, left > 0 ? static_cast<int>(left) : 0);
      if (r < 0 && errno == EINTR) continue;
      if (r <= 0) return -2;
      char b[65536];
      auto n = ::read(fd, b, sizeof b);
      if (n < 0 && errno == EINTR) continue;
      if (n < 0) return -1;
      if (n == 0) return 0;
      in.append(b, static_cast<size_t>(n));
      return 1;
    }
  }
  // 1: next packet in out (binary codec), else as fill.
  int next(std::string &out, unsigned ms = kDead) {
    for (;;) {
      if (in.size() >= 6) {
        auto u = [&](size_t i) { return static_cast<uint32_t>(static_cast<unsigned char>(in[i])); };
        size_t n = u(2) << 24 | u(3) << 16 | u(4) << 8 | u(5);
        if (in.size() >= 6 + n) { out = in.substr(6, n); in.erase(0, 6 + n); return 1; }
      }
      int r = fill(ms);
      if (r != 1) return r;
    }
  }
  int drain_to_end() {  // the end of the stream
    for (;;) { int r = fill(kDead); if (r != 1) return r; }
  }
  void reset() {
    linger l{1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close();
  }
  void close() { if (fd >= 0) ::close(fd); fd = -1; }
};

static int fd_count() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}
static net::setting_t setting(Rng &g, net::Mode mode, bool listen, uint32_t max = 64) {
  static std::atomic<int> n{0};
  net::setting_t s;
  s.mode = mode;
  s.name = cat("vf-net-", n++);
  s.max_count = max;
  s.default_count = static_cast<uint32_t>(g.range(0, std::min<int64_t>(max, 5)));
  if (listen) s.address = "127.0.0.1:0";
  return s;
}
// The executor the connections work on: the default, a pool or a thread per work.
static std::shared_ptr<plain::concurrency::executor::Basic> executor(Rng &g) {
  using namespace plain::concurrency::executor;
  auto k = g.below(6);
  if (k < 3) return {};
  if (k == 3) { count("nets_on_thread_executor"); return std::make_shared<Thread>(); }
  if (k == 4) return std::make_shared<WorkerThread>();
  count("nets_on_pool");
  return std::make_shared<ThreadPool>("net", static_cast<size_t>(g.range(1, 6)), std::chrono::milliseconds(g.range(1, 50)));
}
static net::Mode rnd_mode(Rng &g) { return g.chance(1, 2) ? net::Mode::Epoll : net::Mode::Select; }
static const char *mode_name(net::Mode m) { return m == net::Mode::Epoll ? "epoll" : "select"; }

// Signals interrupt the waits of the library's threads (never the harness' ones).
static void on_usr1(int) {}
static void allow_usr1(bool f) {
  sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1);
  pthread_sigmask(f ? SIG_UNBLOCK : SIG_BLOCK, &s, nullptr);
}
struct Storm {
  std::atomic<bool> end{false};
  std::thread t;
  explicit Storm(bool on) {
    if (!on) return;
    t = std::thread([this] {
      while (!end) {
        if (DIR *d = opendir("/proc/self/task")) {
          while (auto e = readdir(d)) {
            int tid = atoi(e->d_name);
            if (tid > 0) { syscall(SYS_tgkill, getpid(), tid, SIGUSR1); count("signals_sent"); }
          }
          closedir(d);
        }
        std::this_thread::sleep_for(1ms);
      }
    });
  }
  ~Storm() { end = true; if (t.joinable()) t.join(); }
};
static void inject(Rng &g, bool on) {
  g_short_recv = on && g.chance(1, 2) ? static_cast<unsigned>(g.range(2, 6)) : 0;
  g_short_send = on && g.chance(1, 2) ? static_cast<unsigned>(g.range(2, 6)) : 0;
  g_again_send = on && g.chance(1, 2) ? static_cast<unsigned>(g.range(3, 8)) : 0;
}

// ================================================================= P16
static void deliver_case(Rng &g) {
  const auto mode = rnd_mode(g), cmode = rnd_mode(g);
  const bool line = g.chance(1, 3);
  const size_t nconn = static_cast<size_t>(g.range(1, 5)), nsend = static_cast<size_t>(g.range(1, nconn > 3 ? 1 : 3));
  const size_t stallers = g.chance(1, 3) ? static_cast<size_t>(g.range(1, 3)) : 0;
  const bool echo = g.chance(1, 3), per_conn = g.chance(1, 2), signals = g.chance(1, 4);
  const bool big = g.chance(1, 4);
  const uint64_t h = hash_mix(hash_mix(hash_mix(7, static_cast<uint64_t>(mode) * 8 + static_cast<uint64_t>(cmode)), line * 2 + echo), nconn * 100 + nsend * 10 + stallers);
  struct Plan { std::vector<size_t> len; bool pingpong; unsigned pause; };
  auto plan = [&] {
    Plan p;
    p.pingpong = g.chance(1, 2);
    p.pause = g.chance(1, 3) ? static_cast<unsigned>(g.range(1, 200)) : 0;
    size_t n = static_cast<size_t>(g.range(1, p.pingpong ? 25 : 80));
    for (size_t i = 0; i < n; ++i)
      p.len.push_back(static_cast<size_t>(big && g.chance(1, 12) ? g.range(20000, 150000) : g.chance(1, 5) ? g.range(500, 5000) : g.range(0, 60)));
    return p;
  };
  std::vector<std::vector<Plan>> up(nconn), down(nconn);
  for (size_t c = 0; c < nconn; ++c) for (size_t s = 0; s < nsend; ++s) { up[c].push_back(plan()); down[c].push_back(plan()); }

  std::vector<std::unique_ptr<Rx>> srx, crx, ex;  // up, down, echo of up
  for (size_t c = 0; c < nconn; ++c) {
    srx.push_back(std::make_unique<Rx>(c, 0, nsend));
    crx.push_back(std::make_unique<Rx>(c, 1, nsend));
    ex.push_back(std::make_unique<Rx>(c, 0, nsend));
  }
  std::mutex m;
  std::map<uint64_t, ConnPtr> server_conn;
  std::map<int, uint64_t> tag_of;
  std::atomic<uint64_t> stalled_bytes{0}, bad_client_disconnect{0}, bcast_got{0}, bcast_up{0};

  allow_usr1(true);
  auto L = std::make_unique<net::Listener>(setting(g, mode, true), executor(g));
  auto C = std::make_unique<net::Connector>(setting(g, cmode, false), executor(g));
  net::stream::codec_t codec{net::stream::line_encode, net::stream::line_decode};
  const bool own_codec = line && g.chance(1, 2);  // of each connection and not of the net
  if (own_codec) L->set_connect_callback([&](Conn *k) { k->set_codec(codec); });
  else if (line) { L->set_codec(codec); C->set_codec(codec); }
  if (static_cast<bool>(L->codec().encode) != (line && !own_codec) || static_cast<bool>(C->codec().decode) != (line && !own_codec)) viol("delivery:codec", "codec() is not what was set");
  auto *lp = L.get();
  L->set_dispatcher([&](Conn *conn, PacketPtr p) {
    auto t = text(p);
    if (t.starts_with("H ")) {
      std::unique_lock l{m};
      auto tag = strtoull(t.c_str() + 2, nullptr, 10);
      tag_of[conn->id()] = tag;
      server_conn[tag] = lp->get_conn(conn->id());
      return true;
    }
    if (t.starts_with("STALL")) {  // a peer that does not read
      for (int i = 0; i < 30; ++i) if (conn->send(packet(std::string(100000, 'z')))) stalled_bytes += 100000;
      std::unique_lock l{m};
      tag_of[conn->id()] = 1000000;
      return true;
    }
    uint64_t tag;
    { std::unique_lock l{m};
      auto it = tag_of.find(conn->id());
      if (it == tag_of.end()) { viol("delivery:misrouted", "a packet came before the first one of its connection"); return true; }
      tag = it->second; }
    if (t == "BROADCAST") { bcast_up++; return true; }
    if (tag >= nconn) { viol("delivery:misrouted", cat("packet at a connection that sent none: ", t.substr(0, 40))); return true; }
    srx[tag]->receive(t, "listener");
    if (echo) conn->send(packet(t));
    return true;
  });
  auto client_rx = [&](uint64_t tag, const PacketPtr &p) {
    auto t = text(p);
    if (t == "BROADCAST") { bcast_got++; return; }
    auto pr = parse(t);
    if (pr.ok && pr.d == 0 && echo) ex[tag]->receive(t, "echo");
    else crx[tag]->receive(t, "connector");
  };
  std::map<int, uint64_t> ctag;
  if (!per_conn) C->set_dispatcher([&](Conn *conn, PacketPtr p) {
    uint64_t tag;
    { std::unique_lock l{m}; auto it = ctag.find(conn->id()); if (it == ctag.end()) { viol("delivery:misrouted", "packet at an unknown connector connection"); return true; } tag = it->second; }
    client_rx(tag, p);
    return true;
  });
  if (!L->start() || !C->start()) harness_error("start failed");
  allow_usr1(false);
  const auto addr = L->address();
  { Storm storm{signals};
  inject(g, g.chance(2, 3));
  std::vector<std::unique_ptr<Raw>> raws;
  for (size_t i = 0; i < stallers; ++i) {
    auto r = std::make_unique<Raw>();
    if (!r->connect(addr.port())) harness_error("raw connect");
    r->write(wire("STALL", line));
    raws.push_back(std::move(r));
  }
  std::vector<ConnPtr> conns;
  for (size_t c = 0; c < nconn; ++c) {
    auto prepare = [&, c](Conn *k) {
      std::unique_lock l{m};
      ctag[k->id()] = c;
      if (own_codec) k->set_codec(codec);
      if (per_conn) k->set_dispatcher([&, c](Conn *, PacketPtr p) { client_rx(c, p); return true; });
      return true;
    };
    auto conn = g.chance(1, 2) ? C->connect("127.0.0.1", addr.port(), prepare) : C->connect(cat("127.0.0.1:", addr.port()), prepare);
    if (!conn) dead("connect:refused", cat("connect ", c, " of ", nconn, " failed, ", mode_name(cmode)));
    if (!conn->send(packet(cat("H ", c)))) viol("delivery:send-refused", "send on a fresh connection");
    conns.push_back(conn);
  }
  if (!wait_until([&] { progress(); std::unique_lock l{m}; return server_conn.size() == nconn; }, kDead))
    dead("delivery:stalled", cat("first packets of ", nconn, " connections did not all arrive; ", mode_name(mode), '/', mode_name(cmode)));
  std::atomic<uint64_t> up_bytes{0}, down_bytes{0}, sent{0};
  for (size_t c = 0; c < nconn; ++c) up_bytes += wire(cat("H ", c), line).size();
  up_bytes += stallers * wire("STALL", line).size();
  std::vector<std::thread> ts;
  auto run = [&](uint64_t c, uint64_t d, uint64_t s, ConnPtr conn, const Plan &p, Rx &rx, Rx *e) {
    for (size_t q = 0; q < p.len.size(); ++q) {
      auto msg = message(c, d, s, q, p.len[q]);
      (d == 0 ? up_bytes : down_bytes) += wire(msg, line).size();
      if (e) down_bytes += wire(msg, line).size();
      if (!conn->send(packet(msg))) { viol("delivery:send-refused", cat("send ", q, " of ", msg.size(), " bytes")); return; }
      sent++;
      if (p.pingpong) {
        auto ok = wait_until([&] { return rx.next[s] > q && (!e || e->next[s] > q); }, kDead);
        if (!ok) dead("delivery:stalled", cat("packet ", q, " of sender ", s, d ? " listener->connector" : " connector->listener", " did not arrive although nothing else is under way; ", mode_name(mode), '/', mode_name(cmode), line ? " line" : "", " echo=", echo));
      } else if (p.pause) std::this_thread::sleep_for(std::chrono::microseconds(p.pause));
    }
  };
  for (size_t c = 0; c < nconn; ++c) for (size_t s = 0; s < nsend; ++s) {
    ts.emplace_back(run, c, 0, s, conns[c], std::cref(up[c][s]), std::ref(*srx[c]), echo ? ex[c].get() : nullptr);
    ts.emplace_back(run, c, 1, s, server_conn[c], std::cref(down[c][s]), std::ref(*crx[c]), nullptr);
  }
  for (auto &t : ts) t.join();
  auto due = [&](std::vector<std::vector<Plan>> &pl, size_t c) { uint64_t n = 0; for (auto &p : pl[c]) n += p.len.size(); return n; };
  auto all = [&] {
    for (size_t c = 0; c < nconn; ++c)
      if (srx[c]->got < due(up, c) || crx[c]->got < due(down, c) || (echo && ex[c]->got < due(up, c))) return false;
    return true;
  };
  auto total = [&] { uint64_t n = 0; for (size_t c = 0; c < nconn; ++c) n += srx[c]->got + crx[c]->got + ex[c]->got; return n; };
  for (uint64_t before = total(); !wait_until(all, kDead);) {
    auto now = total();
    if (now == before) {
      std::string w;
      for (size_t c = 0; c < nconn; ++c) w += cat(" conn", c, ": up ", srx[c]->got.load(), '/', due(up, c), " down ", crx[c]->got.load(), '/', due(down, c));
      dead("delivery:lost", cat("packets never arrived:", w, "; ", mode_name(mode), '/', mode_name(cmode), line ? " line" : "", " stallers=", stallers));
    }
    before = now;
  }
  if (stallers == 0) {
    // One packet to everybody.
    L->broadcast(packet("BROADCAST"));
    if (!wait_until([&] { return bcast_got >= nconn; }, kDead)) dead("broadcast:lost", cat("a broadcast reached ", bcast_got.load(), " of ", nconn, " connections"));
    down_bytes += nconn * wire("BROADCAST", line).size();
    C->broadcast(packet("BROADCAST"));
    if (!wait_until([&] { return bcast_up >= nconn; }, kDead)) dead("broadcast:lost", cat("a broadcast of the connector reached ", bcast_up.load(), " of ", nconn, " connections"));
    up_bytes += nconn * wire("BROADCAST", line).size();
    auto sizes = [&] { return L->recv_size() == up_bytes && C->send_size() == up_bytes && C->recv_size() == down_bytes && L->send_size() == down_bytes; };
    if (!wait_until(sizes, kDead)) viol("sizes:wrong", cat("up ", up_bytes.load(), ": sent ", C->send_size(), " received ", L->recv_size(), "; down ", down_bytes.load(), ": sent ", L->send_size(), " received ", C->recv_size()));
    if (bcast_got != nconn || bcast_up != nconn) viol("broadcast:repeated", cat(bcast_got.load(), " and ", bcast_up.load(), " for ", nconn));
    count("sizes_checked");
  } else count("stalled_peers", stallers);
  for (size_t c = 0; c < nconn; ++c)
    if (srx[c]->got != due(up, c) || crx[c]->got != due(down, c)) viol("delivery:extra", "more packets than sent");
  count("packets_delivered", total());
  count(cat("conns_", mode_name(mode)), nconn);
  if (line) count(own_codec ? "own_codec_cases" : "line_codec_cases");
  if (echo) count("echo_cases");
  if (signals) count("signal_cases");
  inject(g, false);
  }
  allow_usr1(true);
  if (g.chance(1, 2)) { C->stop(); L->stop(); } else { L->stop(); C->stop(); }
  allow_usr1(false);
  eval();
  distinct(h);
  sample(cat("deliver ", mode_name(mode), '/', mode_name(cmode), " conns=", nconn, " senders=", nsend, " stallers=", stallers, line ? " line" : " binary"));
}

// Many connections have work at once, much more than are worked on at a time.
static void crowd_case(Rng &g) {
  const auto mode = rnd_mode(g);
  const size_t n = static_cast<size_t>(g.range(70, 160)), per = static_cast<size_t>(g.range(1, 3));
  auto L = std::make_unique<net::Listener>(setting(g, mode, true, 256), executor(g));
  std::mutex m;
  std::condition_variable cv;
  bool open = true;
  std::atomic<int> connected{0};
  std::vector<std::atomic<int>> got(n);
  std::map<int, size_t> who;
  L->set_connect_callback([&](Conn *) { connected++; });
  L->set_dispatcher([&](Conn *c, PacketPtr p) {
    { std::unique_lock l{m}; cv.wait(l, [&] { return open; }); }
    unsigned i = 0, q = 0;
    auto t = text(p);
    if (sscanf(t.c_str(), "C %u %u", &i, &q) != 2 || i >= n) { viol("crowd:damaged", t.substr(0, 40)); return true; }
    { std::unique_lock l{m};
      auto [it, fresh] = who.emplace(c->id(), i);
      if (it->second != i) viol("crowd:misrouted", cat("a packet of ", i, " at the connection of ", it->second)); }
    if (got[i] != static_cast<int>(q)) viol("crowd:order", cat("packet ", q, " of ", i, " after ", got[i].load()));
    got[i] = static_cast<int>(q) + 1;
    c->send(packet(t));
    progress();
    return true;
  });
  if (!L->start()) harness_error("start failed");
  const uint16_t port = L->address().port();
  std::vector<std::unique_ptr<Raw>> raws;
  for (size_t i = 0; i < n; ++i) {
    raws.push_back(std::make_unique<Raw>());
    if (!raws.back()->connect(port)) harness_error("raw connect");
    // The backlog is small, the system takes a second for what does not fit.
    wait_until([&] { return connected + 4 > static_cast<int>(i); }, 100);
    progress();
  }
  if (!wait_until([&] { progress(); return connected >= static_cast<int>(n); }, kDead)) dead("crowd:connect-missed", cat(connected.load(), " of ", n, ' ', mode_name(mode)));
  const size_t rounds = static_cast<size_t>(g.range(1, 3));
  for (size_t r = 0; r < rounds; ++r) {
    { std::unique_lock l{m}; open = false; }
    for (size_t i = 0; i < n; ++i)
      for (size_t q = 0; q < per; ++q) raws[i]->write(wire(cat("C ", i, ' ', r * per + q), false));
    // All are waiting now, most of them for their turn.
    std::this_thread::sleep_for(std::chrono::milliseconds(g.range(0, 60)));
    { std::unique_lock l{m}; open = true; }
    cv.notify_all();
    for (size_t i = 0; i < n; ++i)
      for (size_t q = 0; q < per; ++q) {
        std::string t;
        if (int e = raws[i]->next(t); e != 1) dead("crowd:lost", cat("packet ", r * per + q, " of connection ", i, " of ", n, " was not served (", e, "), dispatched ", got[i].load(), ' ', mode_name(mode)));
        if (t != cat("C ", i, ' ', r * per + q)) viol("crowd:answer", t.substr(0, 40));
      }
  }
  count("crowd_packets", n * per * rounds);
  eval();
  distinct(hash_mix(hash_mix(31, n * 8 + per), rounds * 2 + (mode == net::Mode::Epoll)));
  raws.clear();
  L->stop();
}

// A net with nothing to do rests: whatever came before (traffic, answers that nobody reads, ends of its peers), it
// uses next to no processor time. Only a time that is never idle counts.
static void idle_case(Rng &g) {
  const auto mode = rnd_mode(g), cmode = rnd_mode(g);
  const size_t n = static_cast<size_t>(g.range(1, 4));
  auto L = std::make_unique<net::Listener>(setting(g, mode, true), executor(g));
  auto C = std::make_unique<net::Connector>(setting(g, cmode, false), executor(g));
  std::atomic<int> echoed{0}, back{0}, left{0};
  L->set_dispatcher([&](Conn *c, PacketPtr p) { auto t = text(p); if (t.size() > 4000) for (int i = 0; i < 300; ++i) c->send(packet(t)); else c->send(packet(t)); echoed++; return true; });
  L->set_disconnect_callback([&](Conn *) { left++; });
  C->set_dispatcher([&](Conn *, PacketPtr) { back++; return true; });
  if (!L->start() || !C->start()) harness_error("start failed");
  std::vector<std::unique_ptr<Raw>> raws;
  for (size_t i = 0; i < n; ++i) {
    raws.push_back(std::make_unique<Raw>());
    if (!raws.back()->connect(L->address().port())) harness_error("raw connect");
  }
  auto conn = C->connect(cat("127.0.0.1:", L->address().port()));
  if (!conn) dead("idle:connect", mode_name(cmode));
  const int k = static_cast<int>(g.range(1, 20));
  for (int i = 0; i < k; ++i) {
    for (auto &r : raws) r->write(wire("idle", false));
    if (!conn->send(packet("idle"))) dead("idle:send", mode_name(cmode));
  }
  if (!wait_until([&] { progress(); return echoed >= k * static_cast<int>(n + 1) && back >= k; }, kDead)) dead("idle:lost", cat(echoed.load(), " echoes, ", back.load(), " back"));
  const int how = static_cast<int>(g.below(4));
  if (how == 1) {  // more answers than the peer takes
    raws[0]->write(wire(std::string(8000, 'i'), false));
    wait_until([&] { progress(); return echoed > k * static_cast<int>(n + 1); }, kDead);
  } else if (how == 2) {
    if (g.chance(1, 2)) raws[0]->reset(); else raws[0]->close();
    if (!wait_until([&] { progress(); return left >= 1; }, kDead)) dead("idle:end", mode_name(mode));
  } else if (how == 3) {  // part of a packet
    auto w = wire(std::string(100, 'p'), false);
    raws[0]->write(w.substr(0, 1 + g.below(w.size() - 1)));
  }
  auto cpu = [] { timespec t{}; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) * 1e3 + static_cast<double>(t.tv_nsec) / 1e6; };
  double most = 0;
  bool rests = false;
  for (int i = 0; i < 40 && !rests; ++i) {
    auto c0 = cpu();
    auto t0 = std::chrono::steady_clock::now();
    std::this_thread::sleep_for(50ms);
    auto part = (cpu() - c0) / std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
    most = std::max(most, part);
    rests = part < 0.3;
    progress();
  }
  if (!rests) viol("idle:busy", cat("listener ", mode_name(mode), " connector ", mode_name(cmode), " case ", how, " use ", most, " processors for nothing"));
  count(cat("idle_", how));
  eval();
  distinct(hash_mix(61, static_cast<uint64_t>(how) * 64 + n * 4 + (mode == net::Mode::Epoll) * 2 + (cmode == net::Mode::Epoll)));
  raws.clear();
  C->stop();
  L->stop();
}

// A raw client that cuts its packets wherever it likes; the server echoes.
static void cuts_case(Rng &g) {
  const auto mode = rnd_mode(g);
  auto L = std::make_unique<net::Listener>(setting(g, mode, true), executor(g));
  L->set_dispatcher([&](Conn *conn, PacketPtr p) { conn->send(packet(text(p))); return true; });
  if (!L->start()) harness_error("start failed");
  Raw r;
  if (!r.connect(L->address().port())) harness_error("raw connect");
  uint64_t sent = 0, h = 11;
  auto put = [&](const std::string &s) {
    if (!r.write(s)) dead("cuts:closed", "the connection was closed under a valid stream");
    sent += s.size();
    if (g.chance(9, 10) && !wait_until([&] { return L->recv_size() >= sent; }, kDead))
      dead("cuts:not-read", cat("sent ", sent, " the listener read ", L->recv_size()));
  };
  const int n = static_cast<int>(g.range(70, 110));
  const int style = static_cast<int>(g.below(3));
  for (int i = 0; i < n; ++i) {
    auto msg = message(3, 0, 0, static_cast<uint64_t>(i), static_cast<size_t>(g.range(0, 300)));
    auto w = wire(msg, false);
    size_t cut = style == 0 ? 1 + g.below(5) : style == 1 ? 1 + g.below(w.size() - 1) : 0;
    if (cut) { put(w.substr(0, cut)); put(w.substr(cut)); h = hash_mix(h, cut); }
    else for (size_t k = 0; k < w.size();) { size_t s = std::min<size_t>(w.size() - k, k < 8 ? 1 : 1 + g.below(200)); put(w.substr(k, s)); k += s; h = hash_mix(h, k); }
    std::string got;
    int e = r.next(got);
    if (e != 1) dead("cuts:no-answer", cat("packet ", i, " of a stream cut in pieces (style ", style, ") was not answered: ", e == -2 ? "nothing came" : "closed"));
    if (got != msg) { viol("cuts:wrong-answer", cat("packet ", i, " came back as ", got.substr(0, 80))); break; }
    count("cut_packets");
  }
  eval();
  distinct(h);
  L->stop();
}

// ================================================================= P17
struct Life {
  std::mutex m;
  struct Inc { uint64_t n; std::atomic<bool> active{true}; bool own{false}; std::string name; uint64_t tag{~0ull}; int own_disc{0}; bool own_codec{false}; std::atomic<uint64_t> decoded{0}, encoded{0}; };
  std::map<Conn *, std::shared_ptr<Inc>> cur;
  struct Tag { uint64_t next{0}; bool hello{false}, gone{false}, closing{false}; };
  std::map<uint64_t, Tag> tags;
  uint64_t incs{0}, disc{0};
  std::atomic<bool> stopped{false};
  size_t active_max{0}, active{0};
};

static void lifecycle_case(Rng &g) {
  const auto mode = rnd_mode(g);
  const uint32_t max = static_cast<uint32_t>(g.range(2, 8));
  const size_t clients = static_cast<size_t>(g.range(1, max - 1)), rounds = static_cast<size_t>(g.range(3, 8));
  const bool stop_early = g.chance(1, 3), signals = g.chance(1, 5);
  const int fds = fd_count();
  Life lf;
  uint64_t seed = g.next();
  allow_usr1(true);
  auto st = setting(g, mode, true, max);
  auto name = st.name;
  auto L = std::make_unique<net::Listener>(st, executor(g));
  auto touch = [&](const char *what) {
    if (lf.stopped) viol("life:after-stop", cat(what, " after stop() returned"));
    progress();
  };
  auto handle = [&](Conn *conn, const PacketPtr &p, uint64_t own) -> bool {
    touch("a packet was dispatched");
    auto t = text(p);
    std::unique_lock l{lf.m};
    auto it = lf.cur.find(conn);
    if (it == lf.cur.end() || !it->second->active) { viol("life:packet-while-closed", cat("packet dispatched at a connection without connect callback: ", t.substr(0, 40))); return true; }
    auto inc = it->second;
    if (own != inc->n && (own != ~0ull || inc->own))
      viol("life:inherited", cat("the dispatcher of connection ", own, " got a packet of the later connection ", inc->n));
    if (!inc->name.empty()) {
      l.unlock();
      auto nm = conn->name();
      if (nm != inc->name && !nm.empty()) viol("life:name", cat("name is ", nm, " want ", inc->name));
      l.lock();
    }
    unsigned long long tag = 0, q = 0; char cmd[16] = "";
    if (sscanf(t.c_str(), "%15s %llu %llu", cmd, &tag, &q) < 2) { viol("life:damaged", t.substr(0, 60)); return true; }
    auto &tg = lf.tags[tag];
    std::string c = cmd;
    if (tg.gone) viol("life:packet-after-disconnect", t.substr(0, 60));
    if (inc->own_codec != (inc->decoded > 0)) viol("life:codec", "a packet was not decoded by the codec of its connection");
    if (c == "hello") {
      if (inc->tag != ~0ull) viol("life:misrouted", "a second first packet");
      inc->tag = tag; tg.hello = true;
      l.unlock();
      conn->send(packet(cat("ok ", tag)));
      return true;
    }
    if (inc->tag != tag) viol("life:misrouted", cat("packet of client ", tag, " at the connection of ", inc->tag));
    if (tg.closing) viol("life:packet-after-refusal", cat("packet dispatched after the dispatcher returned false: ", t.substr(0, 60)));
    if (tg.next != q) viol("life:packets", cat("client ", tag, " packet ", q, " want ", tg.next));
    tg.next = q + 1;
    if (c == "false") { tg.closing = true; return false; }
    l.unlock();
    if (c == "shut") conn->shutdown();
    if (c == "echo") conn->send(packet(t));
    if (c == "flood") for (int i = 0; i < 20; ++i) conn->send(packet(std::string(3000, 'f')));
    return true;
  };
  L->set_connect_callback([&](Conn *conn) {
    touch("a connect callback");
    Rng r{seed + lf.incs};
    auto nm = conn->name();
    // Without one if the peer has reset it already.
    if (!nm.empty() && nm != cat(name, ".", conn->id())) viol("life:name", cat("a new connection is named ", nm, " want ", name, ".", conn->id()));
    std::unique_lock l{lf.m};
    auto &inc = lf.cur[conn];
    if (inc && inc->active) viol("life:connect-twice", "connect callback for an active connection");
    inc = std::make_shared<Life::Inc>();
    inc->n = lf.incs++;
    lf.active++;
    lf.active_max = std::max(lf.active_max, lf.active);
    if (lf.active > max) viol("life:too-many", cat(lf.active, " active connections, the limit is ", max));
    auto keep = inc;
    bool own_disc = r.chance(1, 2), own_name = r.chance(1, 3), own_dispatch = r.chance(1, 3);
    bool own_codec = r.chance(1, 3);
    inc->own = own_dispatch;
    inc->own_codec = own_codec;
    if (own_name) inc->name = cat("client-", inc->n);
    l.unlock();
    if (own_disc) {
      keep->own_disc = -1;  // one is due
      conn->set_disconnect_callback([&, keep](Conn *k) {
        touch("a disconnect callback");
        std::unique_lock l{lf.m};
        auto it = lf.cur.find(k);
        if (it == lf.cur.end() || it->second != keep) viol("life:inherited", cat("the disconnect callback of connection ", keep->n, " was called for another one"));
        if (keep->own_disc != -1) viol("life:disconnect-twice", "a connection's own disconnect callback was called twice");
        keep->own_disc = 1;
      });
    }
    if (own_name) conn->set_name(keep->name);
    if (own_codec) conn->set_codec({
      [&, keep](const PacketPtr &p) {
        if (!keep->active) viol("life:inherited", cat("the codec of connection ", keep->n, " was used for a later one"));
        keep->encoded++;
        return net::stream::encode(p);
      },
      [&, keep](net::stream::Basic *in, const net::packet::limit_t &limit) {
        if (!keep->active) viol("life:inherited", cat("the codec of connection ", keep->n, " was used for a later one"));
        keep->decoded++;
        return net::stream::decode(in, limit);
      }});
    if (own_dispatch) conn->set_dispatcher([&, keep](Conn *k, PacketPtr p) { return handle(k, p, keep->n); });
  });
  L->set_disconnect_callback([&](Conn *conn) {
    touch("a disconnect callback");
    std::unique_lock l{lf.m};
    auto it = lf.cur.find(conn);
    if (it == lf.cur.end() || !it->second->active) { viol("life:disconnect-twice", "disconnect callback for a connection that is not active"); return; }
    auto &inc = *it->second;
    if (inc.own_disc == -1) viol("life:disconnect-missed", "a connection's own disconnect callback was not called");
    inc.active = false;
    lf.active--;
    lf.disc++;
    if (inc.tag != ~0ull) lf.tags[inc.tag].gone = true;
    if (inc.own_codec && inc.decoded) count("own_codecs");
    if (inc.own_codec && inc.tag != ~0ull && !inc.encoded) viol("life:codec", "an answer was not encoded by the codec of its connection");
  });
  L->set_dispatcher([&](Conn *conn, PacketPtr p) { return handle(conn, p, ~0ull); });
  if (!L->start()) harness_error("start failed");
  allow_usr1(false);
  const uint16_t port = L->address().port();
  std::atomic<uint64_t> tags{0}, hh{3};
  std::atomic<bool> stopping{false};
  inject(g, g.chance(1, 2));
  auto *lp = L.get();
  {
    Storm storm{signals};
    std::vector<std::thread> ts;
    for (size_t c = 0; c < clients; ++c) ts.emplace_back([&, s = g.next()] {
      Rng r{s};
      for (size_t i = 0; i < rounds && !stopping; ++i) {
        Raw raw;
        if (!raw.connect(port)) { if (stopping) return; harness_error("raw connect"); }
        const uint64_t tag = tags++;
        std::string got;
        raw.write(wire(cat("hello ", tag), false));
        int e = raw.next(got);
        if (e != 1) {
          if (stopping) return;
          dead("life:refused", cat("a connection was not served though at most ", clients, " of ", max, " are used: ", e == -2 ? "nothing came" : e == 0 ? "closed" : "reset", " round ", i, " signals ", signals, ' ', mode_name(mode)));
        }
        const int act = static_cast<int>(r.below(9));
        const uint64_t k = static_cast<uint64_t>(r.range(0, 40));
        std::string out;
        uint64_t q = 0;
        for (; q < k; ++q) out += wire(cat(r.chance(1, 8) ? "echo " : "data ", tag, ' ', q, ' ', std::string(r.below(60), 'p')), false);
        uint64_t must = k;
        bool may_lose = false;
        switch (act) {
          case 0: break;                                                          // orderly end
          case 1: may_lose = true; break;                                         // reset
          case 2: out += wire(cat("false ", tag, ' ', q++), false); must++; for (int x = 0; x < 3; ++x, ++q) out += wire(cat("data ", tag, ' ', q), false); break;
          case 3: out += wire(cat("shut ", tag, ' ', q++), false); must++; break;
          case 4: out += std::string(6, '\0') + wire(cat("data ", tag, ' ', q), false); break;  // id 0
          case 5: { auto w = wire(cat("data ", tag, ' ', q, " half"), false); out += w.substr(0, 1 + r.below(w.size() - 1)); break; }
          case 6: out += wire(cat("flood ", tag, ' ', q++), false); must++; may_lose = true; break;  // closes unread
          case 7: out += "\xff\xff\xff\xff\xff\xff"; break;                       // id and length over the limits
          default: break;
        }
        if (r.chance(1, 2)) raw.write(out);
        else for (size_t o = 0; o < out.size();) { size_t n = 1 + r.below(out.size() - o); if (!raw.write(out.substr(o, n))) break; o += n; }
        if (act == 1) raw.reset();
        else if (act == 6 || act == 8) { if (act == 8) may_lose = true; raw.close(); }
        else {
          if (act == 0 || act == 5) ::shutdown(raw.fd, SHUT_WR);
          int x = raw.drain_to_end();
          if (x == -2 && !stopping) dead("life:not-closed", cat("the connection was not closed after action ", act));
          raw.close();
        }
        auto gone = [&] { std::unique_lock l{lf.m}; return lf.tags[tag].gone; };
        if (!wait_until([&] { return stopping || gone(); }, kDead))
          dead("life:disconnect-missed", cat("no disconnect callback after action ", act, " (0 end, 1 reset, 2 refused, 3 local shutdown, 4/7 garbage, 5 half a packet, 6/8 close), ", mode_name(mode)));
        if (stopping) return;
        std::unique_lock l{lf.m};
        auto n = lf.tags[tag].next;
        if (!may_lose ? n != must : n > must)
          viol("life:packets-lost", cat(n, " of ", must, " packets sent before the end (action ", act, ") were dispatched, ", mode_name(mode)));
        hh = hash_mix(hh, static_cast<uint64_t>(act) * 100 + k);
        l.unlock();
        count(cat("ended_by_", act));
        count("connections_ended");
        eval();
      }
    });
    if (stop_early) {
      std::this_thread::sleep_for(std::chrono::microseconds(g.range(200, 30000)));
      stopping = true;
      allow_usr1(true);
      L->stop();
      allow_usr1(false);
      lf.stopped = true;
      if (lp->running()) viol("life:running", "running after stop()");
      std::this_thread::sleep_for(2ms);
      L.reset();
      count("stopped_under_traffic");
    }
    for (auto &t : ts) t.join();
  }
  if (!stop_early) {
    std::unique_lock l{lf.m};
    if (lf.incs != lf.disc) viol("life:conservation", cat(lf.incs, " connect and ", lf.disc, " disconnect callbacks"));
    l.unlock();
    L->stop();
    lf.stopped = true;
    L.reset();
  }
  inject(g, false);
  if (!wait_until([&] { return fd_count() <= fds; }, 5000)) viol("life:descriptors", cat(fd_count() - fds, " descriptors are left open after the listener is gone"));
  distinct(hash_mix(hh, max * 10 + clients));
  sample(cat("lifecycle ", mode_name(mode), " clients=", clients, " limit=", max, " rounds=", rounds));
}

// The limit of connections, and ids used again.
static void limit_case(Rng &g) {
  const auto mode = rnd_mode(g);
  const uint32_t max = static_cast<uint32_t>(g.range(1, 6));
  auto L = std::make_unique<net::Listener>(setting(g, mode, true, max), executor(g));
  std::atomic<int> conn{0}, disc{0};
  std::mutex m;
  std::set<int> ids;
  L->set_connect_callback([&](Conn *c) { std::unique_lock l{m}; if (c->id() < 1 || c->id() > static_cast<int>(max)) viol("limit:id", cat("id ", c->id())); if (!ids.insert(c->id()).second) viol("limit:id-in-use", cat("id ", c->id(), " given twice")); conn++; });
  L->set_disconnect_callback([&](Conn *c) { std::unique_lock l{m}; ids.erase(c->id()); disc++; });
  L->set_dispatcher([&](Conn *c, PacketPtr p) { c->send(packet(text(p))); return true; });
  if (!L->start()) harness_error("start failed");
  const uint16_t port = L->address().port();
  std::vector<std::unique_ptr<Raw>> raws;
  uint64_t h = hash_mix(5, max * 2 + (mode == net::Mode::Epoll));
  auto served = [&](Raw &r, const char *when) {
    auto t = cat("probe ", h);
    std::string got;
    r.write(wire(t, false));
    if (int e = r.next(got); e != 1 || got != t) dead("limit:not-served", cat(when, ": ", raws.size(), " connections, limit ", max, ", ", e == -2 ? "no answer" : "closed", ' ', mode_name(mode)));
  };
  for (int step = 0; step < 14; ++step) {
    if (raws.size() < max && (raws.empty() || g.chance(2, 3))) {
      auto r = std::make_unique<Raw>();
      if (!r->connect(port)) harness_error("raw connect");
      served(*r, "a new connection below the limit");
      raws.push_back(std::move(r));
    } else if (raws.size() == max) {
      if (!L->is_full()) viol("limit:is-full", cat("not full with ", max, " connections"));
      int before = conn;
      Raw over;
      if (!over.connect(port)) harness_error("raw connect");
      over.write(wire("over", false));
      std::string got;
      int e = over.next(got);
      if (e == 1) viol("limit:exceeded", "a connection over the limit was served");
      if (e == -2) dead("limit:not-closed", cat("a connection over the limit was neither served nor closed, ", mode_name(mode)));
      if (conn != before) viol("limit:exceeded", "connect callback over the limit");
      for (auto &r : raws) served(*r, "after a connection over the limit was refused");
      count("refused_over_limit");
    }
    if (!raws.empty() && g.chance(raws.size() == max ? 2 : 1, 4)) {
      size_t i = g.below(raws.size());
      int before = disc;
      if (g.chance(1, 3)) raws[i]->reset(); else raws[i]->close();
      raws.erase(raws.begin() + static_cast<long>(i));
      if (!wait_until([&] { return disc > before; }, kDead)) dead("limit:disconnect-missed", mode_name(mode));
      if (!wait_until([&] { return !L->is_full(); }, kDead)) viol("limit:is-full", "full after a connection ended");
      count("slots_freed");
    }
    h = hash_mix(h, raws.size());
  }
  eval();
  distinct(h);
  L->stop();
  for (auto &r : raws) {
    if (r->drain_to_end() == -2) { viol("limit:open-after-stop", cat("a connection of a stopped listener neither ends nor serves, ", mode_name(mode))); break; }
    count("ended_by_stop");
  }
}

// The connector's side: failing connects, ends by the peer, connecting again.
static void connector_case(Rng &g) {
  const auto mode = rnd_mode(g);
  const uint32_t max = static_cast<uint32_t>(g.range(1, 4));
  const int fds = fd_count();
  {
  const auto lmode = rnd_mode(g);
  auto L = std::make_unique<net::Listener>(setting(g, lmode, true), executor(g));
  L->set_dispatcher([&](Conn *c, PacketPtr p) { auto t = text(p); if (t == "kill") return false; c->send(packet(t)); return true; });
  if (!L->start()) harness_error("start failed");
  auto C = std::make_unique<net::Connector>(setting(g, mode, false, max), executor(g));
  std::mutex m;
  std::map<Conn *, int> up;  // active
  std::atomic<int> ups{0}, downs{0}, answers{0};
  C->set_connect_callback([&](Conn *c) { std::unique_lock l{m}; if (up[c]++) viol("connector:connect-twice", ""); ups++; });
  C->set_disconnect_callback([&](Conn *c) { std::unique_lock l{m}; if (--up[c]) viol("connector:disconnect-twice", cat("count ", up[c])); downs++; });
  C->set_dispatcher([&](Conn *, PacketPtr) { answers++; return true; });
  if (!C->start()) harness_error("start failed");
  const uint16_t port = L->address().port();
  uint16_t closed;
  int hold;
  { int s = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); ::bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a); socklen_t n = sizeof a; getsockname(s, reinterpret_cast<sockaddr *>(&a), &n); closed = ntohs(a.sin_port); hold = s; }  // bound, not listening
  std::vector<ConnPtr> live;
  uint64_t h = 17;
  const int steps = static_cast<int>(g.range(8, 20));
  for (int i = 0; i < steps; ++i) {
    int what = static_cast<int>(g.below(6));
    h = hash_mix(h, static_cast<uint64_t>(what) * 10 + live.size());
    int ub = ups, db = downs;
    if (what <= 1) {  // nobody there
      auto c = what ? C->connect("127.0.0.1", closed, {}, 1000ms) : C->connect(cat("127.0.0.1:", closed), {}, 1000ms);
      if (c) viol("connector:connected-to-nobody", "");
      if (ups != ub || downs != db) viol("connector:callback-of-failed-connect", "");
      count("connects_failed");
    } else if (what == 2) {
      auto c = C->connect(cat("127.0.0.1:", port), [](Conn *) { return false; });
      if (c) viol("connector:init-ignored", "");
      if (ups != ub || downs != db) viol("connector:callback-of-failed-connect", "");
      count("connects_refused_by_init");
    } else if (what <= 4) {
      auto c = C->connect(cat("127.0.0.1:", port));
      if (live.size() == max) {
        if (c) viol("connector:limit", cat("more than ", max, " connections"));
        if (!C->is_full()) viol("connector:is-full", "");
        count("connects_over_limit");
      } else {
        if (!c) dead("connector:refused", cat("connect failed with ", live.size(), " of ", max, " connections used after ", i, " steps"));
        if (ups != ub + 1) viol("connector:connect-callback", cat(ups - ub, " connect callbacks"));
        live.push_back(c);
        count("connects_ok");
      }
    } else if (!live.empty()) {
      size_t k = g.below(live.size());
      bool local = g.chance(1, 3);
      if (local) live[k]->shutdown(); else live[k]->send(packet("kill"));
      if (!wait_until([&] { return downs > db; }, kDead)) dead("connector:disconnect-missed", local ? "local shutdown" : "closed by the peer");
      live.erase(live.begin() + static_cast<long>(k));
      // The slot is free after the callback only.
      if (!wait_until([&] { return !C->is_full(); }, kDead)) viol("connector:is-full", "full after a connection ended");
      count(local ? "ended_locally" : "ended_by_peer");
    }
    for (auto &c : live) {
      int a = answers;
      if (!c->send(packet("ping"))) viol("connector:send", "send refused");
      if (!wait_until([&] { return answers > a; }, kDead)) dead("connector:not-served", cat("no answer at step ", i, ", connection ", c->id(), " of ", live.size(), ", ", mode_name(mode), '/', mode_name(lmode), " limit ", max));
    }
  }
  ::close(hold);
  if (ups - downs != static_cast<int>(live.size())) viol("connector:conservation", cat(ups.load(), " connects ", downs.load(), " disconnects ", live.size(), " active"));
  live.clear();
  distinct(h);
  eval();
  C->stop();
  L->stop();
  }
  if (!wait_until([&] { return fd_count() <= fds; }, 5000)) viol("connector:descriptors", cat(fd_count() - fds, " descriptors are left open"));
}

// ================================================================= P18
struct RpcServer {
  std::unique_ptr<net::Listener> L;
  std::mutex m;
  std::map<uint64_t, uint64_t> notes;   // sender -> next
  std::atomic<uint64_t> called{0}, noted{0}, nothing{0}, boomed{0}, few{0};
  explicit RpcServer(Rng &g) {
    L = std::make_unique<net::Listener>(setting(g, rnd_mode(g), true), executor(g));
    L->bind("add", [this](int32_t a, int32_t b) { called++; return static_cast<int32_t>(static_cast<uint32_t>(a) + static_cast<uint32_t>(b)); });
    L->bind("echo", [this](std::string s) { called++; return s; });
    L->bind("rev", [this](std::vector<int64_t> v) { called++; return std::vector<int64_t>(v.rbegin(), v.rend()); });
    L->bind("seven", [this]() { called++; return 7; });
    L->bind("nothing", [this]() { nothing++; });
    L->bind("boom", [this](int32_t a) -> int32_t { boomed++; if (a & 1) throw std::runtime_error("boom"); throw a; });
    L->bind("boom_note", [this](int32_t) { boomed++; throw std::out_of_range("boom"); });
    L->bind("few", [this](int32_t, std::string s) { few++; return s; });
    L->bind("slow", [this](int32_t ms) { called++; std::this_thread::sleep_for(std::chrono::milliseconds(ms)); return ms; });
    L->bind("note", [this](uint64_t sender, uint64_t seq, std::string s) {
      std::unique_lock l{m};
      auto &n = notes[sender];
      if (n != seq) viol(seq < n ? "rpc:notify-repeated" : "rpc:notify-lost", cat("sender ", sender, " notify ", seq, " want ", n));
      n = seq + 1;
      if (s != cat("note ", sender, '/', seq)) viol("rpc:notify-argument", s);
      noted++;
      progress();
    });
    L->set_dispatcher([](Conn *, PacketPtr p) { return text(p) != "kill"; });
    if (!L->start()) harness_error("start failed");
  }
  std::string addr() { return cat("127.0.0.1:", L->address().port()); }
};
// Ends when the call did, in whatever way.
static bool ended(std::future<net::rpc::Unpacker> &f) {
  return f.wait_for(std::chrono::milliseconds(kDead)) == std::future_status::ready;
}

static void rpc_calls_case(Rng &g) {
  RpcServer S{g};
  auto C = std::make_unique<net::Connector>(setting(g, rnd_mode(g), false), executor(g));
  if (!C->start()) harness_error("start failed");
  const size_t nconn = static_cast<size_t>(g.range(1, 3)), threads = static_cast<size_t>(g.range(1, 5)), calls = static_cast<size_t>(g.range(5, 40));
  std::vector<ConnPtr> conns;
  for (size_t i = 0; i < nconn; ++i) {
    auto c = C->connect(S.addr());
    if (!c) dead("rpc:connect", "connect failed");
    conns.push_back(c);
  }
  inject(g, g.chance(1, 2));
  std::atomic<uint64_t> expect_notes{0}, expect_nothing{0}, expect_boom{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads; ++t) ts.emplace_back([&, s = g.next(), t] {
    Rng r{s};
    auto conn = conns[r.below(nconn)];
    struct Pending { std::future<net::rpc::Unpacker> f; int kind; int32_t i; std::string s; std::vector<int64_t> v; };
    std::vector<Pending> pend;
    uint64_t seq = 0;
    auto check = [&](Pending &p) {
      if (!ended(p.f)) dead("rpc:no-result", cat("a call of kind ", p.kind, " did not end"));
      try {
        auto u = p.f.get();
        if (r.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
        if (p.kind == 0) { int32_t x{}; u.unpack(x); if (x != p.i) viol("rpc:wrong-result", cat("add gave ", x, " want ", p.i)); }
        if (p.kind == 1) { std::string x; u.unpack(x); if (x != p.s) viol("rpc:wrong-result", cat("echo gave ", x.substr(0, 40), " want ", p.s.substr(0, 40))); }
        if (p.kind == 2) { std::vector<int64_t> x; u.unpack(x); std::vector<int64_t> w(p.v.rbegin(), p.v.rend()); if (x != w) viol("rpc:wrong-result", cat("rev gave ", x.size(), " values")); }
        if (p.kind == 7) viol("rpc:thrown-has-result", "a call of a function that throws has a result");
        if (p.kind == 8) viol("rpc:few-has-result", "a call without some of the arguments has a result");
        if (p.kind == 3) viol("rpc:unknown-function", "a call of a function nobody bound has a result");
        if (p.kind == 5) { int32_t x{}; u.unpack(x); if (x != 7) viol("rpc:wrong-result", cat("seven gave ", x)); }
        count("rpc_results");
      } catch (const std::exception &e) {
        if (p.kind == 7) count("rpc_thrown");
        else if (p.kind == 8) count("rpc_few_refused");
        else if (p.kind != 3) viol("rpc:failed", cat("a call of kind ", p.kind, " on a live connection failed: ", e.what()));
        else count("rpc_unknown_refused");
      }
      progress();
    };
    for (size_t i = 0; i < calls; ++i) {
      Pending p;
      p.kind = static_cast<int>(r.below(9));
      p.i = 0;
      try {
        switch (p.kind) {
          case 0: { auto a = static_cast<int32_t>(r.next()), b = static_cast<int32_t>(r.next()); p.i = static_cast<int32_t>(static_cast<uint32_t>(a) + static_cast<uint32_t>(b)); p.f = conn->async_call("add", a, b); break; }
          case 1: p.s = cat(t, ':', i, ':', std::string(r.below(r.chance(1, 8) ? 20000 : 40), static_cast<char>('a' + r.below(26)))); p.f = conn->async_call("echo", p.s); break;
          case 2: for (uint64_t n = r.below(12); n--;) p.v.push_back(static_cast<int64_t>(r.next())); p.f = conn->async_call("rev", p.v); break;
          case 3: p.f = conn->async_call(cat("nobody", r.below(3)), 1); break;
          case 4: p.f = conn->async_call("nothing"); expect_nothing++; break;
          case 5: p.f = conn->async_call("seven"); break;
          case 7:
            expect_boom++;
            if (r.chance(1, 3)) { if (!conn->send("boom_note", 1)) viol("rpc:notify-refused", "boom_note"); continue; }
            p.f = conn->async_call("boom", static_cast<int32_t>(r.below(100)));
            break;
          case 8:
            if (r.chance(1, 2)) p.f = conn->async_call("few", 5); else p.f = conn->async_call("few");
            break;
          default:
            expect_notes++;
            if (!conn->send("note", static_cast<uint64_t>(t), seq, cat("note ", t, '/', seq))) viol("rpc:notify-refused", "");
            seq++;
            continue;
        }
      } catch (const std::exception &e) { viol("rpc:threw", cat("async_call threw ", e.what())); continue; }
      if (r.chance(1, 2)) { pend.push_back(std::move(p)); if (pend.size() > 12) { size_t k = r.below(pend.size()); check(pend[k]); pend.erase(pend.begin() + static_cast<long>(k)); } }
      else check(p);
    }
    while (!pend.empty()) { size_t k = r.below(pend.size()); check(pend[k]); pend.erase(pend.begin() + static_cast<long>(k)); }
  });
  for (auto &t : ts) t.join();
  if (!wait_until([&] { return S.noted >= expect_notes; }, kDead)) dead("rpc:notify-lost", cat(S.noted.load(), " of ", expect_notes.load(), " notifies ran"));
  if (S.noted != expect_notes) viol("rpc:notify-repeated", cat(S.noted.load(), " for ", expect_notes.load()));
  if (!wait_until([&] { return S.boomed >= expect_boom; }, kDead) || S.boomed != expect_boom) viol("rpc:call-count", cat("functions that throw ran ", S.boomed.load(), " times for ", expect_boom.load(), " calls"));
  if (S.few) viol("rpc:few-run", cat("a function was run without some of its arguments ", S.few.load(), " times"));
  if (S.nothing != expect_nothing) viol("rpc:call-count", cat("nothing ran ", S.nothing.load(), " times for ", expect_nothing.load(), " calls"));
  count("rpc_notifies", expect_notes);
  eval();
  distinct(hash_mix(hash_mix(23, nconn * 10 + threads), calls));
  sample(cat("rpc conns=", nconn, " threads=", threads, " calls=", calls));
  inject(g, false);
  if (g.chance(1, 2)) C->stop();
}

// Many threads call at the same moment over one connection.
static void rpc_burst_case(Rng &g) {
  RpcServer S{g};
  auto C = std::make_unique<net::Connector>(setting(g, rnd_mode(g), false), executor(g));
  if (!C->start()) harness_error("start failed");
  auto conn = C->connect(S.addr());
  if (!conn) dead("rpc:connect", "connect failed");
  const size_t threads = static_cast<size_t>(g.range(4, 8)), calls = static_cast<size_t>(g.range(60, 200));
  std::vector<std::thread> ts;
  std::barrier start{static_cast<std::ptrdiff_t>(threads)};
  for (size_t t = 0; t < threads; ++t) ts.emplace_back([&, t] {
    std::vector<std::future<net::rpc::Unpacker>> f;
    start.arrive_and_wait();
    for (size_t i = 0; i < calls; ++i) f.push_back(conn->async_call("add", static_cast<int32_t>(t * 100000), static_cast<int32_t>(i)));
    for (size_t i = 0; i < calls; ++i) {
      if (!ended(f[i])) dead("rpc:no-result", cat("call ", i, " of thread ", t, " of ", threads, " calling at once did not end"));
      try { auto u = f[i].get(); int32_t x{}; u.unpack(x); if (x != static_cast<int32_t>(t * 100000 + i)) viol("rpc:wrong-result", cat("thread ", t, " call ", i, " gave ", x)); }
      catch (const std::exception &e) { viol("rpc:failed", cat("a call among many on a live connection failed: ", e.what())); }
      progress();
    }
  });
  for (auto &t : ts) t.join();
  if (S.called != threads * calls) viol("rpc:call-count", cat("add ran ", S.called.load(), " times for ", threads * calls, " calls"));
  count("rpc_burst_calls", threads * calls);
  eval();
  distinct(hash_mix(hash_mix(37, threads), calls));
  if (g.chance(1, 2)) C->stop();
}

// More calls over one connection than small numbers can number.
static void rpc_long_case(Rng &g) {
  RpcServer S{g};
  auto C = std::make_unique<net::Connector>(setting(g, rnd_mode(g), false), executor(g));
  if (!C->start()) harness_error("start failed");
  auto conn = C->connect(S.addr());
  if (!conn) dead("rpc:connect", "connect failed");
  const uint64_t total = 66000 + g.below(500);
  for (uint64_t i = 0; i < total;) {
    std::vector<std::future<net::rpc::Unpacker>> f;
    const uint64_t first = i;
    for (uint64_t n = g.range(100, 400); n-- && i < total; ++i) f.push_back(conn->async_call("add", static_cast<int32_t>(i), 1));
    for (uint64_t k = 0; k < f.size(); ++k) {
      if (!ended(f[k])) dead("rpc:no-result", cat("call ", first + k, " over one connection did not end"));
      try { auto u = f[k].get(); int32_t x{}; u.unpack(x); if (x != static_cast<int32_t>(first + k + 1)) viol("rpc:wrong-result", cat("call ", first + k, " gave ", x)); }
      catch (const std::exception &e) { viol("rpc:failed", cat("call ", first + k, " over one connection failed: ", e.what())); }
    }
    if (viol_count()) return;
    progress();
  }
  if (S.called != total) viol("rpc:call-count", cat("add ran ", S.called.load(), " times for ", total, " calls"));
  count("rpc_long_calls", total);
  eval();
  distinct(hash_mix(41, total));
}

// Functions are bound and unbound; exactly those that are bound are there, each once.
static void rpc_names_case(Rng &g) {
  net::rpc::Dispatcher D;
  std::map<std::string, int> bound;   // name -> what its function adds
  std::atomic<int> ran{0};
  uint64_t h = 43;
  auto name = [&] { return std::string(g.below(4) ? 1 : 30, static_cast<char>('a' + g.below(5))); };
  for (int i = static_cast<int>(g.range(20, 80)); i; --i) {
    auto n = name();
    int op = static_cast<int>(g.below(5));
    h = hash_mix(h, static_cast<uint64_t>(op) * 100 + bound.size());
    if (op == 0) {
      int v = static_cast<int>(g.below(1000));
      bool threw = false;
      try { D.bind(n, [v, &ran](int32_t a) { ran++; return a + v; }); } catch (const std::logic_error &) { threw = true; }
      if (threw != (bound.count(n) != 0)) viol("rpc:bind", cat(n, threw ? " refused" : " bound twice"));
      if (!threw) bound[n] = v;
      count(threw ? "rpc_bind_refused" : "rpc_bound");
    } else if (op == 1) {
      D.unbind(n);
      bound.erase(n);
      count("rpc_unbound");
    } else if (op == 2) {
      auto names = D.names();
      std::set<std::string> a{names.begin(), names.end()}, b;
      for (auto &x : bound) b.insert(x.first);
      if (a != b || names.size() != b.size()) viol("rpc:names", cat(names.size(), " names for ", b.size()));
    } else {
      if (g.chance(1, 10)) n.clear();
      auto p = std::make_shared<net::packet::Basic>();
      p->set_writeable(true);
      *p << std::string_view{n};
      net::rpc::Packer pk;
      int32_t a = static_cast<int32_t>(g.below(100000));
      auto t = std::make_tuple(a);
      pk.process(t);
      *p << pk.vector();
      p->set_writeable(false);
      p->set_readable(true);
      int before = ran;
      auto r = D.dispatch(p);
      auto it = bound.find(n);
      auto e = plain::get_error(r);
      if ((e == nullptr) != (it != bound.end()) || ran - before != (it != bound.end())) { viol("rpc:dispatch", cat("'", n, "' ", e ? "error" : "result", " though ", it != bound.end() ? "" : "not ", "bound, run ", ran - before, " times")); continue; }
      if (e) {
        if (!e->is_code(n.empty() ? plain::ErrorCode::NetPacketInvalid : plain::ErrorCode::NetRpcFunctionNotFound)) viol("rpc:dispatch-error", cat("'", n, "' code ", e->code()));
      } else {
        auto q = std::get<std::shared_ptr<net::rpc::Packer>>(r);
        if (!q) { viol("rpc:dispatch", "no result"); continue; }
        net::rpc::Unpacker u{q->vector().data(), q->vector().size()};
        int32_t x{};
        u.unpack(x);
        if (u.error_ || x != a + it->second) viol("rpc:dispatch", cat(x, " for ", a, " + ", it->second));
        count("rpc_dispatched");
      }
    }
  }
  eval();
  distinct(h);
}

// Calls whose connection ends, whose time runs out, and results kept.
static void rpc_ends_case(Rng &g) {
  RpcServer S{g};
  auto C = std::make_unique<net::Connector>(setting(g, rnd_mode(g), false), executor(g));
  if (!C->start()) harness_error("start failed");
  auto conn = C->connect(S.addr());
  if (!conn) dead("rpc:connect", "connect failed");
  const int how = static_cast<int>(g.below(5));
  std::vector<net::rpc::Unpacker> kept;
  std::vector<std::string> kept_want;
  for (int i = 0; i < 3; ++i) {
    kept_want.push_back(cat("kept ", i, std::string(g.below(50), 'k')));
    try { kept.push_back(conn->call("echo", kept_want.back())); } catch (const std::exception &e) { viol("rpc:failed", e.what()); return; }
  }
  if (how == 4) {  // time out
    conn->set_call_timeout(std::chrono::milliseconds(g.range(1, 8)));
    bool threw = false;
    try { conn->call("slow", 30); } catch (const std::exception &) { threw = true; }
    if (!threw) viol("rpc:timeout", "a call slower than its time limit did not fail");
    conn->clear_call_timeout();
    for (int i = 0; i < 5; ++i) {
      try { auto u = conn->call("add", i, 1); int32_t x{}; u.unpack(x); if (x != i + 1) viol("rpc:wrong-result", cat("after a time out add gave ", x)); }
      catch (const std::exception &e) { viol("rpc:failed", cat("after a time out: ", e.what())); }
    }
    count("rpc_timeouts");
  } else {
    std::atomic<bool> go{false};
    std::vector<std::future<net::rpc::Unpacker>> fs;
    std::mutex m;
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t) ts.emplace_back([&, s = g.next()] {
      Rng r{s};
      while (!go) std::this_thread::yield();
      for (int i = 0; i < 10; ++i) {
        std::future<net::rpc::Unpacker> f;
        try { f = r.chance(1, 5) ? conn->async_call("slow", 2) : conn->async_call("add", i, 0); }
        catch (const std::exception &e) { viol("rpc:threw", cat("async_call threw ", e.what())); continue; }
        std::unique_lock l{m};
        fs.push_back(std::move(f));
        l.unlock();
        if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
      }
    });
    go = true;
    std::this_thread::sleep_for(std::chrono::microseconds(g.range(0, 1500)));
    switch (how) {
      case 0: conn->send(packet("kill")); break;
      case 1: conn->shutdown(); break;
      case 2: S.L->stop(); break;
      // Closing a descriptor another thread works with is a race of its own.
      default: if (kTsan) conn->shutdown(); else conn->close(); break;
    }
    for (auto &t : ts) t.join();
    for (auto &f : fs) {
      if (!ended(f)) dead("rpc:pending-for-ever", cat("a call did not end with its connection (", how, ": 0 closed by peer, 1 local shutdown, 2 peer stopped, 3 local close)"));
      try { f.get(); count("rpc_ended_with_value"); } catch (const std::exception &) { count("rpc_ended_with_error"); }
    }
    // No more calls on it.
    if (!wait_until([&] { return !conn->valid(); }, kDead)) dead("rpc:not-closed", cat("how ", how));
    auto f = conn->async_call("add", 1, 1);
    if (!ended(f)) dead("rpc:pending-for-ever", "a call on a closed connection did not end");
    bool threw = false;
    try { f.get(); } catch (const std::exception &) { threw = true; }
    if (!threw) viol("rpc:closed-call", "a call on a closed connection has a result");
  }
  if (g.chance(1, 2)) { conn.reset(); C.reset(); }
  for (size_t i = 0; i < kept.size(); ++i) {
    std::string x;
    kept[i].unpack(x);
    if (x != kept_want[i]) viol("rpc:wrong-result", cat("a kept result is ", x.substr(0, 40)));
  }
  eval();
  distinct(hash_mix(29, static_cast<uint64_t>(how) * 1000 + g.below(1000)));
  count(cat("rpc_end_", how));
}

// A peer that answers wrongly.
static void rpc_hostile_peer_case(Rng &g) {
  int ls = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (::bind(ls, reinterpret_cast<sockaddr *>(&a), sizeof a) || ::listen(ls, 8)) harness_error("listen");
  socklen_t n = sizeof a;
  getsockname(ls, reinterpret_cast<sockaddr *>(&a), &n);
  auto C = std::make_unique<net::Connector>(setting(g, rnd_mode(g), false), executor(g));
  if (!C->start()) harness_error("start failed");
  const int ncalls = static_cast<int>(g.range(1, 6));
  const int style = static_cast<int>(g.below(8));
  std::thread peer([&, s = g.next()] {
    Rng r{s};
    Raw raw;
    raw.fd = ::accept(ls, nullptr, nullptr);
    if (raw.fd < 0) return;
    auto resp = [&](uint32_t index, int32_t err, const std::string &body) {
      std::string b;
      for (int k = 24; k >= 0; k -= 8) b += static_cast<char>(index >> k);
      for (int k = 24; k >= 0; k -= 8) b += static_cast<char>(static_cast<uint32_t>(err) >> k);
      return wire(b + body, false, net::packet::kRpcResponseId);
    };
    std::vector<std::pair<uint32_t, std::string>> reqs;
    for (int i = 0; i < ncalls; ++i) {
      std::string t;
      if (raw.next(t) != 1) return;
      if (t.size() < 4) return;
      auto u = [&](size_t k) { return static_cast<uint32_t>(static_cast<unsigned char>(t[k])); };
      uint32_t idx = u(0) << 24 | u(1) << 16 | u(2) << 8 | u(3);
      net::rpc::Packer p;
      p.pack(static_cast<uint64_t>(idx) * 1000 + 5);
      auto &v = p.vector();
      reqs.emplace_back(idx, std::string(v.begin(), v.end()));
    }
    for (size_t i = reqs.size(); i > 1; --i) std::swap(reqs[i - 1], reqs[r.below(i)]);
    std::string out;
    for (size_t i = 0; i < reqs.size(); ++i) {
      auto &[idx, body] = reqs[i];
      switch (style) {
        case 0: out += resp(idx, 0, body); break;                                   // correct, in any order
        case 1: out += resp(idx, 0, body) + resp(idx, 0, body); break;              // twice
        case 2: out += resp(idx + 77777, 0, body) + resp(idx, 0, body); break;      // of nobody
        case 3: out += resp(idx, static_cast<int32_t>(1 + r.below(50)), {}); break; // errors
        case 4: out += resp(idx, 0, {}); break;                                     // nothing in it
        case 5: out += resp(idx, 0, body.substr(0, r.below(body.size()))); break;   // cut
        case 6: out += wire(std::string(r.below(8), '\1'), false, net::packet::kRpcResponseId) + resp(idx, 0, body); break;
        default: out += wire("x", false, net::packet::kRpcRequestId) + wire("y", false, net::packet::kRpcNotifyId) + resp(idx, 0, body); break;
      }
    }
    raw.write(out);
    raw.drain_to_end();
  });
  auto conn = C->connect(cat("127.0.0.1:", ntohs(a.sin_port)));
  if (!conn) dead("rpc:connect", "connect failed");
  struct P { std::future<net::rpc::Unpacker> f; uint64_t want; };
  std::vector<P> ps;
  for (int i = 0; i < ncalls; ++i) { auto f = conn->async_call("f", i); ps.push_back({std::move(f), static_cast<uint64_t>(i + 1) * 1000 + 5}); }
  for (auto &p : ps) {
    // Not answered calls end with the connection (a response of nobody closes it).
    if (style == 2 || style == 6) { if (p.f.wait_for(3s) != std::future_status::ready) conn->shutdown(); }
    if (!ended(p.f)) dead("rpc:pending-for-ever", cat("style ", style));
    try {
      auto u = p.f.get();
      if (style == 3) viol("rpc:error-lost", "a response with an error gave a result");
      uint64_t x{0};
      u.unpack(x);
      if (style != 4 && style != 5 && x != p.want) viol("rpc:wrong-result", cat("got ", x, " want ", p.want, " style ", style));
      count("rpc_hostile_values");
    } catch (const std::exception &) {
      if (style == 0) viol("rpc:failed", "responses in another order");
      count("rpc_hostile_errors");
    }
  }
  C->stop();
  C.reset();
  conn.reset();
  ::shutdown(ls, SHUT_RDWR);
  peer.join();
  ::close(ls);
  count(cat("rpc_hostile_style_", style));
  eval();
  distinct(hash_mix(31, static_cast<uint64_t>(style) * 100 + static_cast<uint64_t>(ncalls) * 10000 + g.below(50)));
}

// ================================================================= P31
// Connections kept alive by the connector: they end in every way and are connected again.
static void keepalive_case(Rng &g) {
  const auto mode = rnd_mode(g);
  const uint32_t max = static_cast<uint32_t>(g.range(1, 4));
  const int fds = fd_count();
  uint64_t h = hash_mix(61, static_cast<uint64_t>(mode) * 8 + max);
  {
  // Two servers of which each takes the connections; and an address where nobody is.
  struct Server { int fd{-1}; uint16_t port{0}; };
  auto bound = [](bool listening) {
    Server s;
    s.fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::bind(s.fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0) harness_error("bind");
    if (listening && ::listen(s.fd, 64) != 0) harness_error("listen");
    socklen_t n = sizeof a;
    getsockname(s.fd, reinterpret_cast<sockaddr *>(&a), &n);
    s.port = ntohs(a.sin_port);
    return s;
  };
  Server server[2] = {bound(true), bound(true)}, nobody = bound(false);
  auto C = std::make_unique<net::Connector>(setting(g, mode, false, max), executor(g));
  struct K {
    ConnPtr c;
    Raw peer;
    int id{0}, at{0};
    bool kept{false}, up{false};
    std::atomic<int> ups{0}, downs{0}, own_downs{0}, own_ups{0};
    bool own{false};
    std::atomic<bool> active{false};
    std::mutex m;
    std::deque<std::string> got;
  };
  std::mutex m;
  std::map<Conn *, K *> of;
  std::vector<std::unique_ptr<K>> all;
  auto find = [&](Conn *c) { std::unique_lock l{m}; auto it = of.find(c); return it == of.end() ? nullptr : it->second; };
  C->set_connect_callback([&](Conn *c) { if (auto k = find(c)) { if (k->active.exchange(true)) viol("keep:connect-twice", "connect callback of an active connection"); k->ups++; } });
  C->set_disconnect_callback([&](Conn *c) { if (auto k = find(c)) { if (!k->active.exchange(false)) viol("keep:disconnect-twice", "disconnect callback of a connection that is not active"); k->downs++; } });
  auto rx = [&](Conn *c, PacketPtr p) {
    auto k = find(c);
    if (!k) { viol("keep:misrouted", "packet at an unknown connection"); return true; }
    std::unique_lock l{k->m};
    k->got.push_back(text(p));
    return true;
  };
  C->set_dispatcher(rx);
  if (!C->start()) harness_error("start failed");
  uint64_t token = 0;
  auto take = [&](K &k, int at) {  // the server's end
    k.peer.close(); k.peer.in.clear();
    pollfd p{server[at].fd, POLLIN, 0};
    if (::poll(&p, 1, static_cast<int>(kDead)) != 1) dead("keep:nobody-connected", "connect reported success, the server sees no connection");
    k.peer.fd = ::accept(server[at].fd, nullptr, nullptr);
    k.at = at;
    k.up = true;
  };
  auto serve = [&](K &k, const char *when) {  // packets both ways
    int n = static_cast<int>(g.range(1, 3));
    for (int i = 0; i < n; ++i) {
      auto t = cat("token ", ++token, ' ', std::string(g.chance(1, 4) ? g.below(9000) : g.below(30), 'k'));
      if (!k.c->send(packet(t))) viol("keep:send-refused", when);
      std::string o;
      int r = k.peer.next(o);
      if (r != 1) dead("keep:not-sent", cat("a packet did not leave ", when, ": ", r, " after ", k.ups.load(), " connects, ", mode_name(mode)));
      if (o != t) dead("keep:damaged", cat("the server got ", o.substr(0, 50), " want ", t.substr(0, 50), ' ', when));
      k.peer.write(wire(t, false));
      if (!wait_until([&] { std::unique_lock l{k.m}; return !k.got.empty(); }, kDead)) dead("keep:not-dispatched", cat("a packet was not dispatched ", when, ", ", mode_name(mode)));
      std::unique_lock l{k.m};
      if (k.got.front() != t) dead("keep:damaged", cat("dispatched ", k.got.front().substr(0, 50), " want ", t.substr(0, 50), ' ', when));
      k.got.pop_front();
    }
    count("keep_served", static_cast<uint64_t>(n));
  };
  auto end = [&](K &k) {
    int how = static_cast<int>(g.below(7));
    std::future<net::rpc::Unpacker> f;
    bool call = g.chance(1, 3);
    if (call) f = k.c->async_call("never", 1);
    switch (how) {
      case 0: k.peer.close(); break;
      case 1: k.peer.reset(); break;
      case 2: k.c->shutdown(); break;
      case 3: { auto w = wire(std::string(200, 'h'), false); k.peer.write(w.substr(0, g.range(1, static_cast<int64_t>(w.size()) - 1))); k.peer.close(); break; }  // half a packet
      case 4: for (int i = 0; i < 40; ++i) k.c->send(packet(std::string(60000, 'o'))); k.peer.reset(); break;  // much is still to send
      case 5: k.c->send(packet("last")); k.peer.close(); break;
      default: k.peer.write(std::string("\0\0\x7f\xff\xff\xff", 6)); break;  // a packet over the limit
    }
    h = hash_mix(h, static_cast<uint64_t>(how));
    if (!wait_until([&] { return k.downs == k.ups && k.c->socket()->id() == net::socket::kInvalidId; }, kDead)) dead("keep:disconnect-missed", cat("ended by ", how, ", ", mode_name(mode)));
    if (call) {
      if (!ended(f)) dead("keep:call-pending", "a call did not end with its connection");
      try { f.get(); viol("keep:call-answered", "a call that was never answered has a result"); } catch (const std::exception &) {}
    }
    k.peer.close(); k.peer.in.clear();
    k.up = false;
    { std::unique_lock l{k.m}; k.got.clear(); }
    count("keep_ends");
    count(cat("keep_end_", how));
    (void)k;
  };
  auto used = [&] { size_t n = 0; for (auto &k : all) n += k->up || k->kept; return n; };
  const int steps = static_cast<int>(g.range(10, 30));
  for (int i = 0; i < steps; ++i) {
    int what = static_cast<int>(g.below(8));
    h = hash_mix(h, static_cast<uint64_t>(what) * 100 + used());
    if (what <= 1 || all.empty()) {  // a new one
      int at = static_cast<int>(g.below(2));
      auto k = std::make_unique<K>();
      auto *kp = k.get();
      bool full = used() >= max;
      bool fail = g.chance(1, 5), keep = g.chance(3, 4);
      bool own = g.chance(1, 3);
      k->own = own;
      auto c = C->connect(cat("127.0.0.1:", fail ? nobody.port : server[at].port), [&](Conn *x) {
        if (keep && g.chance(1, 2)) C->set_keep_alive(x, true);
        std::unique_lock l{m};
        of[x] = kp;
        if (own) {
          x->set_disconnect_callback([kp](Conn *) { kp->own_downs++; });
          x->set_connect_callback([kp](Conn *) { kp->own_ups++; });
        }
        return true;
      });
      if (full || fail) {
        if (c) viol(full ? "keep:limit" : "keep:connected-to-nobody", cat(used(), " of ", max, " used"));
        std::unique_lock l{m};
        std::erase_if(of, [&](auto &e) { return e.second == kp; });
        count(full ? "keep_full" : "keep_first_failed");
      } else {
        if (!c) dead("keep:refused", cat("connect failed with ", used(), " of ", max, " places used"));
        k->c = c; k->id = c->id(); k->kept = keep;
        if (keep) C->set_keep_alive(c, true); else C->set_keep_alive(c, false);
        if (C->is_keep_alive(c) != keep || C->is_keep_alive(c.get()) != keep) viol("keep:flag", "is_keep_alive differs from what was set");
        for (auto &o : all) if ((o->up || o->kept) && o->c == c) viol("keep:shared", "a new connection got the place of a kept one");
        take(*k, at);
        if (k->ups != 1 || k->own_ups != own) viol("keep:connect-callback", cat(k->ups.load(), " connect callbacks"));
        serve(*k, "first");
        all.push_back(std::move(k));
      }
    } else if (auto &k = *all[g.below(all.size())]; k.up && what <= 4) {
      if (g.chance(1, 4)) {  // still connected: nothing to do
        if (C->connect(k.c, 1000ms, cat("127.0.0.1:", server[0].port))) viol("keep:connected-while-up", "connect again of a connected one reports success");
        serve(k, "after a needless connect");
      }
      int own = k.own_downs, downs = k.downs;
      end(k);
      if (k.own_downs != own + k.own || k.own_ups != (k.own ? k.ups.load() : 0) || k.downs != downs + 1) viol("keep:disconnect-twice", "");
      if (!k.kept) {
        std::unique_lock l{m};
        of.erase(k.c.get());
        auto *kp = &k;
        l.unlock();
        if (!wait_until([&] { return !C->is_full(); }, kDead)) viol("keep:is-full", "full after a connection ended");
        std::erase_if(all, [&](auto &x) { return x.get() == kp; });
      }
    } else if (!k.up) {
      if (C->get_conn(k.id) != k.c) viol("keep:place", "the place of a kept connection is not its own any more");
      if (C->is_full() != (used() >= max)) viol("keep:is-full", cat("is_full ", C->is_full(), " with ", used(), " of ", max));
      bool stale = g.chance(1, 3);
      if (stale) { k.c->send(packet("while down")); count("keep_sent_while_down"); }
      if (g.chance(1, 4)) {
        int u = k.ups, d = k.downs;
        if (C->connect(k.c, 1000ms, cat("127.0.0.1:", nobody.port))) viol("keep:connected-to-nobody", "");
        if (k.ups != u || k.downs != d) viol("keep:callback-of-failed-connect", "");
        count("keep_again_failed");
      } else if (g.chance(1, 5)) {  // given up
        C->set_keep_alive(k.c, false);
        { std::unique_lock l{m}; of.erase(k.c.get()); }
        k.kept = false;
        if (C->is_full()) viol("keep:is-full", "full after a kept connection was given up");
        if (C->connect(k.c, 1000ms, cat("127.0.0.1:", server[0].port))) viol("keep:connected-given-up", "a connection given up could be connected again");
        auto *kp = &k;
        std::erase_if(all, [&](auto &x) { return x.get() == kp; });
        count("keep_given_up");
      } else {
        int at = static_cast<int>(g.below(2)), u = k.ups;
        bool r;
        if (g.chance(1, 3)) { at = k.at; r = C->connect(k.c, 2000ms); count("keep_again_same_address"); }
        else {
          std::string big = cat("127.0.0.1:", server[at].port);
          std::string hold = big + "9:7";  // the view ends before
          std::string_view v{hold.data(), big.size()};
          r = g.chance(1, 2) ? C->connect(k.c, 2000ms, v) : C->connect(k.c.get(), 2000ms, v);
        }
        if (!r) dead("keep:refused", cat("connecting again failed after ", u, " connects"));
        if (k.ups != u + 1) viol("keep:connect-callback", cat(k.ups - u, " connect callbacks when connected again"));
        if (k.c->id() != k.id) viol("keep:place", "the id changed");
        take(k, at);
        if (stale) {
          // Whole or not at all.
          pollfd p{k.peer.fd, POLLIN, 0};
          (void)::poll(&p, 1, 5);
          std::string o;
          if (k.peer.next(o, 5) == 1 && o != "while down") viol("keep:damaged", cat("the server got ", o.substr(0, 50)));
        }
        serve(k, stale ? "again, after sending while down" : "again");
        count("keep_again");
      }
    } else serve(k, "later");
  }
  distinct(h);
  eval();
  C->stop();
  all.clear();
  C.reset();
  for (auto &s : server) ::close(s.fd);
  ::close(nobody.fd);
  }
  if (!wait_until([&] { return fd_count() <= fds; }, 5000)) viol("keep:descriptors", cat(fd_count() - fds, " descriptors are left open"));
}

int main(int argc, char **argv) {
  init(argc, argv);
  struct sigaction sa{};
  sa.sa_handler = on_usr1;
  sigaction(SIGUSR1, &sa, nullptr);
  allow_usr1(false);
  struct { const char *name; void (*f)(Rng &); } all[] = {
    {"deliver", deliver_case}, {"cuts", cuts_case}, {"lifecycle", lifecycle_case}, {"limit", limit_case}, {"connector", connector_case},
    {"rpc_calls", rpc_calls_case}, {"rpc_ends", rpc_ends_case}, {"rpc_hostile_peer", rpc_hostile_peer_case}, {"keepalive", keepalive_case}, {"crowd", crowd_case}, {"rpc_burst", rpc_burst_case}, {"rpc_long", rpc_long_case}, {"rpc_names", rpc_names_case}, {"idle", idle_case}};
  uint64_t salt = 0;
  for (auto &s : all) {
    ++salt;
    if (!selected(s.name)) continue;
    scenario(s.name);
    for (uint64_t i = 0; i < opt.scale && viol_count() == 0; ++i) {
      Rng g{opt.seed * 1000003 + salt * 7919 + i};
      progress();
      s.f(g);
    }
  }
  sock_counters();
  return finish();
}
