// P32 sockets: connecting, addresses, options, data, errors and ownership of descriptors.
#include "common.h"
#include <deque>
#include <arpa/inet.h>
#include <chrono>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <future>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/listener.h"
#include "plain/net/connector.h"
#include "plain/net/packet/basic.h"
#include "plain/net/socket/api.h"
#include "plain/basic/logger.h"
#include "plain/net/socket/basic.h"
#include "plain/net/socket/listener.h"
using namespace vf;
using namespace std::chrono_literals;
namespace net = plain::net;
using Sock = net::socket::Basic;
using Clock = std::chrono::steady_clock;

static constexpr unsigned kDead = 25000;
static bool g_v6 = false;
static int g_high = 0;  // descriptors from here on are out of a fd_set; 0: none possible

[[noreturn]] static void dead(const std::string &key, const std::string &what) {
  viol(key, what);
  finish();
  fflush(stdout);
  _exit(0);
}
static std::string raw(const net::Address &a) {
  auto d = a.data();
  return {reinterpret_cast<const char *>(d.data()), d.size()};
}
static std::string name_of(int fd, bool peer) {
  sockaddr_storage s{};
  socklen_t n = sizeof s;
  if ((peer ? ::getpeername : ::getsockname)(fd, reinterpret_cast<sockaddr *>(&s), &n) != 0) return {};
  return {reinterpret_cast<char *>(&s), n};
}
static uint16_t port_of(int fd) {
  auto s = name_of(fd, false);
  sockaddr_storage st{};
  memcpy(&st, s.data(), s.size());
  return ntohs(st.ss_family == AF_INET6 ? reinterpret_cast<sockaddr_in6 &>(st).sin6_port : reinterpret_cast<sockaddr_in &>(st).sin_port);
}
static int raw_bound(bool v6, int type = SOCK_STREAM) {
  int s = ::socket(v6 ? AF_INET6 : AF_INET, type, 0);
  if (s < 0) harness_error("socket");
  int r;
  if (v6) { sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; r = ::bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a); }
  else { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); r = ::bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a); }
  if (r != 0) harness_error("bind");
  return s;
}
static std::string addr_text(bool v6, uint16_t port) { return v6 ? cat("[::1]:", port) : cat("127.0.0.1:", port); }
static bool nonblocking(int fd) { return (fcntl(fd, F_GETFL) & O_NONBLOCK) != 0; }
static bool readable(int fd, int ms) {
  auto end = Clock::now() + std::chrono::milliseconds(ms);
  for (;;) {
    pollfd p{fd, POLLIN, 0};
    auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - Clock::now()).count();
    int r = ::poll(&p, 1, left > 0 ? static_cast<int>(left) : 0);
    if (r < 0 && errno == EINTR) continue;
    return r > 0;
  }
}
static int to_high(int fd) {
  int h = fcntl(fd, F_DUPFD, g_high + 40);
  if (h < 0) harness_error("dup to a high descriptor");
  ::close(fd);
  return h;
}
static plain::bytes_t bytes(const std::string &s) { return {reinterpret_cast<const std::byte *>(s.data()), s.size()}; }
static void on_usr1(int) {}
// Signals for one thread as long as it lives.
struct Storm {
  std::atomic<bool> end{false};
  std::thread t;
  std::atomic<uint64_t> n{0};
  explicit Storm(bool on) {
    if (on) t = std::thread([this, id = pthread_self()] { while (!end) { pthread_kill(id, SIGUSR1); ++n; std::this_thread::sleep_for(3ms); } });
  }
  ~Storm() { end = true; if (t.joinable()) t.join(); count("signals_sent", n); }
};
// What the last error must be.
static std::mutex g_mm;
static std::map<int, std::string> g_messages;
static void check_error(int code, const std::string &what) {
  auto e = net::socket::get_last_error();
  if (code == EWOULDBLOCK) code = net::socket::kErrorWouldBlock;
  if (e.code() != code) { viol("error:code", cat(what, ": the error is ", e.code(), " (", e.message(), "), not ", code)); return; }
  std::unique_lock l{g_mm};
  if (e.message().empty()) viol("error:message", cat(what, ": no message"));
  for (auto &[c, m] : g_messages) {
    if (c == code && m != e.message()) viol("error:message", cat(what, ": error ", code, " is called ", e.message(), " and ", m));
    if (c != code && m == e.message()) viol("error:message", cat(what, ": error ", code, " is called ", m, " as error ", c));
  }
  g_messages[code] = e.message();
  l.unlock();
  count("errors_checked");
}

// A socket to connect with: none yet, made, non-blocking, with a high descriptor.
static std::unique_ptr<Sock> fresh(Rng &g, bool v6, bool udp, std::string &how) {
  auto s = std::make_unique<Sock>();
  auto k = g.below(4);
  if (k == 0) { how = "none"; return s; }
  if (g_high && k >= 2) {
    int fd = to_high(::socket(v6 ? AF_INET6 : AF_INET, udp ? SOCK_DGRAM : SOCK_STREAM, 0));
    if (!s->set_id(fd)) viol("own:set-id", "refused");
    how = "high";
    count("high_descriptors");
  } else {
    if (!s->create(v6 ? AF_INET6 : AF_INET, udp ? SOCK_DGRAM : SOCK_STREAM)) viol("socket:create", cat("failed ", net::socket::get_last_error().message()));
    how = "made";
  }
  if (g.chance(1, 2)) { if (!s->set_nonblocking()) viol("mode:set", ""); how += " nonblocking"; }
  return s;
}
static bool do_connect(Rng &g, Sock &s, bool v6, uint16_t port, std::chrono::milliseconds t, net::socket::Type type = net::socket::Type::Tcp) {
  return g.chance(1, 2) ? s.connect(addr_text(v6, port), t, type) : s.connect(v6 ? "::1" : "127.0.0.1", port, t, type);
}
static void check_mode(Sock &s, bool had, bool want, const std::string &ctx) {
  if (s.id() == -1) return;
  bool now = nonblocking(s.id());
  if (had && now != want) viol("mode:kept", cat(ctx, ": the socket was ", want ? "non-" : "", "blocking and is not any more"));
  if (!had && now) viol("mode:kept", cat(ctx, ": a socket made by connect is non-blocking"));
  if (s.valid() && s.is_nonblocking() != now) viol("mode:read", ctx);
}

static void connect_case(Rng &g) {
  const bool v6 = g_v6 && g.chance(1, 3);
  const int kind = static_cast<int>(g.below(7));
  std::string how;
  eval();
  auto type = net::socket::Type::Tcp;
  if (kind == 4) type = net::socket::Type::Udp;
  auto s = fresh(g, v6, kind == 4, how);
  const bool had = s->id() != -1;
  const bool nb = had && nonblocking(s->id());
  const std::string ctx = cat("connect kind ", kind, " with socket ", how, v6 ? " v6" : " v4");
  distinct(hash_str(ctx));
  Storm storm{g.chance(1, 3)};
  auto accept_one = [&](int lfd) {  // the peer of s
    if (!readable(lfd, kDead)) dead("connect:not-there", cat(ctx, ": reported connected, but no connection came"));
    Sock L{lfd};
    net::Address from;
    int fd = L.accept(from);
    L.release();
    if (fd < 0) { viol("accept:failed", ctx); return; }
    if (name_of(fd, true) != name_of(s->id(), false)) viol("connect:other", ctx);
    if (raw(from) != name_of(fd, true)) viol("accept:address", cat(ctx, ": told ", from.text()));
    Sock A{fd};
    if (raw(A.peer_address()) != raw(s->address()) || raw(A.address()) != raw(s->peer_address()) || raw(s->peer_address()) != name_of(s->id(), true) || raw(s->address()) != name_of(s->id(), false) || raw(s->address()).empty())
      viol("address:ends", cat(ctx, ": ", A.peer_address().text(), " / ", s->address().text(), ", ", A.address().text(), " / ", s->peer_address().text()));
    // It carries data both ways.
    std::string m = cat("to ", g.next());
    if (s->send(bytes(m)) != static_cast<int>(m.size())) viol("data:send", ctx);
    if (!readable(fd, kDead)) dead("data:lost", ctx);
    if (auto n = A.avail(); n != m.size()) viol("data:avail", cat(ctx, ": ", n, " of ", m.size()));
    plain::bytes_t b;
    b.resize(64);
    int r = A.recv(b);
    if (r != static_cast<int>(m.size()) || memcmp(b.data(), m.data(), m.size())) viol("data:recv", cat(ctx, ": ", r));
    if (A.send(bytes("back")) != 4) viol("data:send", ctx);
    if (!readable(s->id(), kDead)) dead("data:lost", ctx);
    b.resize(64);
    if (s->recv(b) != 4 || memcmp(b.data(), "back", 4)) viol("data:recv", ctx);
    count("connections_checked");
  };
  if (kind <= 1) {
    int lfd = raw_bound(v6);
    ::listen(lfd, 8);
    auto t = g.chance(1, 2) ? 0ms : 20000ms;
    if (!do_connect(g, *s, v6, port_of(lfd), t)) viol("connect:failed", cat(ctx, ": a listening peer could not be connected: ", net::socket::get_last_error().message()));
    else {
      if (s->type() != net::socket::Type::Tcp) viol("connect:type", ctx);
      check_mode(*s, had, nb, ctx);
      accept_one(lfd);
      count("connected");
    }
    ::close(lfd);
  } else if (kind <= 3) {
    int lfd = raw_bound(v6);  // not listening
    if (do_connect(g, *s, v6, port_of(lfd), g.chance(1, 2) ? 0ms : 20000ms)) viol("connect:to-nobody", ctx);
    else check_error(ECONNREFUSED, ctx);
    check_mode(*s, had, nb, ctx);
    count("refused");
    // Again, now somebody is there.
    ::listen(lfd, 8);
    s->close();  // What a second attempt with the same descriptor does is up to the system.
    if (!do_connect(g, *s, v6, port_of(lfd), 20000ms)) viol("connect:failed", cat(ctx, ": after a refused attempt: ", net::socket::get_last_error().message()));
    else { check_mode(*s, false, false, ctx); accept_one(lfd); }
    ::close(lfd);
  } else if (kind == 4) {
    int p = raw_bound(v6, SOCK_DGRAM);
    if (!do_connect(g, *s, v6, port_of(p), 20000ms, type)) viol("connect:failed", cat(ctx, ": ", net::socket::get_last_error().message()));
    else {
      if (s->type() != type) viol("connect:type", ctx);
      check_mode(*s, had, nb, ctx);
      int st = 0;
      if (!s->get_option(SOL_SOCKET, SO_TYPE, &st) || st != SOCK_DGRAM) viol("connect:type", cat(ctx, ": system type ", st));
      if (s->send(bytes("datagram")) != 8) viol("data:send", ctx);
      if (!readable(p, kDead)) dead("data:lost", ctx);
      char b[32];
      if (::recv(p, b, sizeof b, 0) != 8) viol("data:recv", ctx);
      count("datagrams");
    }
    ::close(p);
  } else if (kind == 5) {
    // Words which are no address.
    static const char *const bad[] = {"", ":", "nowhere", "1.2.3:80", "127.0.0.1", "[::1", "127.0.0.1:notaport", "300.1.1.1:80", "127.0.0.1:99999999", "\xff\xfe:80", "::1::2:1"};
    std::string b = bad[g.below(sizeof bad / sizeof *bad)];
    bool r = g.chance(1, 2) ? s->connect(b, 300ms) : s->connect(g.chance(1, 2) ? "no such host" : "256.1.1.1", static_cast<uint16_t>(g.next()), 300ms);
    if (r) viol("connect:to-no-address", cat(ctx, ": ", b));
    check_mode(*s, had, nb, ctx);
    count("no_addresses");
  } else {
    // A peer of another family than the socket's.
    if (g_v6 && had) {
      int lfd = raw_bound(!v6);
      ::listen(lfd, 8);
      bool r = do_connect(g, *s, !v6, port_of(lfd), 2000ms);
      if (r) viol("connect:wrong-family", ctx);
      check_mode(*s, had, nb, ctx);
      ::close(lfd);
      count("wrong_family");
    }
  }
}

// A peer which does not answer for a while, or never.
static void wait_case(Rng &g) {
  const bool v6 = g_v6 && g.chance(1, 3);
  int lfd = raw_bound(v6);
  ::listen(lfd, 0);
  const uint16_t port = port_of(lfd);
  std::vector<int> fill;
  for (int i = 0; i < 10; ++i) {  // until its queue is full
    int s = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    auto n = name_of(lfd, false);
    ::connect(s, reinterpret_cast<const sockaddr *>(n.data()), static_cast<socklen_t>(n.size()));
    pollfd p{s, POLLOUT, 0};
    fill.push_back(s);
    if (::poll(&p, 1, 60) == 0) break;
    if (i == 9) { harness_error("the queue of a listener does not get full"); }
  }
  const bool answers = g.chance(1, 3);
  const size_t n = answers ? 6 : static_cast<size_t>(g.range(2, 6));
  std::vector<std::thread> ts;
  std::atomic<size_t> done{0};
  for (size_t i = 0; i < n; ++i) ts.emplace_back([&, sub = g.next()] {
    Rng r{sub};
    std::string how;
    auto s = fresh(r, v6, false, how);
    const bool had = s->id() != -1, nb = had && nonblocking(s->id());
    const bool sig = r.chance(2, 3);
    const auto ctx = cat("a peer which ", answers ? "answers late" : "never answers", ", socket ", how, sig ? ", signals" : "");
    distinct(hash_str(ctx));
    const auto t = std::chrono::milliseconds(answers ? (r.chance(1, 2) ? 0 : 24000) : r.range(30, 250));
    auto from = Clock::now();
    bool ok;
    { Storm storm{sig}; ok = do_connect(r, *s, v6, port, t); }
    auto took = Clock::now() - from;
    if (!answers) {
      if (ok) viol("connect:timeout", cat(ctx, ": connected"));
      else {
        if (took < t - 2ms) viol("connect:early", cat(ctx, ": gave up after ", std::chrono::duration_cast<std::chrono::microseconds>(took).count(), " of ", t.count() * 1000, " us: ", net::socket::get_last_error().message()));
        check_error(ETIMEDOUT, ctx);
      }
      count("timeouts");
    } else {
      if (!ok) viol("connect:failed", cat(ctx, ": ", net::socket::get_last_error().message()));
      else if (name_of(s->id(), true) != name_of(lfd, false)) viol("connect:other", ctx);
      count("late_answers");
    }
    check_mode(*s, had, nb, ctx);
    done++;
    progress();
  });
  std::atomic<bool> end{false};
  std::vector<int> got;
  std::thread acc;
  if (answers) acc = std::thread([&] {
    std::this_thread::sleep_for(40ms);
    while (!end) if (readable(lfd, 20)) { int a = ::accept(lfd, nullptr, nullptr); if (a >= 0) got.push_back(a); }
  });
  if (!wait_until([&] { progress(); return done == n; }, 40000)) dead("connect:hangs", answers ? "a peer which answers late" : "the time limit is not kept");
  for (auto &t : ts) t.join();
  end = true;
  if (acc.joinable()) acc.join();
  for (int f : got) ::close(f);
  for (int f : fill) ::close(f);
  ::close(lfd);
  eval();
}

// Settings and what they read back; unbound, invalid objects.
static void options_case(Rng &g) {
  eval();
  {
    Sock none;
    plain::bytes_t b;
    b.resize(8);
    net::Address a;
    if (none.valid() || none || !none.error() || none.send(bytes("x")) > 0 || none.recv(b) > 0 || none.avail() || none.bind() || none.listen(1) || none.accept() != -1 || none.accept(a) != -1 ||
        none.set_nonblocking() || none.is_nonblocking() || none.get_linger() || none.clone().id() != -1 || !none.close() || none.release() != -1 || !raw(none.address()).empty() || !raw(none.peer_address()).empty())
      viol("invalid:object", "an invalid socket does something");
    if (none.set_linger(3) || none.set_reuse_addr() || none.set_recv_size(5000) || none.set_send_size(5000)) viol("invalid:option", "an option of an invalid socket could be set");
    check_error(EBADF, "an option of an invalid socket");
  }
  std::string how;
  const bool v6 = g_v6 && g.chance(1, 3);
  auto s = fresh(g, v6, g.chance(1, 4), how);
  if (s->id() == -1 && !s->create()) return viol("socket:create", "default");
  const bool is_v6 = how != "none" && v6;
  int fd = s->id();
  for (int i = 0; i < 12; ++i) {
    switch (g.below(7)) {
      case 0: { bool on = g.chance(1, 2); if (!s->set_nonblocking(on) || s->is_nonblocking() != on || nonblocking(fd) != on) viol("mode:set", how); break; }
      case 1: {
        uint32_t t = static_cast<uint32_t>(g.chance(1, 4) ? 0 : g.range(1, 65535));
        linger l{}; socklen_t n = sizeof l;
        if (!s->set_linger(t)) { viol("option:linger", "refused"); break; }
        getsockopt(fd, SOL_SOCKET, SO_LINGER, &l, &n);
        if (s->get_linger() != t || (t && static_cast<uint32_t>(l.l_linger) != t) || (l.l_onoff != 0) != (t > 0)) viol("option:linger", cat("set ", t, " got ", s->get_linger(), " system ", l.l_linger, '/', l.l_onoff));
        break;
      }
      case 2: case 3: {
        bool in = g.chance(1, 2);
        uint32_t size = static_cast<uint32_t>(g.range(5000, 100000));
        int v = 0; socklen_t n = sizeof v;
        if (!(in ? s->set_recv_size(size) : s->set_send_size(size))) { viol("option:size", "refused"); break; }
        getsockopt(fd, SOL_SOCKET, in ? SO_RCVBUF : SO_SNDBUF, &v, &n);
        uint32_t have = in ? s->get_recv_size() : s->get_send_size();
        if (have != static_cast<uint32_t>(v) || have != 2 * size) viol("option:size", cat(in ? "recv" : "send", " set ", size, " got ", have, " system ", v));
        break;
      }
      case 4: {
        bool on = g.chance(1, 2);
        int v = -1, w = -1; socklen_t n = sizeof v;
        if (!s->set_reuse_addr(on)) { viol("option:reuse", "refused"); break; }
        getsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &v, &n);
        if (!s->get_option(SOL_SOCKET, SO_REUSEADDR, &w) || v != w || (v != 0) != on) viol("option:reuse", cat("set ", on, " got ", v, '/', w));
        break;
      }
      case 5: {
        auto c = s->clone();
        if (c.id() == fd || !c.valid() || nonblocking(c.id()) != nonblocking(fd)) viol("own:clone", how);
        c.close();
        if (!s->valid()) viol("own:clone", cat(how, ": closed with its clone"));
        break;
      }
      default: {
        int v = 0;
        if (s->get_option(SOL_SOCKET, 9999, &v)) viol("option:unknown", "could be read");
        check_error(ENOPROTOOPT, "an unknown option");
      }
    }
    count("options_checked");
  }
  // Bind.
  int t = 0;
  s->get_option(SOL_SOCKET, SO_TYPE, &t);
  net::Address a{is_v6 ? "[::1]:0" : "127.0.0.1:0", false};
  if (!s->bind(a)) viol("bind:failed", cat(how, ' ', a.text(), ": ", net::socket::get_last_error().message()));
  else {
    auto at = s->address();
    if (raw(at) != name_of(fd, false) || at.port() == 0 || at.host() != (is_v6 ? "::1" : "127.0.0.1")) viol("bind:address", cat(a.text(), " is ", at.text()));
    // Nobody else gets it.
    Sock o;
    o.create(is_v6 ? AF_INET6 : AF_INET, t);
    o.set_reuse_addr(false);
    s->set_reuse_addr(false);
    if (o.bind(at)) viol("bind:twice", at.text());
    check_error(EADDRINUSE, "an address in use");
    if (t == SOCK_STREAM) {
      if (!s->listen(4)) viol("listen:failed", how);
      s->set_nonblocking();
      if (s->accept() != -1) viol("accept:nobody", "");
      check_error(EWOULDBLOCK, "accept with nobody there");
    } else {
      if (s->listen(4)) viol("listen:datagram", how);
      check_error(EOPNOTSUPP, "listen of a datagram socket");
    }
  }
  Sock d;
  if (d.create() && d.bind()) { if (d.address().port() == 0 || d.address().family() != AF_INET) viol("bind:default", d.address().text()); }
  else viol("bind:default", "failed");
  distinct(hash_str(cat("options ", how, is_v6, t)));
}

// Bytes both ways with every kind of return value.
static void data_case(Rng &g) {
  int f[2];
  if (!net::socket::make_pair(f)) return viol("pair:failed", "");
  { char c = 'x'; if (::send(f[0], &c, 1, 0) != 1 || !readable(f[1], kDead) || ::recv(f[1], &c, 1, 0) != 1 || c != 'x') viol("pair:dead", ""); }
  ::close(f[0]); ::close(f[1]);
  if (net::socket::socketpair(AF_UNIX, SOCK_STREAM, 0, f) != 0) return viol("pair:failed", "stream");
  if (g_high && g.chance(1, 2)) f[1] = to_high(f[1]);
  auto a = std::make_unique<Sock>(f[0]);
  auto b = std::make_unique<Sock>(f[1]);
  a->set_nonblocking();
  b->set_nonblocking();
  std::string flow[2];  // on its way
  uint64_t h = 9, sent = 0;
  auto check_avail = [&](int to) {
    Sock &x = to ? *b : *a;
    if (x.avail() != flow[to].size()) viol("data:avail", cat(x.avail(), " of ", flow[to].size()));
  };
  int steps = static_cast<int>(g.range(20, 120));
  for (int i = 0; i < steps; ++i) {
    int to = static_cast<int>(g.below(2));
    Sock &tx = to ? *a : *b, &rx = to ? *b : *a;
    if (g.chance(1, 2)) {
      std::string m;
      size_t n = static_cast<size_t>(g.chance(1, 6) ? g.range(10000, 300000) : g.range(1, 3000));
      for (size_t k = 0; k < n; ++k) m += static_cast<char>('a' + (sent + k) * 7 % 26 + (g.next() & 3));
      int r = tx.send(bytes(m));
      if (r == net::socket::kErrorWouldBlock) {
        check_error(EWOULDBLOCK, "send to a full peer");
        if (flow[to].size() < 1000) viol("data:full", cat("nothing could be sent with ", flow[to].size(), " bytes on their way"));
        count("send_would_block");
      } else if (r <= 0 || r > static_cast<int>(m.size())) viol("data:send", cat("returned ", r, " for ", m.size()));
      else { flow[to] += m.substr(0, static_cast<size_t>(r)); sent += static_cast<size_t>(r); if (r < static_cast<int>(m.size())) count("send_short"); }
    } else {
      plain::bytes_t x;
      x.resize(static_cast<size_t>(g.chance(1, 5) ? g.range(10000, 400000) : g.range(1, 3000)));
      uint32_t peek = g.chance(1, 5) ? MSG_PEEK : 0;
      int r = rx.recv(x, peek);
      auto &fl = flow[to];
      if (fl.empty()) {
        if (r != net::socket::kErrorWouldBlock) viol("data:recv", cat("returned ", r, " with nothing there"));
        else check_error(EWOULDBLOCK, "recv with nothing there");
        count("recv_would_block");
      } else if (r <= 0 || static_cast<size_t>(r) > fl.size() || static_cast<size_t>(r) > x.capacity()) viol("data:recv", cat("returned ", r, " of ", fl.size()));
      else {
        if (memcmp(x.data(), fl.data(), static_cast<size_t>(r))) viol("data:content", cat("at step ", i));
        if (static_cast<size_t>(r) < std::min(fl.size(), x.capacity())) viol("data:recv", cat("returned ", r, " with ", fl.size(), " there and room for ", x.capacity()));
        if (!peek) fl.erase(0, static_cast<size_t>(r));
        count("bytes_checked", static_cast<uint64_t>(r));
      }
    }
    check_avail(to);
    h = hash_mix(h, flow[to].size());
  }
  // The end: what is left comes, then nothing.
  int way = static_cast<int>(g.below(3));
  if (way == 0) { if (!a->shutdown(SHUT_WR)) viol("shutdown:failed", ""); }
  else if (way == 1) { if (!a->shutdown()) viol("shutdown:failed", ""); }
  else if (!flow[0].empty()) { plain::bytes_t x; x.resize(flow[0].size() + 1); if (a->recv(x) > 0) flow[0].clear(); }
  if (way == 2 && !a->close()) viol("close:failed", "");
  for (int i = 0; i < 5000; ++i) {
    plain::bytes_t x;
    x.resize(40000);
    int r = b->recv(x);
    if (r <= 0) {
      if (r != 0) viol("data:end", cat("returned ", r, " at the end"));
      if (!flow[1].empty()) viol("data:end", cat(flow[1].size(), " bytes are lost at the end"));
      break;
    }
    if (static_cast<size_t>(r) > flow[1].size() || memcmp(x.data(), flow[1].data(), static_cast<size_t>(r))) { viol("data:content", "at the end"); break; }
    flow[1].erase(0, static_cast<size_t>(r));
  }
  if (way != 0) {
    if (b->send(bytes("gone")) > 0) viol("data:send", "to a peer which is gone");
    else check_error(EPIPE, "send to a peer which is gone");
  }
  count("ends");
  distinct(h);
  eval();
}

// Who owns which descriptor.
static std::multiset<ino_t> open_sockets() {
  std::multiset<ino_t> r;
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) harness_error("/proc/self/fd");
  while (auto e = readdir(d)) {
    n = atoi(e->d_name);
    struct stat st;
    if (e->d_name[0] != '.' && fstat(n, &st) == 0 && S_ISSOCK(st.st_mode)) r.insert(st.st_ino);
  }
  closedir(d);
  return r;
}
static ino_t ino(int fd) { struct stat st; return fstat(fd, &st) == 0 ? st.st_ino : 0; }
static void own_case(Rng &g) {
  eval();
  auto before = open_sockets();
  {
    struct Owner { std::unique_ptr<Sock> s; ino_t i{0}; };  // 0: owns none
    std::vector<Owner> all;
    std::map<int, ino_t> mine;  // ours
    uint64_t h = 1;
    int steps = static_cast<int>(g.range(10, 60));
    std::string log;
    for (int k = 0; k < steps; ++k) {
      auto op = g.below(10);
      h = hash_mix(h, op);
      log += cat(' ', op);
      if (all.empty() || op == 0) { all.push_back({std::make_unique<Sock>(), 0}); if (g.chance(1, 2)) continue; }
      auto &o = g.pick(all);
      auto own = [&](const char *what) { o.i = o.s->id() == -1 ? 0 : ino(o.s->id()); if (o.s->id() == -1 || !o.i) viol("own:none", what); };
      switch (op) {
        case 1: case 2: if (!(g.chance(1, 2) ? o.s->create() : o.s->create(AF_UNIX, SOCK_STREAM))) viol("socket:create", log); own("create"); break;
        case 3: if (!o.s->close()) viol("close:failed", log); o.i = 0; if (o.s->id() != -1 || o.s->valid()) viol("own:closed", "is still valid"); break;
        case 4: { int fd = o.s->release(); if ((fd == -1) != (o.i == 0)) viol("own:release", log); if (fd != -1) { if (ino(fd) != o.i) viol("own:release", log); mine[fd] = o.i; } o.i = 0; break; }
        case 5: { auto c = o.s->clone(); Owner n{std::make_unique<Sock>(std::move(c)), o.i}; if (n.s->id() != -1 && ino(n.s->id()) != o.i) viol("own:clone", log); if ((n.s->id() == -1) != (o.i == 0)) viol("own:clone", log); all.push_back(std::move(n)); break; }
        case 6: { Owner n{std::make_unique<Sock>(std::move(*o.s)), o.i}; o = std::move(n); break; }
        case 7: if (!mine.empty()) { auto it = mine.begin(); if (!o.s->set_id(it->first)) viol("own:set-id", log); o.i = it->second; mine.erase(it); } break;
        case 8: if (!mine.empty()) { all.push_back({std::make_unique<Sock>(mine.begin()->first), mine.begin()->second}); mine.erase(mine.begin()); } break;
        case 9: std::swap(o, all.back()); all.pop_back(); break;
        default: break;
      }
      auto want = before;
      for (auto &x : all) if (x.i) {
        want.insert(x.i);
        if (x.s->id() == -1 || ino(x.s->id()) != x.i) viol("own:lost", cat("a socket lost its descriptor, operations", log));
        else if (!x.s->valid()) viol("own:invalid", cat("operations", log));
      } else if (x.s->id() != -1) viol("own:left", cat("operations", log));
      for (auto &[fd, i] : mine) { want.insert(i); if (ino(fd) != i) viol("own:foreign", cat("a released descriptor was closed, operations", log)); }
      if (open_sockets() != want) viol("own:count", cat("open descriptors differ from those owned: ", open_sockets().size(), " and ", want.size(), ", operations", log));
      count("ownerships_checked");
      if (viol_count()) break;
    }
    distinct(h);
    for (auto &[fd, i] : mine) ::close(fd);
  }
  if (open_sockets() != before) viol("own:leak", "descriptors are left open");
}
// Many threads close one socket while others open descriptors.
static void close_race_case(Rng &g) {
  eval();
  const int rounds = 30, closers = static_cast<int>(g.range(2, 4));
  for (int r = 0; r < rounds; ++r) {
    Sock s;
    s.create();
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    std::vector<std::pair<int, ino_t>> opened(64);
    std::atomic<int> released{-1}, n_released{0};
    for (int i = 0; i < closers; ++i) ts.emplace_back([&, how = g.below(4)] {
      ready++;
      while (!go) {}
      if (how == 0) { int fd = s.release(); if (fd != -1) { released = fd; n_released++; } }
      else if (!s.close()) viol("close:failed", "by one of several threads");
      if (s.id() != -1) viol("own:closed", "still has a descriptor");
    });
    std::thread opener([&] {
      ready++;
      while (!go) {}
      for (auto &o : opened) { o.first = ::socket(AF_UNIX, SOCK_STREAM, 0); o.second = ino(o.first); }
    });
    while (ready < closers + 1) {}
    go = true;
    for (auto &t : ts) t.join();
    opener.join();
    for (auto &o : opened) {
      if (ino(o.first) != o.second) viol("own:foreign", "a descriptor of another was closed");
      ::close(o.first);
    }
    if (n_released > 1) viol("own:release", "given to two threads");
    if (released != -1) ::close(released);
    progress();
  }
  count("close_races", rounds);
  distinct(hash_mix(77, static_cast<uint64_t>(closers)));
}
// Errors belong to the thread they happened in.
static void errors_case(Rng &g) {
  eval();
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; ++i) ts.emplace_back([&, sub = g.next()] {
    Rng r{sub};
    uint64_t h = 3;
    for (int k = 0; k < 60; ++k) {
      auto op = r.below(7);
      h = hash_mix(h, op);
      switch (op) {
        case 0: { Sock s; s.create(); if (s.get_option(SOL_SOCKET, 9999, &h)) viol("option:unknown", ""); check_error(ENOPROTOOPT, "an unknown option"); break; }
        case 1: if (net::socket::close(-1)) viol("close:invalid", ""); check_error(EBADF, "close of no descriptor"); break;
        case 2: { Sock s; s.create(); plain::bytes_t b; b.resize(4); if (s.recv(b) > 0) viol("data:recv", "unconnected"); check_error(ENOTCONN, "recv of an unconnected socket"); break; }
        case 3: { Sock s; s.create(AF_UNIX, SOCK_DGRAM); if (s.listen(1)) viol("listen:datagram", ""); check_error(EOPNOTSUPP, "listen of a datagram socket"); break; }
        case 4: { Sock s; if (s.create(AF_INET, 77)) viol("socket:create", "of an unknown type"); check_error(EINVAL, "create of an unknown type"); break; }
        case 5: { int p[2]; if (::pipe(p)) break; if (net::socket::listen(p[0], 1)) viol("listen:pipe", ""); check_error(ENOTSOCK, "listen of a pipe"); ::close(p[0]); ::close(p[1]); break; }
        default: { Sock s; s.create(); if (s.shutdown()) viol("shutdown:unconnected", ""); check_error(ENOTCONN, "shutdown of an unconnected socket"); }
      }
      if (r.chance(1, 4)) std::this_thread::yield();
    }
    distinct(h);
  });
  for (auto &t : ts) t.join();
}
// Datagrams by the plain calls: each comes whole, alone and with the name of its sender; pairs keep their messages apart.
static void datagram_case(Rng &g) {
  namespace api = net::socket;
  const bool v6 = g_v6 && g.chance(1, 2);
  const int n = static_cast<int>(g.range(2, 4));
  std::vector<int> fds;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) { fds.push_back(raw_bound(v6, SOCK_DGRAM)); names.push_back(name_of(fds.back(), false)); }
  std::vector<std::deque<std::pair<int, std::string>>> waiting(static_cast<size_t>(n));
  uint64_t h = 71;
  for (int k = static_cast<int>(g.range(10, 60)); k; --k) {
    auto a = g.below(static_cast<uint64_t>(n)), b = g.below(static_cast<uint64_t>(n));
    if (g.chance(1, 2) && waiting[b].size() < 20) {
      std::string m(g.chance(1, 3) ? g.below(5) : g.below(3000), '\0');
      for (auto &c : m) c = static_cast<char>(g.next());
      std::unique_ptr<char[]> x{new char[m.size() + !m.size()]};
      memcpy(x.get(), m.data(), m.size());
      auto r = api::sendto(fds[a], x.get(), static_cast<int32_t>(m.size()), MSG_NOSIGNAL, reinterpret_cast<const sockaddr *>(names[b].data()), static_cast<int32_t>(names[b].size()));
      if (r != static_cast<int32_t>(m.size())) { viol("datagram:sendto", cat(r, " of ", m.size())); break; }
      waiting[b].emplace_back(static_cast<int>(a), m);
      h = hash_mix(h, m.size() * 4 + 1);
    } else {
      const size_t room = g.chance(1, 4) ? g.below(20) + 1 : 4000;
      std::unique_ptr<char[]> x{new char[room]};
      sockaddr_storage from{};
      uint32_t fl = sizeof from;
      const bool peek = g.chance(1, 5);
      auto r = api::recvfrom(fds[b], x.get(), static_cast<int32_t>(room), MSG_DONTWAIT | (peek ? MSG_PEEK : 0), reinterpret_cast<sockaddr *>(&from), &fl);
      h = hash_mix(h, waiting[b].size() * 4 + 2);
      if (waiting[b].empty()) {
        if (r != api::kErrorWouldBlock) { viol("datagram:recvfrom-none", cat(r)); break; }
        check_error(EWOULDBLOCK, "recvfrom of nothing");
        continue;
      }
      auto [who, m] = waiting[b].front();
      if (!peek) waiting[b].pop_front();
      if (r != static_cast<int32_t>(std::min(room, m.size())) || memcmp(x.get(), m.data(), static_cast<size_t>(r)) != 0) { viol("datagram:content", cat(r, " of ", m.size(), " room ", room)); break; }
      if (std::string(reinterpret_cast<char *>(&from), fl) != names[static_cast<size_t>(who)]) { viol("datagram:sender", cat(fl)); break; }
      count("datagrams_by_calls");
    }
  }
  // what is waiting is seen by select, and only that
  fd_set rd;
  FD_ZERO(&rd);
  int top = 0, want = 0;
  bool fits = true;
  for (int i = 0; i < n; ++i) { if (fds[static_cast<size_t>(i)] >= FD_SETSIZE) { fits = false; break; } FD_SET(fds[static_cast<size_t>(i)], &rd); top = std::max(top, fds[static_cast<size_t>(i)]); want += !waiting[static_cast<size_t>(i)].empty(); }
  timeval tv{0, 0};
  if (fits && viol_count() == 0) {
    auto r = api::select(top + 1, &rd, nullptr, nullptr, &tv);
    if (r != want) viol("datagram:select", cat(r, " of ", want));
    for (int i = 0; i < n && r > 0; ++i) if (static_cast<bool>(FD_ISSET(fds[static_cast<size_t>(i)], &rd)) == waiting[static_cast<size_t>(i)].empty()) viol("datagram:select-which", cat(i));
  }
  // names, options
  for (int i = 0; i < n; ++i) {
    sockaddr_storage s{};
    int32_t l = sizeof s;
    if (api::getsockname(fds[static_cast<size_t>(i)], reinterpret_cast<sockaddr *>(&s), &l) != 0 || std::string(reinterpret_cast<char *>(&s), static_cast<size_t>(l)) != names[static_cast<size_t>(i)]) viol("datagram:name", cat(i));
    l = sizeof s;
    if (api::getpeername(fds[static_cast<size_t>(i)], reinterpret_cast<sockaddr *>(&s), &l) == 0) viol("datagram:peer", "an unconnected socket has a peer");
    check_error(ENOTCONN, "the peer of an unconnected socket");
    int v = 0, sys = 0;
    uint32_t vl = sizeof v;
    socklen_t sl = sizeof sys;
    auto opt_name = g.pick(std::vector<int>{SO_TYPE, SO_RCVBUF, SO_SNDBUF, SO_REUSEADDR, SO_BROADCAST});
    ::getsockopt(fds[static_cast<size_t>(i)], SOL_SOCKET, opt_name, &sys, &sl);
    if (api::getsockoptu(fds[static_cast<size_t>(i)], SOL_SOCKET, opt_name, &v, &vl) != 0 || v != sys || vl != sl) viol("datagram:option", cat(opt_name, " is ", v, " for ", sys));
  }
  {
    int v = 0, p[2];
    uint32_t vl = sizeof v;
    if (api::getsockoptu(-1, SOL_SOCKET, SO_TYPE, &v, &vl) != 1) viol("datagram:option-code", "of no descriptor");
    check_error(EBADF, "option of no descriptor");
    if (::pipe(p) == 0) {
      if (api::getsockoptu(p[0], SOL_SOCKET, SO_TYPE, &v, &vl) != 2) viol("datagram:option-code", "of a pipe");
      check_error(ENOTSOCK, "option of a pipe");
      ::close(p[0]); ::close(p[1]);
    }
    if (api::getsockoptu(fds[0], SOL_SOCKET, 9999, &v, &vl) != 3) viol("datagram:option-code", "of an unknown option");
    check_error(ENOPROTOOPT, "an unknown option");
  }
  if (api::get_sock_type(net::socket::Type::Udp) != SOCK_DGRAM || api::get_sock_type(net::socket::Type::Tcp) != SOCK_STREAM) viol("datagram:type", "");
  for (auto f : fds) if (!api::close(f)) viol("datagram:close", "");
  // pairs
  int pr[2] = {-1, -1};
  bool stream = g.chance(1, 2);
  if (stream ? api::socketpair(AF_UNIX, SOCK_STREAM, 0, pr) != 0 : !api::make_pair(pr)) { viol("datagram:pair", ""); return; }
  std::string all[2], in[2];
  for (int k = static_cast<int>(g.range(2, 20)); k; --k) {
    int w = static_cast<int>(g.below(2));
    std::string m(1 + g.below(50), static_cast<char>('a' + k % 26));
    if (api::send(pr[w], m.data(), static_cast<uint32_t>(m.size()), 0) != static_cast<int32_t>(m.size())) viol("datagram:pair-send", "");
    all[w] += m;
    char b[64];
    auto r = api::recv(pr[1 - w], b, sizeof b, 0);
    if (r != static_cast<int32_t>(m.size())) viol("datagram:pair-recv", cat(r));
    else in[w].append(b, static_cast<size_t>(r));
  }
  if (in[0] != all[0] || in[1] != all[1]) viol("datagram:pair-content", "");
  api::close(pr[0]);
  char b[4];
  if (api::recv(pr[1], b, 4, 0) != 0) viol("datagram:pair-end", "");
  api::close(pr[1]);
  eval();
  distinct(h);
}
// A select net has no room for high descriptors: they are refused, the others served.
static void select_high_case(Rng &g) {
  if (!g_high) return;
  eval();
  auto fill_low = [] {
    std::vector<int> f;
    for (;;) { int x = ::open("/dev/null", O_RDONLY | O_CLOEXEC); if (x < 0) harness_error("open"); f.push_back(x); if (x >= g_high) return f; }
  };
  auto drop = [](std::vector<int> &f) { for (int x : f) ::close(x); f.clear(); };
  static std::atomic<int> no{0};
  net::setting_t st;
  st.mode = g.chance(2, 3) ? net::Mode::Select : net::Mode::Epoll;
  const bool sel = st.mode == net::Mode::Select;
  st.name = cat("vf-high-", no++);
  st.max_count = 16;
  st.default_count = 2;
  st.address = "127.0.0.1:0";
  auto echo = [](net::connection::Basic *c, std::shared_ptr<net::packet::Basic> p) { auto q = std::make_shared<net::packet::Basic>(); q->set_id(p->id()); q->set_writeable(true); auto d = p->data(); q->write(d.data(), d.size()); q->set_writeable(false); c->send(q); return true; };
  auto dial = [&](uint16_t port) { int s = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::connect(s, reinterpret_cast<sockaddr *>(&a), sizeof a)) harness_error("connect"); return s; };
  // 1 served, 0 closed
  auto probe = [&](int s) {
    unsigned char m[10] = {0, 7, 0, 0, 0, 4, 'p', 'i', 'n', 'g'};
    ::send(s, m, 10, MSG_NOSIGNAL);
    size_t got = 0;
    while (got < 10) {
      if (!readable(s, kDead)) dead("select:silent", cat(sel ? "select" : "epoll", ": neither served nor closed"));
      auto r = ::recv(s, m + got, 10 - got, 0);
      if (r <= 0) return 0;
      got += static_cast<size_t>(r);
    }
    return 1;
  };
  const bool start_high = g.chance(1, 3);
  std::vector<int> filler;
  if (start_high) filler = fill_low();
  {
    net::Listener L{st};
    L.set_dispatcher(echo);
    bool up = L.start();
    if (start_high) {
      if (sel && up) viol("select:started", "a select net works with descriptors out of its sets");
      if (!sel && !up) viol("epoll:not-started", "with high descriptors");
      if (!up) { count("select_refused_start"); drop(filler); return; }
    } else if (!up) harness_error("start failed");
    uint16_t port = L.address().port();
    std::vector<int> low, high;
    for (int i = 0; i < 3; ++i) { int s = dial(port); if (!start_high) { if (!probe(s)) viol("select:not-served", "a low descriptor"); } low.push_back(s); }
    if (!start_high) filler = fill_low();
    for (int i = 0; i < 3; ++i) {
      int s = dial(port);
      int r = probe(s);
      if (sel && r) viol("select:served", "a descriptor out of the sets");
      if (!sel && !r) viol("epoll:not-served", "a high descriptor");
      count(sel ? "select_refused" : "epoll_high_served");
      high.push_back(s);
      for (int o : low) if (!probe(o)) viol("select:not-served", "a low descriptor after a high one came");
    }
    if (!start_high) drop(filler);
    for (int i = 0; i < 2; ++i) { int s = dial(port); if (!probe(s)) viol("select:not-served", "a low descriptor, after high ones"); low.push_back(s); }
    for (int s : low) ::close(s);
    for (int s : high) ::close(s);
    L.stop();
  }
  drop(filler);
  distinct(hash_mix(sel ? 5 : 6, start_high));
}

// Nets that cannot listen or connect say so, with the reason, and can be tried again.
static thread_local std::string *t_log;
static void nets_case(Rng &g) {
  eval();
  static std::atomic<int> no{0};
  std::string log;
  auto said = [&](int code) { return log.find(strerror(code)) != std::string::npos || log.find(cat(" ", code, ":")) != std::string::npos; };
  net::setting_t st;
  st.mode = g.chance(1, 2) ? net::Mode::Select : net::Mode::Epoll;
  const char *mode = st.mode == net::Mode::Select ? "select" : "epoll";
  st.name = cat("vf-nets-", no++);
  st.max_count = static_cast<uint32_t>(g.range(1, 5));
  st.default_count = static_cast<uint32_t>(g.range(0, 1));
  // The port is taken by somebody.
  int taken = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_ANY);
  socklen_t n = sizeof a;
  if (::bind(taken, reinterpret_cast<sockaddr *>(&a), sizeof a) || ::listen(taken, 5) || getsockname(taken, reinterpret_cast<sockaddr *>(&a), &n)) harness_error("listen");
  uint16_t port = ntohs(a.sin_port);
  st.address = cat(g.chance(1, 2) ? "127.0.0.1:" : "0.0.0.0:", port);
  auto L = std::make_unique<net::Listener>(st);
  auto before = open_sockets().size();
  for (int i = static_cast<int>(g.range(1, 3)); i; --i) {
    log.clear();
    t_log = &log;
    bool up = L->start();
    t_log = nullptr;
    if (up) { viol("nets:listens-on-a-taken-port", mode); break; }
    if (L->running()) viol("nets:running", cat("a listener that did not start, ", mode));
    if (!said(EADDRINUSE)) viol("nets:listen-reason", cat(mode, ": ", log.substr(0, 300)));
    count("listens_refused");
  }
  if (open_sockets().size() > before + 1) viol("nets:descriptors", cat(open_sockets().size() - before, " more after listens that failed"));
  ::close(taken);
  bool again = L->start();
  if (!again) {
    // Somebody else may have it by now.
    int x = ::socket(AF_INET, SOCK_STREAM, 0);
    int one = 1;
    ::setsockopt(x, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (::bind(x, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0) viol("nets:listen-again", mode);
    ::close(x);
    return;
  }
  if (!L->running() || L->address().port() != port) viol("nets:listen-again", cat(mode, " running ", L->running(), " port ", L->address().port(), " for ", port));
  if (!L->start()) viol("nets:start-twice", mode);
  // Nobody listens on the other one.
  int hold = ::socket(AF_INET, SOCK_STREAM, 0);
  a = {};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  n = sizeof a;
  if (::bind(hold, reinterpret_cast<sockaddr *>(&a), sizeof a) || getsockname(hold, reinterpret_cast<sockaddr *>(&a), &n)) harness_error("bind");
  uint16_t nobody = ntohs(a.sin_port);
  net::setting_t cs;
  cs.mode = g.chance(1, 2) ? net::Mode::Select : net::Mode::Epoll;
  cs.name = cat(st.name, "c");
  cs.max_count = 3;
  cs.default_count = 1;
  net::Connector C{cs};
  if (C.running()) viol("nets:running", "a connector not started");
  if (!C.start() || !C.running()) viol("nets:running", "a connector that is started");
  if (!L->get_executor() || !C.get_executor() || L->get_executor() == C.get_executor()) viol("nets:executor", mode);
  for (int i = static_cast<int>(g.range(1, 6)); i; --i) {
    log.clear();
    t_log = &log;
    auto c = g.chance(1, 2) ? C.connect("127.0.0.1", nobody, {}, 20000ms) : C.connect(cat("127.0.0.1:", nobody), {}, 20000ms);
    t_log = nullptr;
    if (c) viol("nets:connected-to-nobody", mode);
    if (!said(ECONNREFUSED)) viol("nets:connect-reason", cat("a refused connection is reported as: ", log.substr(0, 300)));
    count("connects_refused");
  }
  auto c = C.connect("127.0.0.1", port, {}, 20000ms);
  if (!c) viol("nets:connect-after-failures", mode);
  C.stop();
  L->stop();
  if (C.running() || L->running()) viol("nets:running", "after the stop");
  ::close(hold);
  distinct(hash_mix(st.max_count * 2 + (st.mode == net::Mode::Select), cs.mode == net::Mode::Select));
}

int main(int argc, char **argv) {
  init(argc, argv);
  struct sigaction sa{};
  sa.sa_handler = on_usr1;
  sigaction(SIGUSR1, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  rlimit rl{};
  getrlimit(RLIMIT_NOFILE, &rl);
  if (rl.rlim_max >= 2000) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl); g_high = FD_SETSIZE; }
  { int s = ::socket(AF_INET6, SOCK_STREAM, 0); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; g_v6 = s >= 0 && ::bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0; if (s >= 0) ::close(s); }
  if (g_v6) count("v6_there");
  struct { const char *name; void (*f)(Rng &); } all[] = {
    {"connect", connect_case}, {"wait", wait_case}, {"options", options_case}, {"data", data_case}, {"own", own_case},
    {"close_race", close_race_case}, {"errors", errors_case}, {"select_high", select_high_case}, {"nets", nets_case}, {"datagrams", datagram_case}};
  plain::Logger::set_output([](const std::string_view &l) { if (t_log) t_log->append(l); });
  uint64_t salt = 0;
  for (auto &s : all) {
    ++salt;
    if (!selected(s.name)) continue;
    scenario(s.name);
    for (uint64_t i = 0; i < opt.scale && viol_count() == 0; ++i) {
      Rng g{opt.seed * 1000003 + salt * 7919 + i};
      progress();
      s.f(g);
    }
  }
  return finish();
}
