// Link-time interposition (-Wl,--wrap=recv,--wrap=send): legal short transfers
// and spurious would-block results on sockets, driven by the seeded RNG.
#pragma once
#include "common.h"
#include <cerrno>
#include <sys/socket.h>
namespace vf {
inline std::atomic<unsigned> g_short_recv{0}, g_short_send{0}, g_again{0}, g_again_send{0};  // 1-in-N, 0 = off
inline std::atomic<uint64_t> g_n_short_recv{0}, g_n_short_send{0}, g_n_again_recv{0}, g_n_again_send{0};
inline Rng &sock_rng() {
  static std::atomic<uint64_t> ids{0};
  thread_local Rng r{opt.seed * 104729 + 31 * ids.fetch_add(1)};
  return r;
}
inline void sock_counters() {
  count("injected_short_recv", g_n_short_recv.load());
  count("injected_short_send", g_n_short_send.load());
  count("injected_again_recv", g_n_again_recv.load());
  count("injected_again_send", g_n_again_send.load());
}
}
extern "C" {
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
inline bool vf_is_stream(int fd) {
  int t = 0; socklen_t l = sizeof t;
  if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) != 0) return false;
  return t == SOCK_STREAM;
}
__attribute__((used)) ssize_t __wrap_recv(int fd, void *p, size_t n, int f) {
  auto &r = vf::sock_rng();
  if (!vf_is_stream(fd)) return __real_recv(fd, p, n, f);
  if (unsigned a = vf::g_again.load(); a && r.below(a) == 0) { vf::g_n_again_recv++; errno = EAGAIN; return -1; }
  if (unsigned a = vf::g_short_recv.load(); a && n > 1 && r.below(a) == 0) {
    vf::g_n_short_recv++;
    n = 1 + r.below(r.chance(1, 2) ? (n < 9 ? n - 1 : 8) : n - 1);
  }
  return __real_recv(fd, p, n, f);
}
__attribute__((used)) ssize_t __wrap_send(int fd, const void *p, size_t n, int f) {
  auto &r = vf::sock_rng();
  if (!vf_is_stream(fd)) return __real_send(fd, p, n, f);
  if (unsigned a = vf::g_again.load(); a && r.below(a) == 0) { vf::g_n_again_send++; errno = EAGAIN; return -1; }
  if (unsigned a = vf::g_again_send.load(); a && r.below(a) == 0) { vf::g_n_again_send++; errno = EAGAIN; return -1; }
  if (unsigned a = vf::g_short_send.load(); a && n > 1 && r.below(a) == 0) {
    vf::g_n_short_send++;
    n = 1 + r.below(r.chance(1, 2) ? (n < 9 ? n - 1 : 8) : n - 1);
  }
  return __real_send(fd, p, n, f);
}
}
