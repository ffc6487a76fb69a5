// P11: ring buffers and network streams are lossless byte FIFOs.
#include "common.h"
#include "sockwrap.h"
#include <deque>
#include <thread>
#include <memory>
#include "plain/basic/ring.h"
#include "plain/net/stream/basic.h"
#include "plain/net/socket/basic.h"
#include "plain/net/socket/api.h"
using namespace vf;

template <class R, class T, bool Dyn>
void ring_model(const char *name, size_t cap, uint64_t seed, size_t steps) {
  Rng g{seed};
  auto ring = std::make_unique<R>();
  std::deque<T> model;
  uint64_t next = g.next();
  std::string trace;
  uint64_t h = hash_str(name);
  bool grew = false, wrapped = false;
  size_t total_in = 0;
  auto val = [&] { return static_cast<T>(next++ * 2654435761u >> 3); };
  auto fail = [&](const char *op, const std::string &d) {
    viol(cat("ring:", Dyn ? "dynamic" : "fixed", ":", op), cat(name, " after [", trace.size() > 600 ? trace.substr(trace.size() - 600) : trace, "] ", d));
  };
  std::vector<T> buf;
  for (size_t i = 0; i < steps && viol_count() < 50; ++i) {
    unsigned op = static_cast<unsigned>(g.below(12));
    size_t k;
    switch (g.below(4)) {
      case 0: k = g.below(4); break;
      case 1: k = g.below(cap + 2); break;
      case 2: k = g.below(cap / 2 + 1); break;
      default: k = Dyn ? g.below(cap * 3 + 1) : g.below(cap + 5); break;
    }
    if (Dyn && ring->size() > cap * 64) op = 11;
    bool insane = false;
    switch (op) {
      case 0: case 1: {  // bulk write (full or partial)
        bool full = g.chance(1, 2);
        buf.clear();
        for (size_t j = 0; j < k; ++j) buf.push_back(val());
        size_t room = Dyn ? k : cap - model.size();
        size_t want = k <= room ? k : (full ? 0 : room);
        trace += cat(full ? "W" : "w", k, " ");
        auto was = ring->size();
        size_t r = ring->write(buf.data(), k, full);
        if (r != want) { fail("write-count", cat("wrote ", r, " want ", want)); insane = true; }
        for (size_t j = 0; j < r && j < k; ++j) model.push_back(buf[j]);
        total_in += r;
        if (ring->size() != was) grew = true;
        break;
      }
      case 2: {  // insert
        T v = val();
        bool want = Dyn || model.size() < cap;
        bool by_ptr = g.chance(1, 2);
        trace += "i ";
        auto was = ring->size();
        bool r = by_ptr ? ring->insert(&v) : ring->insert(v);
        if (r != want) fail("insert-result", cat("got ", r));
        if (r) { model.push_back(v); ++total_in; }
        if (ring->size() != was) grew = true;
        break;
      }
      case 3: {  // remove one
        T v{};
        trace += "r ";
        bool r = ring->remove(&v);
        if (r != !model.empty()) { fail("remove-one-result", cat("got ", r)); insane = true; }
        else if (r) {
          if (v != model.front()) fail("remove-one-value", cat("got ", (uint64_t)v, " want ", (uint64_t)model.front()));
          model.pop_front();
        }
        break;
      }
      case 4: {  // drop k
        size_t want = k < model.size() ? k : model.size();
        trace += cat("d", k, " ");
        size_t r = ring->remove(size_t{k});
        if (r != want) { fail("remove-count", cat("got ", r, " want ", want)); insane = true; }
        model.erase(model.begin(), model.begin() + static_cast<long>(want));
        break;
      }
      case 5: case 6: case 7: {  // read / peek k
        bool ro = op == 7;
        size_t want = k < model.size() ? k : model.size();
        trace += cat(ro ? "p" : "R", k, " ");
        buf.assign(k + 1, T{});
        size_t r = ring->read(buf.data(), k, ro);
        if (r != want) { fail(ro ? "peek-count" : "read-count", cat("got ", r, " want ", want)); insane = true; break; }
        for (size_t j = 0; j < want; ++j)
          if (buf[j] != model[j]) {
            fail(ro ? "peek-value" : "read-value", cat("pos ", j, " got ", (uint64_t)buf[j], " want ", (uint64_t)model[j]));
            insane = true; break;
          }
        if (!ro) model.erase(model.begin(), model.begin() + static_cast<long>(want));
        break;
      }
      case 8: {  // at / []
        size_t idx = g.below(model.size() + 3);
        T *p = ring->at(idx);
        if ((p != nullptr) != (idx < model.size())) fail("at-bounds", cat("idx ", idx, " size ", model.size()));
        else if (p && *p != model[idx]) fail("at-value", cat("idx ", idx));
        if (idx < model.size() && (*ring)[idx] != model[idx]) fail("index-value", cat("idx ", idx));
        break;
      }
      case 9: {  // peek pointer
        if (!model.empty()) {
          size_t c = g.below(model.size() + 4);
          T *p = ring->peek(c);
          if ((p != nullptr) != (c <= model.size())) fail("peek-ptr-bounds", cat("count ", c, " size ", model.size()));
          else if (p && *p != model.front()) fail("peek-ptr-value", "");
        }
        break;
      }
      case 10: break;
      default:
        if (g.chance(1, 6) || (Dyn && ring->size() > cap * 64)) {
          trace += "c ";
          if (Dyn && g.chance(1, 2)) ring->clear();
          else if (g.chance(1, 2)) ring->consumer_clear();
          else ring->producer_clear();
          if (Dyn && ring->size() > cap * 64) ring->clear();
          model.clear();
        }
    }
    // invariants after every step
    if (ring->read_avail() != model.size()) { fail("size", cat("read_avail ", ring->read_avail(), " model ", model.size())); insane = true; }
    if (ring->empty() != model.empty()) fail("empty", "");
    if (ring->write_avail() + model.size() != ring->size()) fail("write-avail", cat(ring->write_avail(), "+", model.size(), "!=", ring->size()));
    if (ring->full() != (model.size() == ring->size())) fail("full", "");
    if (!Dyn && ring->size() != cap) fail("capacity", cat(ring->size()));
    if (total_in > cap) wrapped = true;
    h = hash_mix(h, op * 1000003 + k);
    if (insane) break;
  }
  // final drain: everything accepted comes out, in order
  std::vector<T> out(model.size() + 8);
  size_t r = ring->read(out.data(), out.size());
  if (r != model.size()) fail("drain-count", cat(r, " want ", model.size()));
  else for (size_t j = 0; j < r; ++j) if (out[j] != model[j]) { fail("drain-value", cat("pos ", j)); break; }
  eval();
  if (wrapped) distinct(h);
  if (wrapped) count("ring_histories_wrapped");
  if (grew) count("ring_histories_grown");
  sample(cat(name, ": ", trace.substr(0, 120)));
}

// one producer thread, one consumer thread, fixed capacity
template <size_t N>
void ring_spsc(uint64_t seed, size_t items) {
  using R = plain::FixedRing<uint64_t, N>;
  auto ring = std::make_unique<R>();
  std::atomic<bool> stop{false};
  std::thread prod([&] {
    Rng g{seed * 3 + 1};
    uint64_t n = 0, buf[32];
    while (n < items && !stop.load(std::memory_order_relaxed)) {
      if (g.chance(1, 2)) { if (ring->insert(n + 1)) ++n; else std::this_thread::yield(); }
      else {
        size_t k = 1 + g.below(16);
        if (k > items - n) k = items - n;
        for (size_t i = 0; i < k; ++i) buf[i] = n + 1 + i;
        size_t w = ring->write(buf, k, g.chance(1, 3));
        if (w == 0) std::this_thread::yield();
        n += w;
      }
      if (g.chance(1, 64)) std::this_thread::yield();
    }
  });
  Rng g{seed * 5 + 2};
  uint64_t want = 1, buf[32];
  size_t empties = 0;
  while (want <= items) {
    size_t r = 0;
    switch (g.below(4)) {
      case 0: r = ring->remove(&buf[0]) ? 1 : 0; break;
      case 1: case 2: r = ring->read(buf, 1 + g.below(32)); break;
      default: {
        size_t k = 1 + g.below(8);
        size_t p = ring->read(buf, k, true);
        size_t d = ring->remove(size_t{p});
        if (d != p) { viol("ring:spsc:remove-count", cat("peeked ", p, " removed ", d)); r = 0; want = items + 1; }
        else r = p;
      }
    }
    if (r == 0) { if (++empties > 200000000) stuck("spsc"); if (empties % 64 == 0) std::this_thread::yield(); progress(); continue; }
    empties = 0;
    for (size_t i = 0; i < r; ++i)
      if (buf[i] != want++) { viol("ring:spsc:order", cat("cap ", N, " got ", buf[i], " want ", want - 1)); want = items + 1; break; }
  }
  stop = true;
  prod.join();
  eval();
  count("spsc_items", items);
  distinct(hash_mix(seed, N));
}

using plain::net::stream::Basic;
namespace sock = plain::net::socket;

// Stream typed/raw operations against a byte-queue model, no socket.
void stream_model(uint64_t seed, size_t steps) {
  Rng g{seed};
  Basic s{nullptr};
  std::deque<unsigned char> model;
  uint64_t h = 7;
  std::string trace;
  size_t peak = 0;
  auto fail = [&](const char *op, const std::string &d) {
    viol(cat("stream:", op), cat("after [", trace.size() > 500 ? trace.substr(trace.size() - 500) : trace, "] ", d));
  };
  auto push_be = [&](uint64_t v, size_t n) { for (size_t i = n; i-- > 0;) model.push_back(static_cast<unsigned char>(v >> (8 * i))); };
  auto pop_be = [&](size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) { v = v << 8 | model.front(); model.pop_front(); } return v; };
  for (size_t i = 0; i < steps; ++i) {
    unsigned op = static_cast<unsigned>(g.below(12));
    size_t k = g.chance(1, 3) ? g.below(8) : g.chance(1, 4) ? g.below(3000) : g.below(200);
    h = hash_mix(h, op * 4099 + k);
    std::string data;
    if (op < 4) { for (size_t j = 0; j < k; ++j) data += static_cast<char>(g.next()); }
    switch (op) {
      case 0: case 1: case 2: {
        trace += cat("w", k, " ");
        size_t r;
        if (op == 0) r = s.write(std::string_view{data});
        else if (op == 1) { plain::bytes_t b{reinterpret_cast<const std::byte *>(data.data()), data.size()}; r = s.write(b); }
        else r = s.write(plain::const_byte_span_t{reinterpret_cast<const std::byte *>(data.data()), data.size()});
        if (r != k) { fail("write-count", cat(r, " want ", k)); return; }
        for (auto c : data) model.push_back(static_cast<unsigned char>(c));
        break;
      }
      case 3: {
        uint64_t v = g.next();
        trace += "t ";
        s << static_cast<uint8_t>(v) << static_cast<uint16_t>(v) << static_cast<uint32_t>(v) << v;
        push_be(v & 0xff, 1); push_be(v & 0xffff, 2); push_be(v & 0xffffffff, 4); push_be(v, 8);
        break;
      }
      case 4: {
        if (model.size() < 15) break;
        trace += "T ";
        uint8_t a; uint16_t b; uint32_t c; uint64_t d;
        s >> a >> b >> c >> d;
        if (a != pop_be(1)) fail("typed-u8", ""); if (b != pop_be(2)) fail("typed-u16", "");
        if (c != pop_be(4)) fail("typed-u32", ""); if (d != pop_be(8)) fail("typed-u64", "");
        break;
      }
      case 5: case 6: case 7: {
        std::string out(k, '\x5a');
        size_t want = k < model.size() ? k : model.size(), r;
        bool peek = op == 7;
        trace += cat(peek ? "p" : "R", k, " ");
        if (op == 5) r = s.read(out);
        else if (peek) r = s.peek(reinterpret_cast<std::byte *>(out.data()), k);
        else r = s.read(reinterpret_cast<std::byte *>(out.data()), k);
        if (r != want) { fail(peek ? "peek-count" : "read-count", cat(r, " want ", want)); return; }
        for (size_t j = 0; j < want; ++j)
          if (static_cast<unsigned char>(out[j]) != model[j]) { fail(peek ? "peek-value" : "read-value", cat("pos ", j)); return; }
        for (size_t j = want; j < k; ++j) if (out[j] != '\x5a') { fail("read-overrun", cat("pos ", j)); break; }
        if (!peek) model.erase(model.begin(), model.begin() + static_cast<long>(want));
        break;
      }
      case 8: {
        size_t want = k < model.size() ? k : model.size();
        trace += cat("d", k, " ");
        size_t r = s.remove(k);
        if (r != want) { fail("remove-count", cat(r, " want ", want)); return; }
        model.erase(model.begin(), model.begin() + static_cast<long>(want));
        break;
      }
      case 9: if (g.chance(1, 10)) { trace += "c "; s.clear(); model.clear(); } break;
      default: break;
    }
    if (model.size() > peak) peak = model.size();
    if (s.size() != model.size()) { fail("size", cat(s.size(), " want ", model.size())); return; }
    if (s.empty() != model.empty()) fail("empty", "");
  }
  std::string out(model.size(), 0);
  if (s.read(out) != model.size()) fail("drain-count", "");
  else for (size_t j = 0; j < out.size(); ++j) if (static_cast<unsigned char>(out[j]) != model[j]) { fail("drain-value", cat("pos ", j)); break; }
  eval();
  if (peak > 256) distinct(h);
  count("stream_histories");
}

// stream -> socket -> stream with short transfers and would-block results.
void stream_socket(uint64_t seed, size_t total) {
  Rng g{seed};
  int fd[2];
  if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fd) != 0) harness_error("socketpair");
  auto a = std::make_shared<sock::Basic>(fd[0]);
  auto b = std::make_shared<sock::Basic>(fd[1]);
  a->set_nonblocking(); b->set_nonblocking();
  if (g.chance(1, 2)) a->set_send_size(4096);
  Basic out{a}, in{b};
  g_short_send = g.chance(2, 3) ? 2 : 0; g_short_recv = g.chance(2, 3) ? 2 : 0; g_again = g.chance(2, 3) ? 4 : 0;
  std::string sent, got;
  size_t idle = 0, pushes = 0, pulls = 0;
  while (got.size() < total) {
    if (sent.size() < total && g.chance(1, 2)) {
      size_t k = g.chance(1, 4) ? g.below(30000) : g.below(400);
      if (k > total - sent.size()) k = total - sent.size();
      std::string d;
      for (size_t j = 0; j < k; ++j) d += static_cast<char>(g.next());
      if (out.write(std::string_view{d}) != k) { viol("stream:socket:write-count", ""); break; }
      sent += d;
    }
    if (g.chance(1, 2)) {
      size_t before = out.size();
      int r = out.push(); ++pushes;
      if (r < 0) { viol("stream:socket:push-error", cat(r)); break; }
      if (before - out.size() != static_cast<size_t>(r)) { viol("stream:socket:push-accounting", cat("returned ", r, " buffer shrank by ", before - out.size())); break; }
    }
    if (g.chance(1, 2)) {
      size_t before = in.size();
      int r = in.pull(); ++pulls;
      if (r < 0) { viol("stream:socket:pull-error", cat(r)); break; }
      if (in.size() - before != static_cast<size_t>(r)) { viol("stream:socket:pull-accounting", cat(r)); break; }
    }
    if (g.chance(1, 3)) {
      std::string d(g.below(5000), 0);
      size_t r = in.read(d);
      if (r > d.size()) { viol("stream:socket:read-count", cat(r)); break; }
      if (sent.compare(got.size(), r, d, 0, r) != 0) { viol("stream:socket:bytes", cat("at offset ", got.size(), " of ", sent.size())); break; }
      got.append(d, 0, r);
      if (r == 0) { if (++idle > 1000000) { viol("stream:socket:lost", cat("received ", got.size(), " of ", sent.size(), " in flight out=", out.size(), " in=", in.size())); break; } }
      else idle = 0;
    }
  }
  if (viol_count() == 0) {
    // peer close is reported once everything has been delivered
    g_again = 0;
    a->close();
    int r = in.pull();
    if (r >= 0) viol("stream:socket:eof-not-reported", cat(r));
  }
  g_short_send = g_short_recv = g_again = 0;
  eval();
  count("stream_socket_bytes", got.size()); count("stream_push_calls", pushes); count("stream_pull_calls", pulls);
  distinct(hash_mix(seed, sent.size()));
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t S = opt.seed, n = opt.scale;
  if (selected("ring_model")) {
    scenario("ring_model");
    for (uint64_t i = 0; i < 60 * n; ++i) {
      uint64_t s = S * 1000 + i;
      ring_model<plain::FixedRing<unsigned char, 16>, unsigned char, false>("fixed16b", 16, s, 300);
      ring_model<plain::FixedRing<uint32_t, 1>, uint32_t, false>("fixed1", 1, s, 60);
      ring_model<plain::FixedRing<uint64_t, 128>, uint64_t, false>("fixed128", 128, s, 300);
      ring_model<plain::DynamicRing<unsigned char, 8>, unsigned char, true>("dyn8b", 8, s, 150);
      ring_model<plain::DynamicRing<uint64_t, 64>, uint64_t, true>("dyn64", 64, s, 300);
      ring_model<plain::DynamicRing<uint16_t, 128>, uint16_t, true>("dyn128", 128, s, 300);
    }
  }
  if (selected("stream_model")) {
    scenario("stream_model");
    for (uint64_t i = 0; i < 120 * n; ++i) stream_model(S * 1000 + i, 200);
  }
  if (selected("stream_socket")) {
    scenario("stream_socket");
    for (uint64_t i = 0; i < 12 * n; ++i) stream_socket(S * 1000 + i, i % 6 == 5 ? 3000000 : 150000);
    sock_counters();
  }
  if (selected("ring_spsc")) {
    scenario("ring_spsc");
    for (uint64_t i = 0; i < 3 * n; ++i) {
      ring_spsc<16>(S * 1000 + i, 20000);
      ring_spsc<1>(S * 1000 + i, 2000);
      ring_spsc<256>(S * 1000 + i, 40000);
    }
  }
  return finish();
}
