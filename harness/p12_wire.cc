// P12 codec framing, P13 packet contents, P14 rpc round trip, P15 rpc unpacking of damaged data.
#include "common.h"
#include <array>
#include <bit>
#include <cmath>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unistd.h>
#include "plain/net/packet/basic.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/stream/basic.h"
#include "plain/net/stream/codec.h"
using namespace vf;
using namespace plain;
namespace net = plain::net;
using PacketPtr = std::shared_ptr<net::packet::Basic>;

static const std::byte *B(const std::string &s) { return reinterpret_cast<const std::byte *>(s.data()); }
static std::string S(const_byte_span_t s) { return {reinterpret_cast<const char *>(s.data()), s.size()}; }
static std::string S(const bytes_t &s) { return {reinterpret_cast<const char *>(s.data()), s.size()}; }
static std::string rnd_bytes(Rng &g, size_t n) {
  std::string s(n, 0);
  for (auto &c : s) c = static_cast<char>(g.next());
  return s;
}
static PacketPtr make_packet(const std::string &payload, uint16_t id) {
  auto p = std::make_shared<net::packet::Basic>();
  p->set_id(id);
  p->set_writeable(true);
  if (!payload.empty()) p->write(B(payload), payload.size());
  p->set_writeable(false);
  return p;
}

// ---------------------------------------------------------------- P12 binary
enum Want { kPacket, kMore, kInvalid };
struct RefOut { Want w; uint16_t id{0}; std::string payload; size_t used{0}; };

static RefOut ref_decode(const std::string &b, uint32_t max_id, uint32_t max_len) {
  if (b.size() < 6) return {kMore};
  auto u = [&](size_t i) { return static_cast<uint32_t>(static_cast<unsigned char>(b[i])); };
  uint32_t id = u(0) << 8 | u(1);
  uint32_t len = u(2) << 24 | u(3) << 16 | u(4) << 8 | u(5);
  if (id == 0 || id > max_id || len > max_len) return {kInvalid};
  if (b.size() < size_t{6} + len) return {kMore};
  return {kPacket, static_cast<uint16_t>(id), b.substr(6, len), size_t{6} + len};
}
static RefOut ref_line(const std::string &b, uint32_t max_len) {
  auto view = b.substr(0, max_len);
  auto pos = view.find('\n');
  if (pos == std::string::npos) return {view.size() == max_len ? kInvalid : kMore};
  RefOut r{kPacket};
  r.used = pos + 1;
  if (pos > 0 && view[pos - 1] == '\r') --pos;
  r.payload = view.substr(0, pos);
  return r;
}

// Decodes everything decodable and compares with the reference; false when the stream died.
template <class Ref, class Dec>
static bool drain(const char *name, net::stream::Basic &in, std::string &model, const net::packet::limit_t &lim,
                  Ref ref, Dec dec, const std::function<void(const RefOut &, PacketPtr)> &got) {
  for (int guard = 0; guard < 100000; ++guard) {
    auto want = ref(model);
    size_t before = in.size();
    auto r = dec(&in, lim);
    auto p = std::get_if<PacketPtr>(&r);
    auto e = get_error(r);
    if (want.w == kPacket) {
      if (!p || !*p) { viol(cat(name, ":packet-not-decoded"), cat("complete packet id ", want.id, " len ", want.payload.size(), " gave error ", e ? e->code() : -1)); return false; }
      if (before - in.size() != want.used) { viol(cat(name, ":consumed"), cat("consumed ", before - in.size(), " want ", want.used)); return false; }
      model.erase(0, want.used);
      got(want, *p);
      count(cat(name, "_packets"));
      continue;
    }
    if (p) { viol(cat(name, ":packet-from-nothing"), cat("packet of ", (*p)->data().size(), " bytes from ", hex(model.data(), std::min<size_t>(model.size(), 64)), want.w == kInvalid ? " (must be refused)" : " (incomplete)")); return false; }
    if (in.size() != before) { viol(cat(name, ":consumed-on-error"), cat(before, " -> ", in.size())); return false; }
    bool more = e && (e->is_code(ErrorCode::NetPacketCantFill) || e->is_code(ErrorCode::NetPacketNeedRecv));
    if (want.w == kMore && !more) { viol(cat(name, ":refused-incomplete"), cat("error ", e ? e->code() : -1, " on incomplete data ", model.size(), " bytes: ", hex(model.data(), std::min<size_t>(model.size(), 16)))); return false; }
    if (want.w == kInvalid && more) { viol(cat(name, ":invalid-accepted"), cat("asks for more data after ", hex(model.data(), std::min<size_t>(model.size(), 16)), " max_id ", lim.max_id, " max_length ", lim.max_length)); return false; }
    if (want.w == kInvalid) count(cat(name, "_refused"));
    else count(cat(name, "_incomplete"));
    return want.w == kMore;
  }
  viol(cat(name, ":endless"), "decode does not stop");
  return false;
}

static size_t frag_size(Rng &g, size_t left) {
  size_t k;
  switch (g.below(5)) {
    case 0: k = 1; break;
    case 1: k = 1 + g.below(7); break;
    case 2: k = 1 + g.below(64); break;
    case 3: k = 1 + g.below(4096); break;
    default: k = left; break;
  }
  return k > left ? left : k;
}

static void codec_binary(uint64_t seed) {
  Rng g{seed};
  net::packet::limit_t lim;
  switch (g.below(4)) {
    case 0: break;
    case 1: lim.max_id = static_cast<uint32_t>(1 + g.below(300)); lim.max_length = static_cast<uint32_t>(g.below(300)); break;
    case 2: lim.max_length = static_cast<uint32_t>(g.below(70000)); break;
    default: lim.max_id = 65535; lim.max_length = static_cast<uint32_t>(g.below(5000)); break;
  }
  const uint32_t idcap = std::min<uint32_t>(lim.max_id, 65535);
  std::string wire;
  std::vector<std::pair<uint16_t, std::string>> sent;
  size_t n = 1 + g.below(30), total = 0;
  for (size_t i = 0; i < n; ++i) {
    uint32_t id = static_cast<uint32_t>(1 + g.below(idcap));
    if (g.chance(1, 8)) id = idcap;
    if (g.chance(1, 6) && idcap >= 65534) id = static_cast<uint32_t>(65535 - g.below(5));
    size_t len;
    switch (g.below(6)) {
      case 0: len = 0; break;
      case 1: len = g.below(4); break;
      case 2: len = lim.max_length < 80000 ? lim.max_length : g.below(2000); break;
      case 3: len = g.below(2000); break;
      default: len = g.below(200); break;
    }
    if (len > lim.max_length) len = lim.max_length;
    if (total > 300000) break;
    total += len;
    auto payload = rnd_bytes(g, len);
    auto enc = S(net::stream::encode(make_packet(payload, static_cast<uint16_t>(id))));
    std::string ref;
    ref += static_cast<char>(id >> 8); ref += static_cast<char>(id);
    for (int s = 24; s >= 0; s -= 8) ref += static_cast<char>(len >> s);
    ref += payload;
    if (enc != ref) { viol("codec:encode", cat("id ", id, " len ", len, " encoded as ", hex(enc.data(), std::min<size_t>(enc.size(), 24)))); return; }
    wire += enc;
    sent.emplace_back(static_cast<uint16_t>(id), payload);
  }
  // sometimes a hostile tail: random header or an over-limit one
  unsigned tail = static_cast<unsigned>(g.below(5));
  if (tail == 1) wire += rnd_bytes(g, 1 + g.below(40));
  if (tail == 2) { uint32_t len = lim.max_length + 1; wire += char(0); wire += char(1); for (int s = 24; s >= 0; s -= 8) wire += static_cast<char>(len >> s); }
  if (tail == 3) { wire += std::string("\0\0\0\0\0\1x", 7); }
  if (tail == 4 && idcap < 65535) { uint32_t id = idcap + 1; wire += static_cast<char>(id >> 8); wire += static_cast<char>(id); wire += std::string(4, 0); }
  net::stream::Basic in{nullptr};
  std::string model;
  size_t at = 0, idx = 0;
  uint64_t h = hash_mix(seed, wire.size());
  bool alive = true;
  while (alive && at < wire.size() && viol_count() < 30) {
    size_t k = frag_size(g, wire.size() - at);
    if (in.write(std::string_view{wire}.substr(at, k)) != k) { viol("codec:stream-write", cat(k)); return; }
    model.append(wire, at, k);
    at += k;
    h = hash_mix(h, k);
    if (g.chance(1, 4) && at < wire.size()) continue;
    alive = drain("codec", in, model, lim, [&](const std::string &b) { return ref_decode(b, lim.max_id, lim.max_length); }, net::stream::decode,
      [&](const RefOut &w, PacketPtr p) {
        if (p->id() != w.id) viol("codec:id", cat("got ", p->id(), " want ", w.id));
        if (S(p->data()) != w.payload) viol("codec:payload", cat("id ", w.id, " len ", w.payload.size(), " got len ", p->data().size()));
        if (idx < sent.size() && (p->id() != sent[idx].first || S(p->data()) != sent[idx].second)) viol("codec:order", cat("packet ", idx));
        ++idx;
        bool rq = w.id == net::packet::kRpcRequestId, rs = w.id == net::packet::kRpcResponseId, no = w.id == net::packet::kRpcNotifyId;
        if (p->is_call_request() != rq || p->is_call_response() != rs || p->is_call_notify() != no) viol("codec:call-flags", cat("id ", w.id));
        if (!w.payload.empty()) {
          std::string r(w.payload.size(), 0);
          if (p->read(reinterpret_cast<std::byte *>(r.data()), r.size()) != r.size() || r != w.payload) viol("codec:not-readable", cat("id ", w.id));
        }
        if (p->write(B(model.empty() ? std::string{"x"} : std::string{"y"}), 1) != 0) viol("codec:writeable", cat("decoded packet ", w.id, " can be written"));
      });
    if (!alive && idx < sent.size() && viol_count() == 0) viol("codec:lost", cat("stopped after ", idx, " of ", sent.size(), " packets"));
  }
  if (at == wire.size() && idx < sent.size() && viol_count() == 0) viol("codec:lost", cat("decoded ", idx, " of ", sent.size()));
  eval();
  distinct(h);
}

// ---------------------------------------------------------------- P12 line
static void codec_line(uint64_t seed) {
  Rng g{seed};
  net::packet::limit_t lim;
  if (g.chance(3, 4)) lim.max_length = static_cast<uint32_t>(1 + g.below(g.chance(1, 2) ? 24 : 400));
  struct Sent { std::string payload; int kind; };
  std::vector<Sent> sent;
  std::string wire;
  bool raw = g.chance(1, 3);
  size_t n = 1 + g.below(25);
  size_t cap = std::min<size_t>(lim.max_length, 600);
  for (size_t i = 0; i < n; ++i) {
    int kind = raw ? 0 : static_cast<int>(g.below(5));  // 0,4 plain; 1 request 2 response 3 notify
    if (kind == 4) kind = 0;
    size_t min = kind == 1 ? 5 : kind == 2 ? 9 : kind == 3 ? 1 : 0;
    size_t extra = kind ? 5 : 1;  // marks + newline
    if (min + extra > cap) { kind = 0; min = 0; extra = 1; }
    size_t room = cap - extra;
    size_t len = g.chance(1, 5) ? room : min + g.below(room - min + 1);
    auto s = rnd_bytes(g, len);
    for (auto &c : s) if (c == '\n') c = 'n';
    // Only one \r belongs to the end of a line.
    bool keep_cr = raw && s.size() + 2 <= cap && g.chance(1, 4);
    if (keep_cr) { if (!s.empty()) s.back() = '\r'; if (s.size() > 1 && g.chance(1, 2)) s[s.size() - 2] = '\r'; }
    else if (!s.empty() && s.back() == '\r') s.back() = 'r';
    if (kind == 0 && g.chance(1, 6)) {
      // Looks like a call, but is too short for one or has no end: stays what it is.
      unsigned k = static_cast<unsigned>(g.below(3));
      std::string b = k == 0 ? "cr" : k == 1 ? "co" : "cn", e = k == 0 ? "rc" : k == 1 ? "oc" : "nc", x;
      size_t least = k == 0 ? 9 : k == 1 ? 13 : 5;
      if (g.chance(1, 2)) {
        x = b + e;
        if (auto total = 2 + g.below(least - 2); total < 4) x = x.substr(0, total);
        else x = b + std::string(total - 4, 'm') + e;
      } else x = b + std::string(g.below(20), 'm') + (g.chance(1, 2) ? std::string(1, e[0]) : "x");
      if (x.size() + 2 <= cap) { s = x; keep_cr = false; count("line_like_calls"); }
    } else if (kind == 0 && s.size() > 1 && s[0] == 'c' && (s[1] == 'r' || s[1] == 'o' || s[1] == 'n')) s[0] = 'C';
    if (raw) {
      if ((keep_cr || g.chance(1, 2)) && s.size() + 2 <= cap) wire += s + "\r\n"; else wire += s + "\n";
      sent.push_back({s, 0});
    } else {
      auto p = make_packet(s, static_cast<uint16_t>(1 + g.below(60000)));
      if (kind == 1) p->set_call_request(true);
      if (kind == 2) p->set_call_response(true);
      if (kind == 3) p->set_call_notify(true);
      auto e = S(net::stream::line_encode(p));
      if (e.empty() || e.back() != '\n' || std::count(e.begin(), e.end(), '\n') != 1) { viol("line:encode", cat("kind ", kind, " ", hex(e.data(), std::min<size_t>(e.size(), 40)))); return; }
      wire += e;
      sent.push_back({s, kind});
    }
  }
  bool overlong = g.chance(1, 4);
  if (overlong) wire += std::string(lim.max_length < 5000 ? lim.max_length + g.below(20) : 300000, 'x');
  net::stream::Basic in{nullptr};
  std::string model;
  size_t at = 0, idx = 0;
  uint64_t h = hash_mix(seed, wire.size());
  bool alive = true;
  while (alive && at < wire.size() && viol_count() < 30) {
    size_t k = frag_size(g, wire.size() - at);
    in.write(std::string_view{wire}.substr(at, k));
    model.append(wire, at, k);
    at += k;
    h = hash_mix(h, k);
    alive = drain("line", in, model, lim, [&](const std::string &b) { return ref_line(b, lim.max_length); }, net::stream::line_decode,
      [&](const RefOut &, PacketPtr p) {
        if (idx >= sent.size()) { viol("line:extra", ""); return; }
        auto &s = sent[idx];
        if (S(p->data()) != s.payload) viol(s.kind ? "line:rpc-payload" : "line:payload", cat("kind ", s.kind, " sent ", hex(s.payload.data(), std::min<size_t>(s.payload.size(), 24)), " got ", hex(p->data().data(), std::min<size_t>(p->data().size(), 24)), " len ", s.payload.size(), " vs ", p->data().size()));
        if (p->is_call_request() != (s.kind == 1) || p->is_call_response() != (s.kind == 2) || p->is_call_notify() != (s.kind == 3)) viol("line:call-flags", cat("kind ", s.kind));
        ++idx;
      });
  }
  if (viol_count() == 0 && idx != sent.size()) viol("line:lost", cat("decoded ", idx, " of ", sent.size()));
  eval();
  distinct(h);
}

// ---------------------------------------------------------------- P13
template <class T> static T edge(Rng &g) {
  if constexpr (std::is_same_v<T, bool>) return g.chance(1, 2);
  else if constexpr (std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    switch (g.below(12)) {
      case 0: return static_cast<T>(g.range(-40, 40));
      case 1: return static_cast<T>(g.range(-400000, 400000)) / 64;
      case 2: { auto b = g.next(); if constexpr (sizeof(T) == 4) { auto f = std::bit_cast<float>(static_cast<uint32_t>(b)); return f == f ? f : 0.5f; } else { auto f = std::bit_cast<double>(b); return f == f ? f : 0.5; } }
      case 3: return L::max();
      case 4: return L::lowest();
      case 5: return L::denorm_min();
      case 6: return L::min();
      case 7: return g.chance(1, 2) ? L::infinity() : -L::infinity();
      case 8: return g.chance(1, 2) ? T(0) : -T(0);
      case 9: return std::ldexp(T(1), static_cast<int>(g.range(-70, 70))) * (g.chance(1, 2) ? 1 : -1);
      case 10: return static_cast<T>(static_cast<int64_t>(g.next()));
      default: return static_cast<T>(1) / static_cast<T>(1 + g.below(100000));
    }
  } else {
    using U = std::make_unsigned_t<T>;
    constexpr int bits = sizeof(T) * 8;
    switch (g.below(6)) {
      case 0: return static_cast<T>(g.below(32));
      case 1: return static_cast<T>(-static_cast<int64_t>(g.below(200)));
      case 2: return static_cast<T>((U(1) << g.below(bits)) + U(g.range(-1, 1)));
      case 3: return static_cast<T>(U(0) - (U(1) << g.below(bits)) + U(g.range(-1, 1)));
      case 4: return g.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
      default: return static_cast<T>(g.next() >> g.below(64));
    }
  }
}
template <class T> static bool same(const T &a, const T &b) {
  if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, sizeof(T)) == 0;
  else return a == b;
}
static std::string edge_string(Rng &g, bool big) {
  size_t n;
  switch (g.below(big ? 6 : 4)) {
    case 0: n = 0; break;
    case 1: n = g.below(4); break;
    case 2: n = 29 + g.below(6); break;
    case 3: n = g.below(100); break;
    case 4: n = 252 + g.below(8); break;
    default: n = g.chance(1, 6) ? 65532 + g.below(8) : g.below(3000); break;
  }
  return rnd_bytes(g, n);
}

static void packet_typed(uint64_t seed) {
  Rng g{seed};
  net::packet::Basic p;
  p.set_writeable(true);
  std::vector<std::function<std::string()>> checks;
  std::string raw, trace;
  uint64_t h = seed;
  auto be = [&](uint64_t v, size_t n) { for (size_t i = n; i > 0; --i) raw += static_cast<char>(v >> (8 * (i - 1))); };
  auto scalar = [&]<class T>(T v, const char *name) {
    p << v;
    if constexpr (std::is_same_v<T, float>) be(std::bit_cast<uint32_t>(v), 4);
    else if constexpr (std::is_same_v<T, double>) be(std::bit_cast<uint64_t>(v), 8);
    else be(static_cast<uint64_t>(v), sizeof(T));
    checks.push_back([&p, v, name]() -> std::string {
      T r = static_cast<T>(1); p >> r;
      return same(r, v) ? "" : name;
    });
  };
  size_t n = 1 + g.below(40);
  for (size_t i = 0; i < n; ++i) {
    unsigned k = static_cast<unsigned>(g.below(18));
    h = hash_mix(h, k);
    trace += cat(k, " ");
    switch (k) {
      case 0: scalar(edge<int8_t>(g), "int8"); break;
      case 1: scalar(edge<uint8_t>(g), "uint8"); break;
      case 2: scalar(edge<int16_t>(g), "int16"); break;
      case 3: scalar(edge<uint16_t>(g), "uint16"); break;
      case 4: scalar(edge<int32_t>(g), "int32"); break;
      case 5: scalar(edge<uint32_t>(g), "uint32"); break;
      case 6: scalar(edge<int64_t>(g), "int64"); break;
      case 7: scalar(edge<uint64_t>(g), "uint64"); break;
      case 8: scalar(edge<float>(g), "float"); break;
      case 9: scalar(edge<double>(g), "double"); break;
      case 10: scalar(g.chance(1, 2), "bool"); break;
      case 11: case 12: case 13: {
        auto s = edge_string(g, true);
        unsigned how = static_cast<unsigned>(g.below(4));
        if (how == 0 && s.find('\0') == std::string::npos) p << s.c_str();
        else if (how == 1) p << std::string_view{s};
        else if (how == 2) p.write(std::string_view{s});
        else p << s;
        be(s.size(), 4); raw += s;
        bool op = g.chance(1, 2);
        checks.push_back([&p, s, op]() -> std::string {
          std::string r; size_t c = s.size();
          if (op) p >> r; else c = p.read(r);
          if (c != s.size()) return "string-count";
          return r == s ? "" : cat("string of ", s.size(), " got ", r.size());
        });
        count(s.empty() ? "packet_empty_strings" : "packet_strings");
        break;
      }
      case 14: case 15: {
        auto s = edge_string(g, true);
        bytes_t b{B(s), s.size()};
        if (g.chance(1, 2)) p << b; else p.write(b);
        be(s.size(), 4); raw += s;
        checks.push_back([&p, s]() -> std::string { bytes_t r; p >> r; return S(r) == s ? "" : cat("bytes of ", s.size(), " got ", r.size()); });
        break;
      }
      case 16: {
        auto s = edge_string(g, false);
        std::vector<uint8_t> v(s.begin(), s.end());
        p << v;
        raw += s;
        if (!s.empty()) checks.push_back([&p, s]() -> std::string { std::string r(s.size(), 0); auto c = p.read(reinterpret_cast<std::byte *>(r.data()), r.size()); return c == s.size() && r == s ? "" : "raw vector"; });
        break;
      }
      default: {
        auto s = edge_string(g, false);
        size_t c = p.write(const_byte_span_t{B(s), s.size()});
        if (c != s.size()) viol("packet:write-count", cat(c, " want ", s.size()));
        raw += s;
        bool skip = g.chance(1, 2);
        if (!s.empty()) checks.push_back([&p, s, skip]() -> std::string {
          if (skip) return p.remove(s.size()) == s.size() ? "" : "remove-count";
          std::string r(s.size(), 0); auto c = p.read(reinterpret_cast<std::byte *>(r.data()), r.size()); return c == s.size() && r == s ? "" : "raw span"; });
        break;
      }
    }
  }
  if (S(p.data()) != raw) { viol("packet:wire-format", cat("ops ", trace, "packet has ", p.data().size(), " bytes, want ", raw.size())); return; }
  p.set_writeable(false);
  p.set_readable(true);
  for (size_t i = 0; i < checks.size(); ++i) {
    auto e = checks[i]();
    if (!e.empty()) { viol(cat("packet:roundtrip:", e.substr(0, e.find(' '))), cat("value ", i, " of ", checks.size(), " ops ", trace, e)); break; }
  }
  if (viol_count() == 0) {
    if (p.offset() != raw.size()) viol("packet:offset", cat(p.offset(), " of ", raw.size()));
    // nothing left: every further read yields nothing
    uint32_t v = 77; p >> v;
    if (v != 0) viol("packet:read-past-end", "scalar");
    std::string s; if (p.read(s) != 0 || !s.empty()) viol("packet:read-past-end", "string");
    bytes_t b; if (p.read(b) != 0 || !b.empty()) viol("packet:read-past-end", "bytes");
    std::byte x{0x5a}; if (p.read(&x, 1) != 0 || x != std::byte{0x5a}) viol("packet:read-past-end", "raw");
    if (p.remove(5) != 0) viol("packet:read-past-end", "remove");
    if (p.offset() != raw.size()) viol("packet:offset-past-end", cat(p.offset(), " of ", raw.size()));
  }
  eval(); count("packet_values", checks.size());
  distinct(h);
}

static void packet_flags(uint64_t seed) {
  Rng g{seed};
  net::packet::Basic p;
  bool f[5]{};
  std::string model, trace;
  size_t off = 0;
  uint64_t h = seed;
  if (p.id() != 0) viol("packet:fresh-id", cat(p.id()));
  for (int i = 0; i < 60; ++i) {
    unsigned k = static_cast<unsigned>(g.below(9));
    bool on = g.chance(1, 2);
    if (k < 5) {
      trace += cat(on ? "+" : "-", k, " ");
      f[k] = on;
      if (k == 0) p.set_readable(on);
      if (k == 1) p.set_writeable(on);
      if (k == 2) p.set_call_request(on);
      if (k == 3) p.set_call_response(on);
      if (k == 4) p.set_call_notify(on);
    } else if (k < 7) {
      auto s = rnd_bytes(g, 1 + g.below(5));
      trace += "w ";
      size_t r = p.write(B(s), s.size());
      if (r != (f[1] ? s.size() : 0)) { viol("packet:flags:write", cat(trace, "wrote ", r)); return; }
      if (f[1]) model += s;
    } else {
      size_t n = 1 + g.below(6);
      std::string s(n, 0);
      trace += "r ";
      size_t want = f[0] && model.size() - off >= n ? n : 0;
      size_t r = p.read(reinterpret_cast<std::byte *>(s.data()), n);
      if (r != want || (r && model.compare(off, n, s) != 0)) { viol("packet:flags:read", cat(trace, "read ", r, " want ", want)); return; }
      off += r;
    }
    if (p.is_call_request() != f[2] || p.is_call_response() != f[3] || p.is_call_notify() != f[4]) { viol("packet:flags:call", trace); return; }
    if (S(p.data()) != model || p.offset() != off) { viol("packet:flags:content", trace); return; }
    h = hash_mix(h, k * 2 + on);
  }
  eval(); count("packet_flag_steps", 60); distinct(h);
}

// reads of untrusted packet contents with every reader
static void packet_hostile(uint64_t seed) {
  Rng g{seed};
  auto raw = rnd_bytes(g, g.below(64));
  for (size_t i = 0; i + 4 <= raw.size(); i += 4) if (g.chance(1, 2)) { raw[i] = raw[i + 1] = raw[i + 2] = 0; raw[i + 3] = static_cast<char>(g.below(40)); }
  auto pp = make_packet(raw, 1);
  auto &p = *pp;
  p.set_readable(true);
  size_t off = 0;
  auto u32 = [&](size_t at) { uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | static_cast<unsigned char>(raw[at + static_cast<size_t>(i)]); return v; };
  std::string trace = hex(raw.data(), raw.size(), 64) + ": ";
  for (int i = 0; i < 20; ++i) {
    unsigned k = static_cast<unsigned>(g.below(5));
    size_t left = raw.size() - off;
    trace += cat(k, " ");
    std::string got, want; size_t woff = off;
    if (k == 0) { uint32_t v = 9; p >> v; uint32_t w = left >= 4 ? u32(off) : 0; got = cat(v); want = cat(w); if (left >= 4) woff += 4; }
    else if (k == 1) { uint64_t v = 9; p >> v; if (left >= 8) { want = cat(uint64_t{u32(off)} << 32 | u32(off + 4)); woff += 8; } else want = "0"; got = cat(v); }
    else if (k == 2 || k == 3) {
      if (k == 2) { std::string s; p >> s; got = s; } else { bytes_t b; p >> b; got = S(b); }
      if (left >= 4) { uint32_t n = u32(off); woff += 4; if (n <= left - 4) { want = raw.substr(woff, n); woff += n; } }
    } else { size_t n = g.below(10); size_t r = p.remove(n); size_t w = std::min(n, left); got = cat(r); want = cat(w); woff += w; }
    if (got != want || p.offset() != woff) { viol(cat("packet:hostile:", k == 0 ? "u32" : k == 1 ? "u64" : k == 2 ? "string" : k == 3 ? "bytes" : "remove"), cat(trace, " offset ", p.offset(), " want ", woff)); return; }
    off = woff;
  }
  eval(); count("packet_hostile_reads", 20); distinct(hash_str(trace));
}

// ---------------------------------------------------------------- P14
struct Point {
  int32_t x{0}; std::string name; double w{0};
  bool operator==(const Point &) const = default;
  template <class T> void pack(T &t) { t(x, name, w); }
};
struct Nest {
  Point p; std::vector<Point> ps; uint16_t tail{0}; std::map<std::string, int64_t> m;
  bool operator==(const Nest &) const = default;
  template <class T> void pack(T &t) { t(p, ps, tail, m); }
};

static uint64_t g_made, g_made_max;
static void made(const char *what) {
  if (++g_made > g_made_max) {
    viol("rpc-hostile:unbounded", cat(what, ": more than ", g_made_max, " elements made from damaged data"));
    _exit(finish());
  }
}
// element type that counts its constructions
struct Probe {
  uint8_t v{0};
  Probe() { made("object elements"); }
  Probe(const Probe &) = default;
  Probe &operator=(const Probe &) = default;
  bool operator<(const Probe &o) const { return v < o.v; }
  bool operator==(const Probe &) const = default;
  template <class T> void pack(T &t) { t(v); }
};
// allocator that refuses runaway growth
template <class T> struct Cap {
  using value_type = T;
  Cap() = default;
  template <class U> Cap(const Cap<U> &) {}
  T *allocate(size_t n) {
    if (n > 2 * g_made_max + 16) { viol("rpc-hostile:unbounded", cat("container grew to ", n, " elements")); _exit(finish()); }
    return static_cast<T *>(::operator new(n * sizeof(T)));
  }
  void deallocate(T *p, size_t) { ::operator delete(p); }
  bool operator==(const Cap &) const { return true; }
};
template <class T> using CVec = std::vector<T, Cap<T>>;

static Point rnd_point(Rng &g) { return {edge<int32_t>(g), edge_string(g, false), edge<double>(g) + 0.0}; }
static Nest rnd_nest(Rng &g) {
  Nest n{rnd_point(g), {}, edge<uint16_t>(g), {}};
  for (size_t k = g.below(4); k > 0; --k) n.ps.push_back(rnd_point(g));
  for (size_t k = g.below(4); k > 0; --k) n.m[edge_string(g, false)] = edge<int64_t>(g);
  return n;
}
static size_t edge_count(Rng &g) {
  switch (g.below(6)) {
    case 0: return 0;
    case 1: return 14 + g.below(4);
    case 2: return g.below(300);
    default: return g.below(8);
  }
}

struct Item {
  const char *name;
  std::function<void(net::rpc::Packer &)> pack;
  std::function<bool(net::rpc::Unpacker &)> check;   // unpack into used/fresh target, compare
};
template <class T> static Item scalar_item(Rng &g, const char *name) {
  T v = edge<T>(g), junk = edge<T>(g);
  return {name, [v](auto &p) { p(v); }, [v, junk](auto &u) { T r = junk; u(r); return same(r, v); }};
}
template <class T> static Item value_item(const char *name, T v) {
  return {name, [v](auto &p) { p(v); }, [v](auto &u) { T r{}; u(r); return r == v; }};
}
template <class T> static bool eqv(const std::vector<T> &a, const std::vector<T> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(static_cast<T>(a[i]), static_cast<T>(b[i]))) return false;
  return true;
}

static Item rnd_item(Rng &g, bool huge) {
  switch (g.below(26)) {
    case 0: return scalar_item<int8_t>(g, "int8");
    case 1: return scalar_item<int16_t>(g, "int16");
    case 2: return scalar_item<int32_t>(g, "int32");
    case 3: return scalar_item<int64_t>(g, "int64");
    case 4: return scalar_item<uint8_t>(g, "uint8");
    case 5: return scalar_item<uint16_t>(g, "uint16");
    case 6: return scalar_item<uint32_t>(g, "uint32");
    case 7: return scalar_item<uint64_t>(g, "uint64");
    case 8: return scalar_item<bool>(g, "bool");
    case 9: return scalar_item<float>(g, "float");
    case 10: return scalar_item<double>(g, "double");
    case 11: case 12: {
      auto s = edge_string(g, true);
      bool sv = g.chance(1, 3);
      return {"string", [s, sv](auto &p) { if (sv) p(std::string_view{s}); else p(s); }, [s](auto &u) { std::string r{"used"}; u(r); return r == s; }};
    }
    case 13: {
      auto s = edge_string(g, true);
      return {"bin", [s](auto &p) { p(std::vector<uint8_t>(s.begin(), s.end())); }, [s](auto &u) { std::vector<uint8_t> r{1, 2}; u(r); return std::string(r.begin(), r.end()) == s; }};
    }
    case 14: {
      std::vector<int32_t> v(huge && g.chance(1, 10) ? 65533 + g.below(5) : edge_count(g));
      for (auto &x : v) x = edge<int32_t>(g);
      return value_item("vector<int32>", v);
    }
    case 15: {
      std::vector<double> v(edge_count(g));
      for (auto &x : v) x = edge<double>(g);
      return {"vector<double>", [v](auto &p) { p(v); }, [v](auto &u) { std::vector<double> r; u(r); return eqv(r, v); }};
    }
    case 16: {
      std::list<std::string> v;
      for (size_t k = edge_count(g); k > 0; --k) v.push_back(edge_string(g, false));
      return value_item("list<string>", v);
    }
    case 17: {
      std::array<int16_t, 5> v;
      for (auto &x : v) x = edge<int16_t>(g);
      return value_item("array<int16,5>", v);
    }
    case 18: {
      std::map<std::string, int32_t> v;
      for (size_t k = edge_count(g); k > 0; --k) v[edge_string(g, false)] = edge<int32_t>(g);
      return value_item("map<string,int32>", v);
    }
    case 19: {
      std::unordered_map<uint32_t, std::vector<std::string>> v;
      for (size_t k = huge && g.chance(1, 40) ? 65530 + g.below(10) : edge_count(g); k > 0; --k) { auto &e = v[edge<uint32_t>(g)]; if (g.chance(1, 3)) e.push_back(edge_string(g, false)); }
      return value_item("unordered_map<uint32,vector<string>>", v);
    }
    case 20: return value_item("tuple", std::tuple<int64_t, std::string, uint8_t>{edge<int64_t>(g), edge_string(g, true), edge<uint8_t>(g)});
    case 21: return value_item("object", rnd_point(g));
    case 22: return value_item("nested object", rnd_nest(g));
    case 23: {
      auto tp = std::chrono::system_clock::time_point{std::chrono::system_clock::duration{edge<int64_t>(g)}};
      return value_item("time_point", tp);
    }
    case 24: {
      std::vector<std::vector<uint16_t>> v(g.below(20));
      for (auto &x : v) { x.resize(g.below(18)); for (auto &y : x) y = edge<uint16_t>(g); }
      return value_item("vector<vector<uint16>>", v);
    }
    default: return {"nullptr", [](auto &p) { p(nullptr); }, [](auto &u) { std::nullptr_t r = nullptr; u(r); return true; }};
  }
}

// exact-size heap copy, so that one byte too far is a sanitizer report
struct Exact {
  std::unique_ptr<uint8_t[]> p; size_t n;
  explicit Exact(const std::vector<uint8_t> &v) : p{new uint8_t[v.size()]}, n{v.size()} { std::copy(v.begin(), v.end(), p.get()); }
  Exact(const uint8_t *d, size_t k) : p{new uint8_t[k]}, n{k} { std::copy(d, d + k, p.get()); }
};

static void rpc_roundtrip(uint64_t seed) {
  Rng g{seed};
  std::vector<Item> items;
  size_t n = 1 + g.below(12);
  bool huge = g.chance(1, 20);
  for (size_t i = 0; i < n; ++i) items.push_back(rnd_item(g, huge));
  net::rpc::Packer p;
  if (g.chance(1, 4)) { p(std::string("to be cleared")); p.clear(); }
  std::vector<size_t> ends;
  for (auto &i : items) { i.pack(p); ends.push_back(p.vector().size()); }
  std::string names;
  for (auto &i : items) names += std::string(i.name) + " ";
  const bool more = g.chance(1, 2);  // Else the last value ends where the data does.
  if (more) p(uint64_t{0x1122334455667788ull});
  Exact x{p.vector()};
  net::rpc::Unpacker u{x.p.get(), x.n};
  for (size_t i = 0; i < items.size(); ++i) {
    bool ok = items[i].check(u);
    size_t b = i ? ends[i - 1] : 0;
    if (!ok || u.error_) { viol(cat("rpc:roundtrip:", items[i].name), cat("value ", i, " of [", names, "] packed as ", hex(x.p.get() + b, std::min<size_t>(ends[i] - b, 32)), ok ? " error reported" : " came back different")); return; }
    count("rpc_values");
  }
  uint64_t s = more ? 0 : 0x1122334455667788ull;
  if (more) u(s);
  if (s != 0x1122334455667788ull || u.error_) viol("rpc:consumed", cat("value after [", names, "] not found where it was packed"));
  eval(); distinct(hash_bytes(x.p.get(), std::min<size_t>(x.n, 4096)));
  if (x.n > 65536) count("rpc_large_messages");
}

// ---------------------------------------------------------------- P15
static void rpc_hostile(uint64_t seed) {
  Rng g{seed};
  std::vector<uint8_t> d;
  unsigned mode = static_cast<unsigned>(g.below(4));
  if (mode == 0) {  // cut a valid message short: an error must be reported, intact values before it survive
    std::vector<Item> items;
    net::rpc::Packer p;
    std::vector<size_t> ends;
    for (size_t n = 1 + g.below(6); n > 0; --n) { items.push_back(rnd_item(g, false)); items.back().pack(p); ends.push_back(p.vector().size()); }
    if (p.vector().empty()) return;
    size_t cut = g.below(p.vector().size());
    if (g.chance(1, 3)) cut = p.vector().size() - 1;
    Exact x{p.vector().data(), cut};
    net::rpc::Unpacker u{x.p.get(), x.n};
    std::string names;
    for (size_t i = 0; i < items.size(); ++i) {
      names += std::string(items[i].name) + " ";
      bool ok = items[i].check(u);
      if (ends[i] <= cut && (!ok || u.error_)) { viol("rpc-hostile:intact-value-lost", cat("value ", i, " of [", names, "] cut at ", cut)); return; }
      if (ends[i] > cut && !u.error_) { viol("rpc-hostile:truncation-unreported", cat("[", names, "] cut at ", cut, " of ", p.vector().size(), ": no error after value ", i)); return; }
    }
    if (!(u.error_ == ErrorCode::OutOfRange)) viol("rpc-hostile:error-code", cat("cut message reports ", u.error_.code()));
    count("rpc_truncated");
    eval(); distinct(hash_mix(hash_bytes(x.p.get(), cut), p.vector().size()));
    return;
  }
  if (mode == 1) {  // damaged valid message
    net::rpc::Packer p;
    for (size_t n = 1 + g.below(5); n > 0; --n) rnd_item(g, false).pack(p);
    d = p.vector();
    for (size_t k = 1 + g.below(4); k > 0 && !d.empty(); --k) d[g.below(d.size())] = static_cast<uint8_t>(g.next());
  } else {
    auto s = rnd_bytes(g, g.below(80));
    d.assign(s.begin(), s.end());
    // plant a size field for the reader chosen below
    if (!d.empty() && mode == 3) {
      static const uint8_t tags[] = {14, 15, 20, 21, 22, 23, 24, 25, 13, 19, 0x8f, 0x9f, 0xbf};
      std::vector<uint8_t> h{tags[g.below(sizeof tags)]};
      for (size_t k = 4; k > 0; --k) h.push_back(g.chance(1, 2) ? 0xff : static_cast<uint8_t>(g.next()));
      d.insert(d.begin() + static_cast<long>(g.below(g.chance(1, 2) ? 1 : d.size())), h.begin(), h.end());
    }
  }
  Exact x{d};
  net::rpc::Unpacker u{x.p.get(), x.n};
  g_made = 0;
  g_made_max = x.n + 4096;  // each element needs at least a byte of the data; slack for the temporaries
  std::string trace;
  for (int i = 0; i < 6; ++i) {
    unsigned k = static_cast<unsigned>(g.below(18));
    trace += cat(k, " ");
    g_made = 0;
    switch (k) {
      case 0: { int64_t v{}; u(v); break; }
      case 1: { uint32_t v{}; u(v); break; }
      case 2: { double v{}; u(v); break; }
      case 3: { float v{}; u(v); break; }
      case 4: { bool v{}; u(v); break; }
      case 5: { std::string v; u(v); if (v.size() > x.n) viol("rpc-hostile:string-larger-than-data", trace); break; }
      case 6: { std::vector<uint8_t> v; u(v); if (v.size() > x.n) viol("rpc-hostile:bin-larger-than-data", trace); break; }
      case 7: { CVec<int32_t> v; u(v); if (v.size() > x.n + 1) viol("rpc-hostile:unbounded", cat("vector of ", v.size(), " from ", x.n, " bytes")); break; }
      case 8: { CVec<std::string> v; u(v); if (v.size() > x.n + 1) viol("rpc-hostile:unbounded", cat("vector of ", v.size(), " from ", x.n, " bytes")); break; }
      case 9: { std::vector<Probe> v; u(v); break; }
      case 10: { std::map<Probe, Probe> v; u(v); break; }
      case 11: { std::list<Probe> v; u(v); break; }
      case 12: { auto a = std::make_unique<std::array<Probe, 4>>(); u(*a); break; }
      case 13: { auto a = std::make_unique<std::array<uint32_t, 3>>(); if (!d.empty() && (d[0] == 23)) break; u(*a); break; }
      case 14: { std::tuple<std::string, int16_t, CVec<uint64_t>> v; u(v); break; }
      case 15: { Point v; u(v); break; }
      case 16: { std::map<std::string, Probe> v; u(v); break; }
      default: { CVec<CVec<int8_t>> v; u(v); break; }
    }
    count("rpc_hostile_reads");
  }
  if (u.error_) count("rpc_hostile_errors");
  eval(); distinct(hash_str(trace, hash_bytes(d.data(), d.size())));
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t s = opt.seed * 10000019, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, void (*f)(uint64_t)) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  run("codec_binary", 60, codec_binary);
  run("codec_line", 200, codec_line);
  run("packet_typed", 200, packet_typed);
  run("packet_flags", 200, packet_flags);
  run("packet_hostile", 300, packet_hostile);
  run("rpc_roundtrip", 300, rpc_roundtrip);
  run("rpc_hostile", 1000, rpc_hostile);
  return finish();
}
