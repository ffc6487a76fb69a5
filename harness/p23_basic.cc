// P23 addresses, P24 text helpers, P25 byte encodings, P26 variables.
#include "common.h"
#include <arpa/inet.h>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/un.h>
#include "plain/basic/base64.h"
#include "plain/basic/endian.h"
#include "plain/basic/logger.h"
#include "plain/basic/md5.h"
#include "plain/basic/stringstream.h"
#include "plain/basic/type/variable.h"
#include "plain/basic/utility.h"
#include "plain/net/address.h"
#include "plain/net/detail/socket.h"
using namespace vf;
namespace fs = std::filesystem;
using plain::net::Address;

// A copy of exactly these bytes: what is read past them is seen.
struct Exact {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(std::string_view s) : p{new char[s.size() ? s.size() : 1]}, n{s.size()} { memcpy(p.get(), s.data(), n); }
  std::string_view view() const { return {p.get(), n}; }
};
static std::string bytes(Rng &g, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i) s += static_cast<char>(g.next());
  return s;
}
static std::string over(Rng &g, size_t lo, size_t hi, std::string_view set) {
  std::string s;
  auto n = g.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi));
  for (int64_t i = 0; i < n; ++i) s += set[g.below(set.size())];
  return s;
}

// ---------------------------------------------------------------- addresses
static std::string raw(const Address &a) {
  auto d = a.data();
  return {reinterpret_cast<const char *>(d.data()), d.size()};
}
static void check_v4(const Address &a, uint32_t host, uint16_t port, const std::string &ctx) {
  sockaddr_in s{};
  s.sin_family = AF_INET;
  s.sin_addr.s_addr = htonl(host);
  s.sin_port = htons(port);
  char h[64];
  snprintf(h, sizeof h, "%u.%u.%u.%u", host >> 24, (host >> 16) & 255, (host >> 8) & 255, host & 255);
  if (a.family() != AF_INET || a.port() != port || a.host() != h || a.text() != cat(h, ":", port) || a.size() != sizeof s)
    return viol("address:v4", cat(ctx, " gives ", a.text(), " for ", h, ":", port));
  if (raw(a) != std::string(reinterpret_cast<char *>(&s), sizeof s)) viol("address:v4-bytes", ctx);
  count("address_v4");
}
static void check_v6(const Address &a, const in6_addr &host, uint16_t port, const std::string &ctx) {
  sockaddr_in6 s{};
  s.sin6_family = AF_INET6;
  s.sin6_addr = host;
  s.sin6_port = htons(port);
  char h[64];
  inet_ntop(AF_INET6, &host, h, sizeof h);
  if (a.family() != AF_INET6 || a.port() != port || a.host() != h || a.size() != sizeof s)
    return viol("address:v6", cat(ctx, " gives ", a.text(), " for ", h, " port ", port));
  if (raw(a) != std::string(reinterpret_cast<char *>(&s), sizeof s)) viol("address:v6-bytes", ctx);
  count("address_v6");
}
static void again(const Address &a, const std::string &ctx) {  // the text is an address again
  try {
    auto t = a.text();
    Exact e{t};
    Address b{e.view(), false}, c{t, false};
    if (raw(b) != raw(a) || raw(c) != raw(a)) viol("address:text", ctx + " gives " + t + " which is " + b.text());
    count("address_text_again");
  } catch (const std::exception &e) { viol("address:text", ctx + " gives " + a.text() + ": " + e.what()); }
}
static void address_case(uint64_t seed) {
  Rng g{seed};
  for (int i = 0; i < 20; ++i) {
    bool listen = g.chance(1, 2);
    auto port = static_cast<uint16_t>(g.chance(1, 4) ? g.pick(std::vector<uint16_t>{0, 1, 80, 65535, 32768, 256}) : g.next());
    std::string text;
    try {
      if (g.chance(1, 2)) {
        auto h = static_cast<uint32_t>(g.next());
        if (g.chance(1, 8)) h = g.pick(std::vector<uint32_t>{0x7f000001, 0, 0x7f000002, 0xfffffffe, 0xc0a80001, 0xe0000001, 1, 0xffffffff, 0xffffff00});
        char b[64];
        snprintf(b, sizeof b, "%u.%u.%u.%u", h >> 24, (h >> 16) & 255, (h >> 8) & 255, h & 255);
        auto want = h == 0 || h == 0x7f000001 ? (listen ? 0 : 0x7f000001) : h;
        switch (g.below(4)) {
          case 0: {
            text = cat(b, ":", port);
            Exact e{text};
            Address a{e.view(), listen};
            check_v4(a, want, port, text);
            if (want) again(a, text);
            break;
          }
          case 1: { text = b; Exact e{text}; check_v4(Address{e.view(), listen}, want, 0, text); break; }
          case 2: { text = b; Exact e{text}; check_v4(Address{e.view(), port, listen}, want, port, text); break; }
          default: { text = cat(":", port); Exact e{text}; check_v4(Address{e.view(), listen}, listen ? 0 : 0x7f000001, port, text); }
        }
      } else {
        in6_addr h;
        for (auto &x : h.s6_addr) x = g.chance(1, 3) ? 0 : static_cast<uint8_t>(g.next());
        if (g.chance(1, 6)) { memset(h.s6_addr, 0, 16); if (g.chance(1, 2)) h.s6_addr[15] = 1; }
        if (g.chance(1, 6)) { memset(h.s6_addr, 0, 10); h.s6_addr[10] = h.s6_addr[11] = 255; count("address_v4_in_v6"); }
        char b[64];
        inet_ntop(AF_INET6, &h, b, sizeof b);
        std::string name = b;
        if (g.chance(1, 4)) {
          name.clear();
          for (int k = 0; k < 8; ++k) { char p[8]; snprintf(p, sizeof p, "%s%x", k ? ":" : "", (h.s6_addr[2 * k] << 8) | h.s6_addr[2 * k + 1]); name += p; }
        }
        auto want = h;
        bool local = true;
        for (int k = 0; k < 15; ++k) local = local && !h.s6_addr[k];
        local = local && h.s6_addr[15] < 2;
        if (local && name.size() > 3) { if (name == "0:0:0:0:0:0:0:1") continue; }
        if (local) { want.s6_addr[15] = listen ? 0 : 1; }
        switch (g.below(4)) {
          case 3: {
            text = cat("[", name, g.chance(1, 2) ? "]" : "]:");
            Exact e{text};
            check_v6(Address{e.view(), listen}, want, 0, text);
            count("address_v6_no_port");
            break;
          }
          case 0: {
            text = cat("[", name, "]:", port);
            Exact e{text};
            Address a{e.view(), listen};
            check_v6(a, want, port, text);
            if (!(local && listen)) again(a, text);
            break;
          }
          case 1: { text = name; Exact e{text}; check_v6(Address{e.view(), listen}, want, 0, text); break; }
          default: { text = name; Exact e{text}; check_v6(Address{e.view(), port, listen}, want, port, text); }
        }
      }
    } catch (const std::exception &e) { viol("address:refused", text + ": " + e.what()); }
  }
  // what is not an address is refused
  static const std::vector<std::string> hosts{"x", "256.1.1.1", "1.2.3.4.5", "1.2.3.x", "a.b.c.d", "host", "1.2.3.-4", "1..2.3", "1.2.3.4 x", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4\n", "255.255.255.256", "255.255.255.255.255"};
  static const std::vector<std::string> ports{"x", "65536", "70000", "-1", "8x", "99999999999999999999", "+80", "0x50", " ", "8 0", "4294967376"};
  static const std::vector<std::string> sixes{"[::1:80", "::g", "1:2:3", "1:2:3:4:5:6:7:8:9", "[x::y]:80", "::1::", "[12345::]:1", "1.2.3.4:80:90", ":::", "[::1]:x", "[::1]:65536", "[::1]:-5", "[fe80::1]:1x", "1::2]:80", "::1]", "[::1]80", "[::1]x:80", "[::1]]:80", "[[::1]]:80", "[::1]:80]:90", "[::1]:80:90", "[]:80x", "[::1] :80", "::1 "};
  std::string bad;
  switch (g.below(4)) {
    case 0: bad = g.pick(hosts) + (g.chance(1, 2) ? cat(":", g.below(65536)) : ""); break;
    case 1: bad = cat(g.below(256), ".", g.below(255), ".", g.below(256), ".", 1 + g.below(255), ":", g.pick(ports)); break;
    case 2: bad = ":" + g.pick(ports); break;
    default: bad = g.pick(sixes);
  }
  Exact e{bad};
  try {
    Address a{e.view(), g.chance(1, 2)};
    viol("address:accepted", "'" + bad + "' gives " + a.text());
  } catch (const std::invalid_argument &) { count("address_bad_refused"); }
  eval();
  distinct(seed);
}
static void address_bytes(uint64_t seed) {
  Rng g{seed};
  for (int i = 0; i < 20; ++i) {
    auto n = g.chance(1, 2) ? g.pick(std::vector<size_t>{sizeof(sockaddr_in), sizeof(sockaddr_in6), sizeof(sockaddr_un), sizeof(sockaddr_storage), 2, 1, 0, 15, 17, 27, 29, 3, 109, 111}) : g.below(140);
    auto b = bytes(g, n);
    static const std::vector<uint16_t> fam{AF_INET, AF_INET6, AF_UNIX, AF_UNSPEC, 99, 65535};
    auto f = g.pick(fam);
    if (n >= 2) memcpy(b.data(), &f, 2);
    plain::bytes_t v;
    v.append(reinterpret_cast<const std::byte *>(b.data()), b.size());
    v.shrink_to_fit();
    uint16_t fam2 = n >= 2 ? f : 0;
    bool ok = n && ((fam2 == AF_INET && n == sizeof(sockaddr_in)) || (fam2 == AF_INET6 && n == sizeof(sockaddr_in6)) ||
                    (fam2 == AF_UNIX && n >= 2 && n <= sizeof(sockaddr_un)) || (fam2 == AF_UNSPEC && n == sizeof(sockaddr_storage)));
    if (plain::net::is_valid_addr(v) != ok) { viol("address:bytes", cat("family ", fam2, " size ", n)); return; }
    try {
      Address a{v};
      if (!ok) { viol("address:bytes-accepted", cat("family ", fam2, " size ", n)); return; }
      if (raw(a) != b || a.family() != fam2 || a.size() != n || !static_cast<bool>(a)) viol("address:bytes-kept", cat("family ", fam2));
      auto t = a.text();
      if (fam2 == AF_INET) { auto s = reinterpret_cast<const sockaddr_in *>(b.data()); if (a.port() != ntohs(s->sin_port)) viol("address:bytes-port", "v4"); }
      else if (fam2 == AF_INET6) { sockaddr_in6 s; memcpy(&s, b.data(), sizeof s); char h[64]; inet_ntop(AF_INET6, &s.sin6_addr, h, sizeof h); if (a.port() != ntohs(s.sin6_port) || a.host() != h) viol("address:bytes-port", "v6"); }
      else if (fam2 == AF_UNIX && n > 2) { auto path = b.substr(2); path = path.substr(0, path.find('\0')); if (a.host() != path) viol("address:bytes-path", path); }
      Address c;
      c = v;
      if (raw(c) != b) viol("address:bytes-kept", "assigned");
      count("address_bytes_accepted");
    } catch (const std::invalid_argument &) {
      if (ok) { viol("address:bytes-refused", cat("family ", fam2, " size ", n)); return; }
      Address c{"9.8.7.6:5", false};
      try { c = v; viol("address:bytes-accepted", "assigned"); } catch (const std::invalid_argument &) {}
      if (c.text() != "9.8.7.6:5") viol("address:lost", "refused bytes changed the address");
      count("address_bytes_refused");
    }
  }
  Address none;
  if (none || none.port() || none.family() || none.size() || !none.host().empty()) viol("address:empty", none.text());
  eval();
  distinct(seed);
}

// ---------------------------------------------------------------- text
static std::string ref_replace(const std::string &from, const std::string &to, const std::string &in, int64_t max) {
  std::string out;
  size_t i = 0;
  while (i < in.size()) {
    if (!from.empty() && max != 0 && in.compare(i, from.size(), from) == 0) { out += to; i += from.size(); --max; }
    else out += in[i++];
  }
  return out;
}
static void text_case(uint64_t seed) {
  Rng g{seed};
  auto ctx = cat("seed ", seed);
  static const std::string ab = "ab,;'\"\\ \t\n";
  for (int i = 0; i < 12; ++i) {
    auto in = g.chance(1, 20) ? over(g, 500, 3000, ab) : over(g, 0, 40, g.chance(1, 3) ? "ab" : ab);
    // explode
    {
      auto key = over(g, 1, 3, g.chance(1, 2) ? "a" : ",;b");
      bool one = g.chance(1, 2), skip = g.chance(1, 2);
      std::vector<std::string> want, got{"old"};
      if (!in.empty()) {
        std::string cur;
        for (size_t p = 0; p <= in.size();) {
          bool hit = p < in.size() && (one ? key.find(in[p]) != std::string::npos : in.compare(p, key.size(), key) == 0);
          if (hit || p == in.size()) { if (!cur.empty() || !skip) want.push_back(cur); cur.clear(); p += hit ? (one ? 1 : key.size()) : 1; }
          else cur += in[p++];
        }
      }
      auto n = plain::explode(in.c_str(), got, key.c_str(), one, skip);
      if (got != want || n != static_cast<int32_t>(want.size())) { viol("text:explode", cat(ctx, " '", in, "' by '", key, "' one ", one, " skip ", skip)); return; }
      count("text_explodes");
    }
    // replace
    {
      auto from = over(g, 0, 3, g.chance(1, 2) ? "ab" : ab), to = over(g, 0, 5, ab);
      if (g.chance(1, 5)) to = from + to;
      auto max = g.chance(1, 3) ? g.range(0, 4) : -1;
      Exact e1{from}, e2{to}, e3{in};
      auto got = plain::str_replace(e1.view(), e2.view(), e3.view(), static_cast<int32_t>(max));
      if (got != ref_replace(from, to, in, max)) { viol("text:replace", cat(ctx, " '", from, "' by '", to, "' in '", in, "' count ", max, " gives '", got, "'")); return; }
      std::vector<std::string> all;
      auto want = in;
      for (auto k = g.below(4); k > 0; --k) { all.push_back(over(g, 1, 2, ab)); want = ref_replace(all.back(), to, want, max); }
      if (plain::str_replaces(all, to, in, static_cast<int32_t>(max)) != want) { viol("text:replaces", cat(ctx, " ", all.size(), " strings in '", in, "'")); return; }
      auto sl = plain::addslashes(e3.view());
      if (plain::stripslashes(sl) != in) { viol("text:slashes", cat(ctx, " '", in, "' gives '", sl, "'")); return; }
      bool open = false;
      for (size_t p = 0; p < sl.size(); ++p) { if (sl[p] == '\\') ++p; else if (sl[p] == '\'' || sl[p] == '"') open = true; }
      if (open) { viol("text:slashes-open", cat(ctx, " '", sl, "'")); return; }
      count("text_replaces");
    }
    // trim
    {
      std::string mask = g.chance(1, 3) ? " \t\n\r" : over(g, 1, 4, ab);
      auto t = over(g, 0, 6, g.chance(1, 2) ? mask : ab) + in + over(g, 0, 6, g.chance(1, 2) ? mask : ab);
      auto l = t.find_first_not_of(mask);
      auto lt = l == std::string::npos ? "" : t.substr(l);
      auto r = t.find_last_not_of(mask);
      auto rt = r == std::string::npos ? "" : t.substr(0, r + 1);
      auto bt = l == std::string::npos ? "" : t.substr(l, r - l + 1);
      auto x = t, y = t, z = t;
      bool def = mask == " \t\n\r";
      if ((def ? plain::ltrim(x) : plain::ltrim(x, mask)) != lt || (def ? plain::rtrim(y) : plain::rtrim(y, mask)) != rt || (def ? plain::trim(z) : plain::trim(z, mask)) != bt || x != lt || y != rt || z != bt) { viol("text:trim", cat(ctx, " '", t, "' mask '", mask, "' gives '", x, "' '", y, "' '", z, "'")); return; }
      count("text_trims");
    }
    // contains
    {
      std::vector<std::string> n;
      for (auto k = g.below(4); k > 0; --k) n.push_back(over(g, 0, 3, ab));
      bool want = false;
      for (auto &k : n) want = want || (!k.empty() && in.find(k) != std::string::npos);
      if (plain::contains(in, n) != want) { viol("text:contains", ctx); return; }
    }
    // escape for a statement: fits, and is undone
    {
      auto b = bytes(g, g.below(30)) + in.substr(0, 20) + (g.chance(1, 2) ? std::string("\0\x1a\r", 3) : "");
      size_t n = g.below(2 * b.size() + 3);
      auto out = std::make_unique<char[]>(n + 1);
      memset(out.get(), 1, n + 1);
      std::unique_ptr<char[]> exact{new char[n ? n : 1]};
      memset(exact.get(), 1, n ? n : 1);
      plain::getescape(b.data(), b.size(), exact.get(), n);
      std::string want;
      for (char c : b) {
        std::string e;
        switch (c) { case 0: e = "\\0"; break; case '\n': e = "\\n"; break; case '\r': e = "\\r"; break; case 0x1a: e = "\\Z"; break; case '"': e = "\\\""; break; case '\'': e = "\\'"; break; case '\\': e = "\\\\"; break; default: e = c; }
        if (want.size() + e.size() > n) break;
        want += e;
      }
      if (std::string(exact.get(), std::min(n, want.size())) != want) { viol("text:escape", cat(ctx, " room ", n)); return; }
      count("text_escapes");
    }
    // case, wide and back
    {
      auto s = over(g, 0, g.chance(1, 10) ? 3000 : 60, "abcXYZ019 _-%");
      auto up = plain::toupper(s), lo = plain::tolower(s);
      for (size_t k = 0; k < s.size(); ++k)
        if (up[k] != static_cast<char>(::toupper(s[k])) || lo[k] != static_cast<char>(::tolower(s[k]))) { viol("text:case", ctx); return; }
      Exact e{s};
      auto w = plain::str2wstr(e.view());
      if (w.size() != s.size() || plain::wstr2str(w) != s) { viol("text:wide", cat(ctx, " length ", s.size(), " gives ", w.size(), " and ", plain::wstr2str(w).size())); return; }
      if (s.size() > 511) count("text_long_wide");
    }
    // numbers
    {
      auto v = static_cast<int64_t>(g.next() >> g.below(64));
      auto u = g.next() >> g.below(64);
      if (g.chance(1, 2)) v = -v;
      if (plain::toint64(std::to_string(v).c_str()) != v || plain::touint64(std::to_string(u).c_str()) != u) { viol("text:number", cat(ctx, " ", v, " ", u)); return; }
      if (plain::touint64(plain::get_highsection(u), plain::get_lowsection(u)) != u) { viol("text:sections", cat(u)); return; }
      if (g.chance(1, 2)) {  // at a place where the form changes
        uint64_t ten = 1;
        for (auto k = g.range(0, 19); k; --k) ten *= 10;
        u = g.pick(std::vector<uint64_t>{ten, ten / 10000 * 9995, ten / 100000 * 99950, ten / 10000 * 9994, ten / 100 * 99});
        u += static_cast<uint64_t>(g.range(-2, 2));
        if (static_cast<int64_t>(u) < 0) u = 0;
      }
      auto f = plain::format_size(u);
      static const std::string units = "kMGTPE";
      double scale = 1;
      auto num = f;
      if (!f.empty() && units.find(f.back()) != std::string::npos) { scale = std::pow(1000.0, 1.0 + static_cast<double>(units.find(f.back()))); num.pop_back(); }
      char *end;
      double d = strtod(num.c_str(), &end) * scale;
      if (*end || f.size() > 6 || (u < 1000 ? f != std::to_string(u) : std::fabs(d - static_cast<double>(u)) > 0.0052 * static_cast<double>(u)) || (u < 1000000000000000000ull && f.size() > 5)) { viol("text:size", cat(u, " gives ", f)); return; }
      if (u >= 1000 && u < 999500000000000000ull && std::count_if(f.begin(), f.end(), [](char c) { return c >= '0' && c <= '9'; }) != 3) { viol("text:size-digits", cat(u, " gives ", f)); return; }
      count("text_numbers");
    }
  }
  // paths
  {
    auto base = fs::current_path() / cat("d", seed);
    std::string rel;
    auto depth = 1 + g.below(5);
    for (uint64_t k = 0; k < depth; ++k) rel += (k ? (g.chance(1, 6) ? "\\" : "/") : "") + over(g, 1, 20, "abcdef.-_ x") + "z";
    auto p = base.string() + "/" + rel + (g.chance(1, 3) ? "/" : "");
    auto real = p;
    for (auto &c : real) if (c == '\\') c = '/';
    for (int k = 0; k < 2; ++k)
      if (!plain::makedir(p.c_str()) || !fs::is_directory(real)) { viol("text:makedir", p); return; }
    struct stat st;
    if (stat(real.c_str(), &st) != 0 || (st.st_mode & 0700) != 0700) viol("text:makedir-mode", cat(p, " mode ", std::to_string(st.st_mode & 07777)));
    std::error_code ec;
    fs::remove_all(base, ec);
    if (g.chance(1, 20)) {
      auto no = plain::makedir("");
      auto lp = fs::current_path().string() + "/" + std::string(5000, 'q');
      if (no || plain::makedir(lp.c_str())) viol("text:makedir", "a path of no or too many characters was made");
      count("text_bad_paths");
    }
    auto d = over(g, 0, 30, "abc/");
    size_t room = d.size() + 1 + g.below(3);
    std::unique_ptr<char[]> c{new char[room]};
    memset(c.get(), 'q', room);
    memcpy(c.get(), d.c_str(), d.size() + 1);
    plain::complementpath(c.get(), room);
    auto want = !d.empty() && d.back() == '/' ? d : room > d.size() + 1 ? d + "/" : d;
    if (memchr(c.get(), 0, room) == nullptr || (!d.empty() && want != c.get())) viol("text:complement", cat("'", d, "' in ", room));
    char save[4200];
    auto f = over(g, 0, 30, "abc/\\");
    plain::dirname(f.c_str(), save);
    auto uf = f;
    for (auto &ch : uf) if (ch == '\\') ch = '/';
    auto pos = uf.rfind('/');
    if (std::string(save) != (pos == std::string::npos ? "" : uf.substr(0, pos))) viol("text:dirname", cat("'", f, "' gives '", save, "'"));
    // slashes, in a buffer of exactly the bytes told
    auto slashed = over(g, 0, 40, "ab/\\.");
    Exact su{slashed}, sw{slashed};
    plain::path_tounix(su.p.get(), static_cast<uint16_t>(slashed.size()));
    plain::path_towindows(sw.p.get(), static_cast<uint16_t>(slashed.size()));
    for (size_t k = 0; k < slashed.size(); ++k) {
      bool sl = slashed[k] == '/' || slashed[k] == '\\';
      if (su.p[k] != (sl ? '/' : slashed[k]) || sw.p[k] != (sl ? '\\' : slashed[k])) { viol("text:slashes", cat("'", slashed, "'")); break; }
    }
    count("text_paths");
  }
  // characters that may not be in a statement, up to an end or the size
  for (int i = 0; i < 5; ++i) {
    auto t = over(g, 0, 30, g.chance(1, 2) ? std::string_view{"abcXYZ 019;-"} : std::string_view{"abcdefghijklmnopqrstuvwxyz'\"()=\0", 32});
    Exact e{t};
    auto upto = t.substr(0, t.find('\0'));
    bool want = !t.empty() && upto.find_first_of("'\"()=") == upto.npos;
    if (plain::checkstr(e.p.get(), static_cast<uint32_t>(t.size())) != want) { viol("text:checkstr", cat("'", t, "' ", want)); return; }
    count(want ? "text_checked_good" : "text_checked_bad");
    auto error = static_cast<int>(g.range(-3, 140));
    char buf[256];
    std::string sys = strerror_r(error, buf, sizeof buf);
    if (plain::get_error_str(error) != sys || plain::strerror_pl(error) != sys) { viol("text:error", cat(error, " ", sys)); return; }
  }
  eval();
  distinct(seed);
}

// ---------------------------------------------------------------- bytes
static std::string ref_md5(const std::string &in) {
  static const uint32_t s[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20,
                                 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
  uint32_t k[64];
  for (int i = 0; i < 64; ++i) k[i] = static_cast<uint32_t>(std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0));
  auto m = in;
  m += static_cast<char>(0x80);
  while (m.size() % 64 != 56) m += '\0';
  uint64_t bits = in.size() * 8;
  for (int i = 0; i < 8; ++i) m += static_cast<char>(bits >> (8 * i));
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16];
    for (int i = 0; i < 16; ++i) { w[i] = 0; for (int b = 3; b >= 0; --b) w[i] = (w[i] << 8) | static_cast<uint8_t>(m[o + i * 4 + b]); }
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (uint32_t i = 0; i < 64; ++i) {
      uint32_t f, x;
      if (i < 16) { f = (b & c) | (~b & d); x = i; }
      else if (i < 32) { f = (d & b) | (~d & c); x = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; x = (3 * i + 5) % 16; }
      else { f = c ^ (b | ~d); x = (7 * i) % 16; }
      f += a + k[i] + w[x];
      a = d; d = c; c = b;
      b += (f << s[i]) | (f >> (32 - s[i]));
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  std::string out;
  for (auto v : h) for (int i = 0; i < 4; ++i) { char t[3]; snprintf(t, sizeof t, "%02x", (v >> (8 * i)) & 255); out += t; }
  return out;
}
static std::string ref_b64(const std::string &in) {
  static const char set[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string out;
  for (size_t i = 0; i < in.size(); i += 3) {
    uint32_t v = 0;
    for (size_t k = 0; k < 3; ++k) v = (v << 8) | (i + k < in.size() ? static_cast<uint8_t>(in[i + k]) : 0);
    for (size_t k = 0; k < 4; ++k) out += k <= std::min<size_t>(3, in.size() - i) ? set[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return out;
}
template <typename T>
static bool endian_ok(Rng &g) {
  T v;
  auto r = g.next();
  memcpy(&v, &r, sizeof v);
  unsigned char b[sizeof(T)];
  auto n = plain::hton(v);
  memcpy(b, &n, sizeof b);
  for (size_t i = 0; i < sizeof(T); ++i)
    if (b[i] != reinterpret_cast<unsigned char *>(&v)[sizeof(T) - 1 - i]) return false;
  T back = plain::ntoh(n);
  return memcmp(&back, &v, sizeof v) == 0;
}
static void bytes_case(uint64_t seed) {
  Rng g{seed};
  auto ctx = cat("seed ", seed);
  for (int i = 0; i < 10; ++i) {
    auto n = g.chance(1, 15) ? g.range(1000, 9000) : g.range(0, 200);
    auto b = bytes(g, static_cast<size_t>(n));
    Exact e{b};
    auto enc = plain::base64_encode(e.view());
    if (enc != ref_b64(b)) { viol("bytes:base64", cat(ctx, " size ", n)); return; }
    if (plain::base64_decode(enc) != b) { viol("bytes:base64-back", cat(ctx, " size ", n)); return; }
    auto dirt = enc.substr(0, g.below(enc.size() + 1)) + over(g, 0, 4, "=-\n*A");
    auto part = plain::base64_decode(dirt);  // cut or damaged: no more than what was there
    if (part.size() > dirt.size()) { viol("bytes:base64-damaged", ctx); return; }
    auto clean = dirt.substr(0, dirt.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"));
    if (part.size() != clean.size() / 4 * 3 + (clean.size() % 4 > 1 ? clean.size() % 4 - 1 : 0)) { viol("bytes:base64-damaged", cat(ctx, " '", dirt.substr(0, 60), "' gives ", part.size())); return; }
    auto want = ref_md5(b);
    plain::MD5 m;
    for (size_t o = 0; o < b.size();) {
      auto k = std::min<size_t>(b.size() - o, g.chance(1, 2) ? g.below(70) : 1 + g.below(200));
      Exact part2{std::string_view{b}.substr(o, k)};
      m.update(part2.p.get(), static_cast<unsigned>(k));
      o += k;
    }
    m.finalize();
    if (plain::md5(b) != want || m.hexdigest() != want || plain::MD5(b).hexdigest() != want) { viol("bytes:md5", cat(ctx, " size ", n, " gives ", plain::md5(b), " and ", m.hexdigest(), " for ", want)); return; }
    // hex
    if (n) {
      std::unique_ptr<char[]> hex{new char[b.size() * 2]};
      plain::binary_tostring(e.p.get(), static_cast<uint32_t>(b.size()), hex.get());
      std::string h;
      for (unsigned char c : b) { char t[3]; snprintf(t, sizeof t, "%02X", c); h += t; }
      if (std::string(hex.get(), b.size() * 2) != h) { viol("bytes:hex", cat(ctx, " size ", n)); return; }
      auto limit = g.chance(1, 2) ? b.size() : g.below(b.size() + 4);
      std::unique_ptr<char[]> back{new char[limit ? limit : 1]};
      uint32_t len{0};
      plain::string_tobinary(hex.get(), static_cast<uint32_t>(b.size() * 2), back.get(), static_cast<uint32_t>(limit), len);
      auto wl = std::min<size_t>(limit, b.size());
      if (len != wl || memcmp(back.get(), b.data(), wl) != 0) { viol("bytes:hex-back", cat(ctx, " size ", n, " limit ", limit, " gives ", len)); return; }
    }
    count("bytes_encoded");
    if (!endian_ok<uint16_t>(g) || !endian_ok<int16_t>(g) || !endian_ok<uint32_t>(g) || !endian_ok<int32_t>(g) || !endian_ok<uint64_t>(g) || !endian_ok<int64_t>(g)) { viol("bytes:endian", ctx); return; }
    auto dbl = static_cast<double>(static_cast<int64_t>(g.next())) / 7.0;
    auto flt = static_cast<float>(dbl);
    if (plain::ntoh(plain::hton(dbl)) != dbl || plain::ntoh(plain::hton(flt)) != flt) { viol("bytes:endian-float", ctx); return; }
    std::array<uint8_t, 8> arr{};
    auto u = g.next();
    plain::hton(u, arr.begin());
    uint64_t x = 0;
    for (auto c : arr) x = (x << 8) | c;
    if (x != u || plain::ntoh<uint64_t>(arr.begin()) != u) { viol("bytes:endian-iterator", ctx); return; }
    count("bytes_endian");
  }
  // a stream over a fixed block: what fits is there, nothing is written past it
  {
    size_t room = g.chance(1, 4) ? g.range(1, 20) : g.range(1, 600);
    std::unique_ptr<char[]> block{new char[room]};
    memset(block.get(), 0, room);
    plain::stringstream s{block.get(), room};
    struct Op { int kind; uint64_t v; std::string str; };
    std::vector<Op> ops;
    std::string image;
    auto be = [&](uint64_t v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += static_cast<char>(v >> (8 * i)); return r; };
    auto n = g.range(1, 20);
    for (int64_t i = 0; i < n; ++i) {
      Op o{static_cast<int>(g.below(6)), g.next(), {}};
      if (o.kind == 5) o.str = bytes(g, g.chance(1, 6) ? g.below(300) : g.below(20));
      auto size = o.kind == 5 ? 4 + o.str.size() : std::array<size_t, 5>{1, 2, 4, 8, 8}[o.kind];
      if (image.size() + size > room) { if (o.kind == 5) break; }
      else { image += o.kind == 5 ? be(o.str.size(), 4) + o.str : o.kind == 4 ? std::string() : be(o.v, static_cast<int>(size)); }
      switch (o.kind) {
        case 0: s << static_cast<uint8_t>(o.v); break;
        case 1: s << static_cast<uint16_t>(o.v); break;
        case 2: s << static_cast<int32_t>(o.v); break;
        case 3: s << o.v; break;
        case 4: { double d; uint64_t q = o.v >> 12; d = static_cast<double>(q); o.v = q; if (image.size() + 8 <= room) { uint64_t r; memcpy(&r, &d, 8); image += be(r, 8); } s << d; break; }
        default: s << o.str;
      }
      if (s.get_position() != image.size()) { viol("bytes:stream-size", cat(ctx, " op ", i, " kind ", o.kind, " at ", s.get_position(), " for ", image.size())); return; }
      ops.push_back(o);
    }
    if (memcmp(block.get(), image.data(), image.size()) != 0) { viol("bytes:stream-image", ctx); return; }
    size_t at = 0;
    s.set_position(0);
    for (auto &o : ops) {
      auto size = o.kind == 5 ? 4 + o.str.size() : std::array<size_t, 5>{1, 2, 4, 8, 8}[o.kind];
      if (at + size > image.size()) continue;  // was not written
      bool ok = true;
      switch (o.kind) {
        case 0: { uint8_t v; s >> v; ok = v == static_cast<uint8_t>(o.v); break; }
        case 1: { uint16_t v; s >> v; ok = v == static_cast<uint16_t>(o.v); break; }
        case 2: { int32_t v; s >> v; ok = v == static_cast<int32_t>(o.v); break; }
        case 3: { uint64_t v; s >> v; ok = v == o.v; break; }
        case 4: { double v; s >> v; ok = v == static_cast<double>(o.v); break; }
        default: { std::string v; s >> v; ok = v == o.str; }
      }
      at += size;
      if (!ok || s.get_position() != at) { viol("bytes:stream-value", cat(ctx, " kind ", o.kind, " at ", at)); return; }
      count("bytes_stream_values");
    }
    // the other types, and a cleared block
    s.clear();
    if (s.get_position() != 0 || s.full() || std::any_of(block.get(), block.get() + room, [](char c) { return c != 0; })) { viol("bytes:stream-clear", ctx); return; }
    if (room >= 31) {
      auto i8 = static_cast<int8_t>(g.next());
      auto i16 = static_cast<int16_t>(g.next());
      auto u32 = static_cast<uint32_t>(g.next());
      auto i64 = static_cast<int64_t>(g.next());
      auto f = static_cast<float>(static_cast<int32_t>(g.next())) / 3.0f;
      auto word = over(g, 0, 8, "abcdefgh");
      s << i8 << i16 << u32 << i64 << f << word.c_str();
      std::string im = be(static_cast<uint8_t>(i8), 1) + be(static_cast<uint16_t>(i16), 2) + be(u32, 4) + be(static_cast<uint64_t>(i64), 8);
      uint32_t fb;
      memcpy(&fb, &f, 4);
      im += be(fb, 4) + be(word.size(), 4) + word;
      if (s.get_position() != im.size() || memcmp(block.get(), im.data(), im.size()) != 0) { viol("bytes:stream-image-more", ctx); return; }
      s.set_position(0);
      int8_t a; int16_t b; uint32_t c; int64_t d; float e; char w[16] = {0};
      s >> a >> b >> c >> d >> e >> w;
      if (a != i8 || b != i16 || c != u32 || d != i64 || e != f || word != w || s.get_position() != im.size()) { viol("bytes:stream-value-more", ctx); return; }
      count("bytes_stream_more");
    }
    s.set_position(0);
    for (size_t i = 0; i < room; ++i) { if (s.full()) { viol("bytes:stream-full", cat(ctx, " at ", i)); return; } s << static_cast<uint8_t>(i); }
    if (!s.full()) { viol("bytes:stream-full", cat(ctx, " not at ", room)); return; }
    s << uint8_t{1} << uint64_t{1};
    if (s.get_position() != room) { viol("bytes:stream-full", "grew"); return; }
    // past the end: nothing is read
    if (room >= 2) {
      s.set_position(room - 1);
      uint32_t keep{0x01020304};
      s >> keep;
      if (keep != 0x01020304) { viol("bytes:stream-past", cat(ctx, " ", keep)); return; }
    }
    if (room > 8) {
      s.set_position(0);
      auto lie = g.pick(std::vector<int32_t>{-1, INT32_MAX, static_cast<int32_t>(room), 20000, 1000000, static_cast<int32_t>(room - 3)});
      s << lie;
      s.set_position(0);
      std::string v{"old"};
      s >> v;
      if (!v.empty()) { viol("bytes:stream-lie", cat(ctx, " ", v.size())); return; }
      count("bytes_stream_lies");
    }
  }
  // a hexadecimal dump
  plain::bytes_t bs;
  std::string want;
  for (int i = 0; i < 20; ++i) { auto c = static_cast<uint8_t>(g.next()); bs += static_cast<std::byte>(c); char t[8]; snprintf(t, sizeof t, "\\x%x", c); want += t; }
  if (plain::to_hex(bs) != want) viol("bytes:dump", want);
  {
    auto part = bs.substr(0, g.below(bs.size() + 1));
    std::string text;
    for (auto c : part) { char t[4]; snprintf(t, sizeof t, "%02X", static_cast<unsigned>(c)); text += t; }
    std::ostringstream o;
    o << 31 << ' ';
    plain::operator<<(o, part) << ' ' << 31;
    if (o.str() != "31 " + (part.empty() ? "0" : text) + " 31") viol("bytes:print", cat(ctx, " ", o.str()));
  }
  eval();
  distinct(seed);
}

// ---------------------------------------------------------------- variables
using V = plain::variable_t;
struct Val { V v; int type; double d; int64_t i; std::string s; };
static Val value(Rng &g) {
  Val r{};
  r.type = static_cast<int>(g.below(12));
  auto n = static_cast<int64_t>(g.next() >> g.below(60)) * (g.chance(1, 2) ? 1 : -1);
  n %= 1000000000;
  auto set = [&](auto x) { r.v = x; r.i = static_cast<int64_t>(x); r.d = static_cast<double>(x); std::ostringstream o; o << x; r.s = o.str(); };
  switch (r.type) {
    case 0: set(static_cast<bool>(n & 1)); break;
    case 1: set(static_cast<int8_t>(n)); break;
    case 2: set(static_cast<uint8_t>(n)); break;
    case 3: set(static_cast<int16_t>(n)); break;
    case 4: set(static_cast<uint16_t>(n)); break;
    case 5: set(static_cast<int32_t>(n)); break;
    case 6: set(static_cast<uint32_t>(n)); break;
    case 7: set(g.chance(1, 4) ? n * 1000000007 : n); break;
    case 8: set(static_cast<uint64_t>(n < 0 ? -n : n)); break;
    case 9: set(static_cast<float>(n) / 16.0f); break;
    case 10: set(static_cast<double>(n) / 64.0); break;
    default: {
      if (g.chance(1, 2)) { r.s = cat(n % 100000, ".", 5); } else if (g.chance(1, 2)) r.s = std::to_string(n); else r.s = over(g, 0, 30, "abcdefXYZ %");
      r.v = r.s;
      r.i = strtoll(r.s.c_str(), nullptr, 10);
      r.d = atof(r.s.c_str());
    }
  }
  return r;
}
static bool typed(const V &v, const Val &w) {
  switch (w.type) {
    case 0: return v.get<bool>() == (w.i != 0);
    case 1: return v.get<int8_t>() == w.i;
    case 2: return v.get<uint8_t>() == w.i;
    case 3: return v.get<int16_t>() == w.i;
    case 4: return v.get<uint16_t>() == w.i;
    case 5: return v.get<int32_t>() == w.i;
    case 6: return v.get<uint32_t>() == w.i;
    case 7: return v.get<int64_t>() == w.i;
    case 8: return v.get<uint64_t>() == static_cast<uint64_t>(w.i);
    case 9: return static_cast<double>(v.get<float>()) == w.d;
    case 10: return v.get<double>() == w.d;
    default: return v.get<std::string>() == w.s;
  }
}
static void variable_case(uint64_t seed) {
  Rng g{seed};
  auto ctx = cat("seed ", seed);
  for (int k = 0; k < 25; ++k) {
    auto a = value(g), b = value(g);
    if (g.chance(1, 3)) b = value(g), b.type = b.type;
    auto where = cat(ctx, " types ", a.type, " ", b.type, " values ", a.s, " ", b.s);
    if (static_cast<int>(a.v.value.index()) != a.type || !typed(a.v, a) || a.v.to_int64() != a.i || a.v.to_double() != a.d) return viol("variable:value", where);
    std::ostringstream o;
    o << a.v;
    if (o.str() != a.s) return viol("variable:text", where + " gives " + o.str());
    try { if (a.type != 11) (void)a.v.get<std::string>(); else (void)a.v.get<int64_t>(); viol("variable:wrong-type", where); } catch (const std::bad_variant_access &) {}
    // order: exactly one of less, equal, greater, and the others follow
    const V &x = a.v, &y = b.v;
    int n = (x < y) + (x == y) + (x > y);
    if (n != 1 || (x != y) == (x == y) || (x < y) != (y > x) || (x == y) != (y == x)) return viol("variable:order", cat(where, ": ", x < y, x == y, x > y, x != y));
    if (a.type == b.type) {
      bool less = a.type == 11 ? a.s < b.s : a.type >= 9 ? a.d < b.d : a.i < b.i;
      if ((x < y) != less) return viol("variable:order-value", where);
      count("variable_same_type");
    }
    if (!(x == x) || x < x || x > x) return viol("variable:order-self", where);
    auto o3 = x <=> y;
    if ((o3 < 0) != (x < y) || (o3 > 0) != (x > y) || (o3 == 0) != (x == y) || (x <= y) != !(x > y) || (x >= y) != !(x < y)) return viol("variable:order-three-way", where);
    if (a.type == 11 && (a.s != a.v.c_str() || a.s != static_cast<const char *>(a.v))) return viol("variable:c_str", where);
    if (static_cast<int64_t>(V{a.i}) != a.i || static_cast<std::string>(V{a.s}) != a.s) return viol("variable:cast", where);
    enum class Kind : uint16_t { zero, most = 65535 };
    auto kind = static_cast<Kind>(g.below(65536));
    if (V{kind}.get<uint16_t>() != static_cast<uint16_t>(kind)) return viol("variable:enum", where);
    // copies are equal and independent, what is moved or assigned is what was there
    V c{x}, d, e;
    d = x;
    if (!(c == x) || !(d == x)) return viol("variable:copy", where);
    ++c;
    if (!typed(x, a) || c.get<int64_t>() != a.i + 1) return viol("variable:increment", where);
    --c;
    if (c.get<int64_t>() != a.i) return viol("variable:decrement", where);
    c++;
    if (c.get<int64_t>() != a.i + 1) return viol("variable:postfix-increment", where);
    c--;
    if (c.get<int64_t>() != a.i) return viol("variable:postfix-decrement", where);
    e = std::move(d);
    if (!typed(e, a)) return viol("variable:move", where);
    e = e;
    if (!typed(e, a)) return viol("variable:self-assign", where);
    V m{std::move(e)};
    if (!typed(m, a)) return viol("variable:move-construct", where);
    // arithmetic with another variable
    V p{x};
    double want = a.d;
    switch (g.below(4)) {
      case 0: p += y; want = a.d + b.d; break;
      case 1: p -= y; want = a.d - b.d; break;
      case 2: p *= y; want = a.d * b.d; break;
      default: if (b.d == 0) continue; p /= y; want = a.d / b.d;
    }
    if (p.get<double>() != want || !typed(y, b)) return viol("variable:arithmetic", cat(where, " gives ", p.get<double>(), " for ", want));
    V q{x};
    double num = static_cast<double>(g.range(-1000, 1000)) / 8.0;
    switch (g.below(4)) {
      case 0: q += num; want = a.d + num; break;
      case 1: q -= num; want = a.d - num; break;
      case 2: q *= num; want = a.d * num; break;
      default: if (num == 0) continue; q /= num; want = a.d / num;
    }
    if (q.get<double>() != want) return viol("variable:arithmetic-number", cat(where, " number ", num));
    count("variable_values");
  }
  eval();
  distinct(seed);
}
static void variable_threads(uint64_t seed) {  // one variable used by many, changed and read in every way
  Rng g{seed};
  V v = int64_t{0}, t = std::string(40, 'a'), w = int64_t{0}, z = double{64};
  auto n = g.range(2, 5);
  auto per = g.range(20, 300);
  std::atomic<bool> torn{false};
  std::vector<std::thread> ts;
  for (int64_t k = 0; k < n; ++k)
    ts.emplace_back([&, k] {
      double last = 0;
      for (int64_t i = 0; i < per; ++i) {
        switch ((i + k) % 4) { case 0: ++v; break; case 1: v++; break; case 2: v += 1; break; default: v += V{1}; }
        switch ((i + k) % 4) { case 0: --w; break; case 1: w--; break; case 2: w -= 1; break; default: w -= V{1}; }
        switch ((i + k) % 4) { case 0: z *= 2; break; case 1: z *= V{2}; break; case 2: z /= 2; break; default: z /= V{2}; }
        t = std::string(10 + static_cast<size_t>((i + k) % 60), static_cast<char>('a' + k));
        V c{t};
        auto s = c.get<std::string>();
        if (s.size() < 10 || s.find_first_not_of(s[0]) != std::string::npos) torn = true;
        auto u = t.get<std::string>();
        if (u.find_first_not_of(u[0]) != std::string::npos) torn = true;
        if (t < c && t > c) count("variable_changed");
        double now = 0;  // only counts up
        switch ((i + k) % 3) {
          case 0: now = static_cast<double>(v.to_int64()); break;
          case 1: now = v.to_double(); break;
          default: { std::ostringstream o; o << v; now = atof(o.str().c_str()); }
        }
        if (now <= last || now > static_cast<double>(n * per)) torn = true;
        last = now;
        std::ostringstream o;
        o << t;
        if (o.str().size() < 10 || o.str().find_first_not_of(o.str()[0]) != std::string::npos) torn = true;
        if (t.to_int64() != 0 || t.to_double() != 0) torn = true;
        u = static_cast<std::string>(t);
        if (u.size() < 10 || u.find_first_not_of(u[0]) != std::string::npos) torn = true;
        if (i % 5 == 0) { V x{std::string(20, 'm')}; x = std::move(t); u = x.get<std::string>(); if (u.find_first_not_of(u[0]) != std::string::npos) torn = true; }
        if ((t <=> t) != 0 && !(t == c) && (t <=> c) == 0) count("variable_changed");
      }
    });
  for (auto &x : ts) x.join();
  if (v.to_int64() != n * per) viol("variable:lost-update", cat("seed ", seed, " ", v.to_int64(), " for ", n * per));
  if (w.to_int64() != -n * per) viol("variable:lost-decrement", cat("seed ", seed, " ", w.to_int64(), " for ", -n * per));
  double want = 64;
  for (int64_t k = 0; k < n; ++k) for (int64_t i = 0; i < per; ++i) want *= (i + k) % 4 < 2 ? 2 : 0.5;
  if (z.to_double() != want) viol("variable:lost-factor", cat("seed ", seed, " ", z.to_double(), " for ", want));
  if (torn) viol("variable:torn", cat("seed ", seed));
  count("variable_threads", static_cast<uint64_t>(n));
  eval();
  distinct(seed);
}

// What was encrypted, alone as a password or around a number, comes back; what never was is refused in bounds.
static thread_local int64_t time_shift = 0;
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *p) {  // the seed of the library's random places
  time_t t = __real_time(nullptr) + static_cast<time_t>(time_shift);
  if (p) *p = t;
  return t;
}
static void secret_case(uint64_t seed) {
  Rng g{seed};
  auto ctx = cat("seed ", seed);
  std::string printable;
  for (char c = 0x20; c < 0x7f; ++c) printable += c;
  for (int i = 0; i < 10; ++i) {
    time_shift = g.range(0, 2000000000);
    {
      auto pass = over(g, 0, 20, printable);
      bool good = true;
      if (g.chance(1, 8)) { pass += std::string(21 - pass.size() + g.below(3), 'p'); good = false; }
      else if (g.chance(1, 8)) { pass.insert(g.below(pass.size() + 1), 1, g.pick(std::vector<char>{'\0', '\x1f', '\x7f', '\xe4', '\n'})); good = false; }
      Exact e{pass};
      std::string out = "kept", back = "kept";
      bool r = plain::encrypt(e.view(), out);
      if (!good) {
        if (r) { viol("secret:bad-password", cat(ctx, " size ", pass.size())); return; }
        count("secret_bad_passwords");
      } else if (!r) {
        if (pass.size() <= 10) { viol("secret:password-refused", cat(ctx, " '", pass, "'")); return; }
        count("secret_long_refused");
      }
      if (!r && out != "kept") { viol("secret:refused-output", ctx); return; }
      if (r) {
        Exact o{out};
        if (out.size() != 32 || (pass.size() > 3 && out.find(pass) != out.npos)) { viol("secret:not-encrypted", cat(ctx, " '", pass, "' as '", out, "'")); return; }
        if (!plain::decrypt(o.view(), back) || back != pass) { viol("secret:password", cat(ctx, " '", pass, "' as '", out, "' back '", back, "'")); return; }
        count("secret_passwords");
        // damaged
        auto d = out;
        auto k = g.below(d.size());
        switch (g.below(4)) {
          case 0: d[k] = static_cast<char>(g.next()); break;
          case 1: d.resize(k); break;
          case 2: d += bytes(g, 1 + g.below(5)); break;
          default: d = bytes(g, 32);
        }
        Exact x{d};
        back = "kept";
        bool dr = plain::decrypt(x.view(), back);
        if (d.size() != 32 && dr) { viol("secret:damaged-size", ctx); return; }
        if (!dr && back != "kept") { viol("secret:refused-output", ctx); return; }
        if (back.size() > 20) { viol("secret:damaged-long", ctx); return; }
        count(dr ? "secret_damaged_read" : "secret_damaged_refused");
      }
    }
    {
      auto n = g.chance(1, 10) ? g.range(100, 3000) : g.range(0, 40);
      auto text = g.chance(1, 2) ? bytes(g, static_cast<size_t>(n)) : over(g, static_cast<size_t>(n), static_cast<size_t>(n), "abcdefghijklmnABCDEF0123456789");
      int32_t number = g.chance(1, 5) ? g.pick(std::vector<int32_t>{0, 1, -1, INT32_MAX, INT32_MIN, INT32_MIN + 1, 10, -10, 9, 1000000000, -1000000000})
                     : g.chance(1, 2) ? static_cast<int32_t>(g.next()) : static_cast<int32_t>(g.range(-2000, 2000));
      Exact e{text};
      std::string out, back;
      int32_t nb = 77;
      if (!plain::encrypt(e.view(), number, out)) { viol("secret:number-refused", cat(ctx, " ", number)); return; }
      Exact o{out};
      if (!plain::decrypt(o.view(), nb, back) || nb != number || back != text) {
        viol("secret:number", cat(ctx, " ", number, " in ", text.size(), " bytes back as ", nb, " in ", back.size()));
        return;
      }
      count("secret_numbers");
      auto d = out;
      auto k = g.below(d.size());
      switch (g.below(4)) {
        case 0: d[g.below(std::min<size_t>(d.size(), 6))] = static_cast<char>(g.next()); break;
        case 1: d.resize(k); break;
        case 2: d[k] = static_cast<char>(g.next()); break;
        default: d = bytes(g, g.below(40));
      }
      Exact x{d};
      if (plain::decrypt(x.view(), nb, back) && back.size() > d.size()) { viol("secret:damaged-long", ctx); return; }
    }
  }
  eval();
  distinct(seed);
}

int main(int argc, char **argv) {
  init(argc, argv);
  plain::Logger::set_output([](const std::string_view &) {});
  std::cout.setstate(std::ios::badbit);
  uint64_t s = opt.seed * 1000003, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, const std::function<void(uint64_t)> &f) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  run("address", 20, address_case);
  run("address_bytes", 20, address_bytes);
  run("text", 10, text_case);
  run("bytes", 10, bytes_case);
  run("secret", 10, secret_case);
  run("variable", 10, variable_case);
  run("variable_threads", 4, variable_threads);
  return finish();
}
