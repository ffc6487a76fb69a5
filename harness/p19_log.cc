// P19 async log files, P20 log statements.
#include "common.h"
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include "plain/basic/async_logger.h"
#include "plain/basic/error.h"
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/basic/time.h"
#include "plain/basic/type/variable.h"
#include "plain/sys/thread.h"
using namespace vf;
namespace fs = std::filesystem;
using Clock = std::chrono::steady_clock;

static std::string body_of(unsigned who, uint64_t seq, size_t len) {
  std::string s(len, 0);
  uint64_t h = (who + 1) * 1000003ull + seq * 7919;
  for (size_t i = 0; i < len; ++i) {
    h = h * 6364136223846793005ull + 1442695040888963407ull;
    s[i] = static_cast<char>(' ' + 1 + (h >> 33) % 90);
  }
  return s;
}
static std::string line_of(unsigned who, uint64_t seq, size_t len) {
  return cat("@", who, ":", seq, ":", len, ":") + body_of(who, seq, len) + "\n";
}

struct LogDir {
  std::string path;
  explicit LogDir(uint64_t n, bool make = true) {
    path = (fs::current_path() / cat("log", n)).string();
    std::error_code ec;
    fs::remove_all(path, ec);
    if (make) fs::create_directory(path);
    GLOBALS["log.directory"] = path;
  }
  ~LogDir() {
    std::error_code ec;
    fs::remove_all(path, ec);
  }
  std::vector<std::string> files(const std::string &name) const {
    std::vector<std::string> v;
    std::error_code ec;
    for (auto &e : fs::directory_iterator(path, ec))
      if (e.path().filename().string().rfind(name + ".", 0) == 0) v.push_back(e.path().string());
    std::sort(v.begin(), v.end());
    return v;
  }
  std::string read(const std::string &name, size_t *nfiles = nullptr) const {
    std::string all;
    auto v = files(name);
    for (auto &f : v) {
      std::ifstream in(f, std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      all += ss.str();
    }
    if (nfiles) *nfiles = v.size();
    return all;
  }
};

struct Tally {
  std::map<unsigned, std::vector<uint64_t>> seen;
  uint64_t lines{0};
};
// Splits the content into lines and checks each of them; returns what was seen per writer.
static bool parse(const std::string &all, const std::string &what, Tally &t, const std::string &ctx) {
  size_t pos = 0;
  while (pos < all.size()) {
    auto nl = all.find('\n', pos);
    if (nl == std::string::npos) {
      viol("log:torn-line:" + what, ctx + " the last line has no end: " + all.substr(pos, 80));
      return false;
    }
    std::string l = all.substr(pos, nl - pos);
    pos = nl + 1;
    unsigned who{0};
    uint64_t seq{0};
    size_t len{0};
    int used{0};
    if (sscanf(l.c_str(), "@%u:%" SCNu64 ":%zu:%n", &who, &seq, &len, &used) != 3 || !used ||
        l.size() != used + len || l.compare(used, len, body_of(who, seq, len)) != 0) {
      viol("log:torn-line:" + what, ctx + " a line nobody appended (" + std::to_string(l.size()) + " bytes): " + l.substr(0, 80));
      return false;
    }
    t.seen[who].push_back(seq);
    ++t.lines;
  }
  return true;
}
static void reconcile(const Tally &t, const std::map<unsigned, uint64_t> &sure, const std::map<unsigned, uint64_t> &maybe,
                      const std::string &what, const std::string &ctx) {
  for (auto &[who, v] : t.seen) {
    uint64_t expect = 0;
    for (auto s : v) {
      if (s != expect) {
        if (s < expect)
          viol("log:line-twice:" + what, cat(ctx, " writer ", who, " line ", s, " again, or out of order"));
        else
          viol("log:line-lost:" + what, cat(ctx, " writer ", who, " line ", expect, " missing before ", s));
        return;
      }
      ++expect;
    }
    auto m = maybe.find(who);
    if (m == maybe.end() || expect > m->second) {
      viol("log:line-invented:" + what, cat(ctx, " writer ", who, " has ", expect, " lines"));
      return;
    }
  }
  for (auto &[who, n] : sure) {
    auto it = t.seen.find(who);
    uint64_t got = it == t.seen.end() ? 0 : it->second.size();
    if (got < n) {
      viol("log:line-lost:" + what, cat(ctx, " writer ", who, ": ", got, " of ", n, " lines, the last ones are missing"));
      return;
    }
  }
}

static size_t pick_len(Rng &g, unsigned kind) {
  if (kind == 1 && g.chance(1, 40)) return g.range(200000, 1500000);
  if (kind == 2) return g.range(20000, 200000);
  return g.chance(1, 20) ? g.range(0, 5000) : g.range(0, 120);
}

// Writers append while the logger starts, works and stops.
static void async_case(uint64_t seed, bool race_stop) {
  Rng g{seed};
  LogDir dir{seed, g.chance(3, 4)};
  std::string name = cat("n", g.below(1000));
  size_t roll = g.chance(1, 3) ? 1000 : g.chance(1, 2) ? 3000000 : 500000000;
  unsigned writers = 1 + g.below(6), kind = g.below(4) ? g.below(2) : 2;
  uint64_t per = kind == 2 ? g.range(10, 50) : g.range(5, 800);
  if (kind == 2 && writers > 3) writers = 3;
  auto before = g.below(3) ? 0 : g.range(1, 30);
  bool by_dtor = g.chance(1, 4), pause = g.chance(1, 2);
  auto ctx = cat("seed ", seed, " writers ", writers, " lines ", per, " kind ", kind, " roll ", roll,
                 by_dtor ? " destroyed" : " stopped", race_stop ? " while appending" : "");
  const char *what = race_stop ? "stop-race" : "stop";
  std::map<unsigned, uint64_t> sure, maybe;
  std::vector<std::atomic<uint64_t>> done(writers + 1), began(writers + 1);
  {
    auto log = std::make_unique<plain::AsyncLogger>(name, roll, 1);
    for (int i = 0; i < before; ++i) {
      ++began[writers];
      log->append(line_of(writers, i, 30));
      ++done[writers];
    }
    std::atomic<bool> quit{false};
    std::vector<std::thread> th;
    bool late_start = g.chance(1, 4);
    if (!late_start) log->start();
    for (unsigned w = 0; w < writers; ++w)
      th.emplace_back([&, w, s = g.next()] {
        Rng r{s};
        for (uint64_t i = 0; i < per && !quit; ++i) {
          auto l = line_of(w, i, pick_len(r, kind));
          perturb_point(60);
          ++began[w];
          log->append(l);
          ++done[w];
          if (pause && r.chance(1, 60)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(800)));
        }
      });
    if (late_start) log->start();
    if (race_stop) {
      std::this_thread::sleep_for(std::chrono::microseconds(g.below(6000)));
      for (unsigned w = 0; w <= writers; ++w) sure[w] = done[w];
      log->stop();
      quit = true;
      for (auto &t : th) t.join();
      for (unsigned w = 0; w <= writers; ++w) maybe[w] = began[w];
      log.reset();
    } else {
      for (auto &t : th) t.join();
      if (g.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(2000)));
      for (unsigned w = 0; w <= writers; ++w) sure[w] = maybe[w] = done[w];
      if (!by_dtor) log->stop();
      log.reset();
    }
  }
  size_t nfiles{0};
  auto all = dir.read(name, &nfiles);
  Tally t;
  if (!nfiles) viol("log:no-file", ctx);
  if (parse(all, what, t, ctx)) reconcile(t, sure, maybe, what, ctx);
  count("log_lines", t.lines);
  count("log_bytes", all.size());
  if (kind) count("log_large_lines_cases");
  if (race_stop) count("log_stop_races");
  if (before) count("log_lines_before_start", before);
  if (by_dtor && !race_stop) count("log_ended_by_destructor");
  eval();
  distinct(hash_mix(hash_str(ctx), t.lines));
}

// A quick burst right before the stop: the window in which the writer thread is busy.
static void async_burst(uint64_t seed) {
  Rng g{seed};
  LogDir dir{seed};
  auto log = std::make_unique<plain::AsyncLogger>("burst", 500000000, 1);
  log->start();
  uint64_t seq = 0;
  unsigned rounds = 1 + g.below(3);
  for (unsigned i = 0; i < rounds; ++i) {
    // fill more than one buffer so that the writer thread wakes up and writes
    auto big = g.range(1, 5);
    for (int64_t k = 0; k < big; ++k) log->append(line_of(0, seq++, 1000000 + g.below(900000)));
    if (g.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(3000)));
    auto few = g.range(0, 40);
    for (int64_t k = 0; k < few; ++k) log->append(line_of(0, seq++, 20));
  }
  if (g.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(4000)));
  log->append(line_of(0, seq++, 20));
  log->stop();
  log.reset();
  Tally t;
  auto ctx = cat("seed ", seed, " lines ", seq);
  auto all = dir.read("burst");
  if (parse(all, "burst", t, ctx)) reconcile(t, {{0, seq}}, {{0, seq}}, "burst", ctx);
  count("log_bursts");
  count("log_lines", t.lines);
  eval();
  distinct(hash_mix(seed, seq));
}

// As much as may wait for the writer (25 buffers of 4 MB) waits for it: before the start, or after a burst.
static void async_backlog(uint64_t seed) {
  Rng g{seed};
  LogDir dir{seed};
  auto log = std::make_unique<plain::AsyncLogger>("backlog", 900000000, 1);
  size_t buffers = seed % 2 ? 22 + g.below(2) : g.range(3, 22);
  bool started = g.chance(1, 4);
  if (started) { log->start(); buffers = std::min<size_t>(buffers, 20); }
  uint64_t seq = 0;
  const size_t len = g.range(30000, 65000);
  const auto body = body_of(0, 0, len);
  uint64_t lines = buffers * 4194304 / (len + 40);
  for (; seq < lines; ++seq) log->append(cat("@0:", seq, ":", len, ":") + body + "\n");
  if (!started) log->start();
  log->stop();
  log.reset();
  auto ctx = cat("seed ", seed, " lines ", lines, " of ", len, started ? " started before" : "");
  auto all = dir.read("backlog");
  size_t pos = 0, n = 0;
  while (pos < all.size()) {
    auto head = cat("@0:", n, ":", len, ":");
    if (all.size() - pos < head.size() + len + 1 || all.compare(pos, head.size(), head) != 0 || all.compare(pos + head.size(), len, body) != 0 || all[pos + head.size() + len] != '\n') {
      viol("log:line-lost:backlog", cat(ctx, ": line ", n, " is not there, but ", all.substr(pos, 60)));
      break;
    }
    pos += head.size() + len + 1;
    ++n;
  }
  if (pos >= all.size() && n != lines) viol("log:line-lost:backlog", cat(ctx, ": only ", n));
  count("log_backlog_buffers", buffers);
  count("log_lines", n);
  eval();
  distinct(hash_mix(seed, lines));
}

// Lines become visible without a stop; files roll by size and only by size.
static void async_flush(uint64_t seed) {
  Rng g{seed};
  LogDir dir{seed};
  bool roll = seed % 2;
  auto day = time(nullptr) / 86400;
  auto ctx = cat("seed ", seed, roll ? " rolling" : " one file");
  plain::AsyncLogger log{"flush", roll ? size_t{2000} : size_t{500000000}, roll || g.chance(1, 2) ? 0 : 1};
  log.start();
  uint64_t seq = 0;
  auto end = Clock::now() + std::chrono::milliseconds(2300);
  while (Clock::now() < end) {
    for (int k = 0; k < 5; ++k) log.append(line_of(0, seq++, g.range(10, 300)));
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
  }
  auto last = line_of(0, seq++, 25);
  log.append(last);
  if (!wait_until([&] { auto s = dir.read("flush"); return s.size() >= last.size() && s.compare(s.size() - last.size(), last.size(), last) == 0; }, 40000)) {
    log.stop();
    stuck("log:never-flushed");
  }
  count("log_flushed_while_running");
  log.stop();
  Tally t;
  size_t nfiles{0};
  auto all = dir.read("flush", &nfiles);
  if (parse(all, "flush", t, ctx)) reconcile(t, {{0, seq}}, {{0, seq}}, "flush", ctx);
  bool same_day = day == time(nullptr) / 86400;
  if (roll) {
    if (nfiles < 2) viol("log:not-rolled", cat(ctx, ": ", all.size(), " bytes over 2 s in one file, limit 2000"));
    count("log_rolled_files", nfiles);
  } else if (nfiles != 1 && same_day) {
    viol("log:rolled-early", cat(ctx, ": ", nfiles, " files for ", all.size(), " bytes"));
  }
  if (!roll) count("log_one_file_cases");
  eval();
  distinct(hash_mix(seed, roll));
}

// ---------------------------------------------------------------- P20
static thread_local std::vector<std::string> t_out;
static void capture() {
  plain::Logger::set_output([](const std::string_view &l) { t_out.emplace_back(l); });
}

static bool parse_line(const std::string &l, const char *level, const std::string &body, const std::string &func,
                       const std::string &tail, time_t t0, time_t t1, bool whole, const std::string &ctx, int err = 0) {
  auto bad = [&](const char *k) {
    viol(std::string("log-line:") + k, cat(ctx, " line (", l.size(), "): ", l.substr(0, 300), " ... ",
                                           l.size() > 60 ? l.substr(l.size() - 60) : std::string()));
    return false;
  };
  // 2024-01-01T00:00:00.000 <tid> LEVEL func body-file:line\n
  if (l.size() < 24 || l[23] != ' ') return bad("head");
  struct tm tm {};
  int ms = -1;
  if (sscanf(l.substr(0, 23).c_str(), "%d-%d-%dT%d:%d:%d.%d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &ms) != 7)
    return bad("time");
  tm.tm_year -= 1900;
  tm.tm_mon -= 1;
  time_t t = timegm(&tm);
  if (t < t0 || t > t1 || ms < 0 || ms > 999) return bad("time");
  std::stringstream id;
  id << std::this_thread::get_id();
  std::string head = id.str() + " " + level;
  if (err) head += cat(" (errno=", err, ") ");
  head += func + " ";
  if (l.compare(24, head.size(), head) != 0) return bad("head");
  if (l.size() < 24 + head.size() + tail.size() || l.compare(l.size() - tail.size(), tail.size(), tail) != 0) return bad("end");
  auto got = l.substr(24 + head.size(), l.size() - 24 - head.size() - tail.size());
  if (whole) {
    if (got != body) return bad("content");
  } else {
    if (got.size() > body.size() || body.compare(0, got.size(), got) != 0 || got.size() < 3000) return bad("cut-content");
  }
  return true;
}

static void piece(Rng &g, plain::Logger &lg, std::string &want) {
  char b[64];
  switch (g.below(15)) {
    case 0: { bool v = g.chance(1, 2); lg << v; want += v ? "1" : "0"; break; }
    case 1: { auto v = static_cast<int16_t>(g.next()); lg << v; want += std::to_string(v); break; }
    case 2: { auto v = static_cast<uint16_t>(g.next()); lg << v; want += std::to_string(v); break; }
    case 3: { auto v = g.chance(1, 4) ? INT32_MIN : static_cast<int32_t>(g.next()); lg << v; want += std::to_string(v); break; }
    case 4: { auto v = static_cast<uint32_t>(g.next()); lg << v; want += std::to_string(v); break; }
    case 5: { auto v = g.chance(1, 4) ? INT64_MIN : static_cast<int64_t>(g.next()); lg << v; want += std::to_string(v); break; }
    case 6: { uint64_t v = g.chance(1, 4) ? UINT64_MAX : g.next(); lg << v; want += std::to_string(v); break; }
    case 7: { auto v = reinterpret_cast<const void *>(g.chance(1, 5) ? 0 : g.next()); lg << v; snprintf(b, sizeof b, "0x%" PRIXPTR, reinterpret_cast<uintptr_t>(v)); want += b; break; }
    case 8: { double v = g.chance(1, 2) ? static_cast<double>(static_cast<int64_t>(g.next())) / 1000003.0 : 1.0 / static_cast<double>(1 + g.below(100000)); lg << v; snprintf(b, sizeof b, "%.12g", v); want += b; break; }
    case 9: { auto v = static_cast<float>(g.range(-100000, 100000)) / 64.0f; lg << v; snprintf(b, sizeof b, "%.12g", static_cast<double>(v)); want += b; break; }
    case 10: { char v = static_cast<char>(' ' + g.below(90)); lg << v; want += v; break; }
    case 11: { const char *v = nullptr; lg << v; want += "(null)"; break; }
    case 12: { auto v = body_of(g.below(50), g.next(), g.below(60)); if (g.chance(1, 3)) v += "{} %s {0} %n"; lg << v.c_str(); want += v; break; }
    case 13: { auto v = body_of(g.below(50), g.next(), g.below(60)); if (g.chance(1, 3)) v += std::string("\0\x01{", 3); lg << v; want += v; break; }
    default: { auto m = body_of(3, g.next(), g.below(30)); auto c = static_cast<int32_t>(g.range(-5, 500)); lg << plain::Error{c, m}; want += std::to_string(c) + ": " + m; break; }
  }
}

static const char *kLevels[] = {"TRACE ", "DEBUG ", "INFO  ", "WARN  ", "ERROR "};

static void one_statement(Rng &g, uint64_t seed) {
  t_out.clear();
  std::string want;
  auto lvl = g.below(5);
  bool sys = g.chance(1, 6), large = g.chance(1, 8);
  int err = sys ? static_cast<int>(g.below(200)) : 0;
  time_t t0 = time(nullptr) - 1;
  std::source_location loc = std::source_location::current();
  auto ctx = cat("seed ", seed, " level ", lvl, sys ? " system error" : "", large ? " long" : "");
  auto fill = [&](plain::Logger &lg) {
    if (large) {
      auto parts = 1 + g.below(4);
      for (unsigned i = 0; i < parts; ++i) {
        auto v = body_of(7, g.next(), 3000 + g.below(3000));
        if (g.chance(1, 2)) lg << v; else lg << v.c_str();
        want += v;
      }
    } else {
      auto n = g.below(12);
      for (unsigned i = 0; i < n; ++i) piece(g, lg, want);
    }
  };
  if (sys) {
    errno = err;
    plain::Logger lg{false, loc};
    fill(lg);
  } else {
    plain::Logger lg{static_cast<plain::LogLevel>(lvl), loc};
    fill(lg);
  }
  time_t t1 = time(nullptr) + 1;
  if (t_out.size() != 1) { viol("log-line:count", cat(ctx, ": ", t_out.size(), " lines for one statement")); return; }
  parse_line(t_out[0], sys ? "ERROR " : kLevels[lvl], want, loc.function_name(), cat("-", loc.file_name(), ":", loc.line(), "\n"),
             t0, t1, !large, ctx, err);
  count(large ? "statements_long" : "statements");
}

static void statements(uint64_t seed) {
  Rng g{seed};
  capture();
  unsigned n = 1 + g.below(5);
  std::vector<std::thread> th;
  for (unsigned i = 0; i < n; ++i)
    th.emplace_back([seed, i, s = g.next()] {
      Rng r{s};
      for (int k = 0; k < 30; ++k) one_statement(r, seed * 100 + i);
      // times of several threads must not mix
      for (int k = 0; k < 60; ++k) {
        time_t t = static_cast<time_t>(r.below(4000000000ull));
        char b[64];
        struct tm tm {};
        gmtime_r(&t, &tm);
        strftime(b, sizeof b, "%FT%T", &tm);
        auto got = plain::Time::format(t);
        if (got != b) { viol("log-line:time-format", cat(got, " for ", b)); break; }
        count("times_formatted");
      }
    });
  // other threads come and go while statements are made
  if (g.chance(1, 2)) {
    for (unsigned i = 0; i < 3; ++i) { auto t = plain::thread::create("vf", [] { std::this_thread::yield(); }); t.join(); }
    count("threads_created_meanwhile", 3);
  }
  for (auto &t : th) t.join();
  eval();
  distinct(seed);
}

static void levels(uint64_t seed) {
  Rng g{seed};
  capture();
  t_out.clear();
  auto lv = g.below(6);
  plain::Logger::set_level(static_cast<plain::LogLevel>(lv));
  unsigned evaluated = 0;
  auto f = [&] { ++evaluated; return 1; };
  auto chk = [&](const char *n, unsigned at, bool always, uint32_t line) {
    unsigned want = always || lv <= at;
    if (t_out.size() != want || evaluated != want)
      viol("log-line:level", cat("level ", lv, " statement ", n, ": ", t_out.size(), " lines, evaluated ", evaluated));
    else if (want && t_out[0].find(cat("p19_log.cc:", line, "\n")) == std::string::npos)
      viol("log-line:location", t_out[0]);
    t_out.clear();
    evaluated = 0;
    count("level_checks");
  };
  LOG_TRACE << f(); chk("trace", 0, false, __LINE__);
  LOG_DEBUG << f(); chk("debug", 1, false, __LINE__);
  LOG_INFO << f(); chk("info", 2, false, __LINE__);
  LOG_WARN << f(); chk("warn", 3, true, __LINE__);
  LOG_ERROR << f(); chk("error", 4, true, __LINE__);
  LOG_SYSERR << f(); chk("syserr", 4, true, __LINE__);
  plain::Logger::set_level(plain::LogLevel::Info);
  if (plain::Logger::get_level() != plain::LogLevel::Info) viol("log-line:level", "level set is not the level read");
  // a trace message given as a view, formatted appends
  {
    std::string s = body_of(1, seed, 40);
    time_t t0 = time(nullptr) - 1;
    auto loc = std::source_location::current();
    { plain::Logger lg{std::string_view{s}.substr(0, 20), loc}; }
    if (t_out.size() != 1) viol("log-line:count", "trace view");
    else parse_line(t_out[0], "TRACE ", s.substr(0, 20), loc.function_name(), cat("-", loc.file_name(), ":", loc.line(), "\n"), t0, time(nullptr) + 1, true, "trace view");
    t_out.clear();
  }
  eval();
  distinct(lv);
}

// Printing to the console shows the text as it is.
static void printing(uint64_t seed) {
  Rng g{seed};
  capture();
  t_out.clear();
  std::stringstream ss;
  auto old = std::cout.rdbuf(ss.rdbuf());
  GLOBALS["log.print"] = true;
  auto text = body_of(2, seed, g.below(80));
  if (g.chance(2, 3)) text += g.chance(1, 2) ? "{}" : g.chance(1, 2) ? "{0:x} }{" : "%s%n";
  auto lvl = g.below(5);
  auto loc = std::source_location::current();
  { plain::Logger lg{static_cast<plain::LogLevel>(lvl), loc}; lg << text; }
  GLOBALS["log.print"] = false;
  std::cout.rdbuf(old);
  auto want = text + cat("-", loc.file_name(), ":", loc.line());
  if (ss.str().find(want) == std::string::npos) viol("log-line:printed", "printed " + ss.str().substr(0, 200) + " for " + text);
  if (t_out.size() != 1 || t_out[0].find(want) == std::string::npos) viol("log-line:content", "output with printing on");
  count("printed");
  eval();
  distinct(seed);
}

// A fatal statement is output and flushed before the process ends.
static void fatal(uint64_t seed) {
  auto file = (fs::current_path() / "fatal.txt").string();
  ::unlink(file.c_str());
  auto text = body_of(9, seed, 30);
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (p == 0) {
    signal(SIGABRT, SIG_DFL);
    if (!freopen("/dev/null", "w", stderr)) _exit(3);
    FILE *f = fopen(file.c_str(), "w");
    plain::Logger::set_output([f](const std::string_view &l) { fwrite(l.data(), 1, l.size(), f); });
    plain::Logger::set_flush([f] { fflush(f); });
    { LOG_SYSFATAL << text; }
    _exit(0);
  }
  int st{0};
  waitpid(p, &st, 0);
  std::ifstream in(file);
  std::stringstream ss;
  ss << in.rdbuf();
  if (!WIFSIGNALED(st)) viol("log-line:fatal-continues", cat("status ", st));
  if (ss.str().find("FATAL ") == std::string::npos || ss.str().find(text) == std::string::npos || ss.str().back() != '\n')
    viol("log-line:fatal-lost", "before the end only this was flushed: " + ss.str().substr(0, 200));
  ::unlink(file.c_str());
  count("fatals");
  eval();
  distinct(seed);
}

int main(int argc, char **argv) {
  init(argc, argv);
  uint64_t s = opt.seed * 1000003, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, const std::function<void(uint64_t)> &f) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  run("async", 1, [](uint64_t x) { async_case(x, false); });
  run("async_stop", 1, [](uint64_t x) { async_case(x, true); });
  run("async_burst", 1, async_burst);
  run("async_backlog", 1, async_backlog);
  run("async_flush", 1, async_flush);
  run("statements", 10, statements);
  run("levels", 10, levels);
  run("printing", 10, printing);
  run("fatal", 1, fatal);
  return finish();
}
