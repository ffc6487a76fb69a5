// P21 ini files, P22 text tables.
#include "common.h"
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
#include "plain/basic/logger.h"
#include "plain/basic/type/variable.h"
#include "plain/file/ini.h"
#include "plain/file/tab.h"
using namespace vf;
namespace fs = std::filesystem;

static void put(const std::string &f, const std::string &s) {
  std::ofstream o(f, std::ios::binary);
  o.write(s.data(), static_cast<std::streamsize>(s.size()));
}
static std::string get(const std::string &f) {
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
static std::string word(Rng &g, size_t lo, size_t hi, const char *extra = "") {
  static const std::string base = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-";
  std::string set = base + extra, s;
  auto n = g.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi));
  for (int64_t i = 0; i < n; ++i) s += set[g.below(set.size())];
  return s;
}

// ---------------------------------------------------------------- ini
struct Block {  // an exact-size buffer: what is written past it is seen
  std::unique_ptr<char[]> p;
  explicit Block(size_t n) : p{new char[n]} { memset(p.get(), 0x5a, n); }
};

static void ini_case(uint64_t seed) {
  Rng g{seed};
  std::map<std::string, std::map<std::string, std::string>> model;
  std::string text, section;
  bool large = g.chance(1, 10);
  auto nl = [&] { return g.chance(1, 3) ? "\r\n" : "\n"; };
  auto note = [&]() -> std::string { return g.chance(1, 5) ? std::string(g.below(4), g.chance(1, 2) ? ' ' : '\t') + ";" + word(g, 0, 40, " =[];\t") : ""; };
  std::vector<std::string> names;
  auto lines = large ? g.range(200, 3000) : g.range(0, 60);
  bool orphan = g.chance(1, 8), repeated = false, longline = false;
  for (int64_t i = 0; i < lines; ++i) {
    auto k = g.below(12);
    if (k == 0 || (section.empty() && !orphan)) {
      if (!names.empty() && g.chance(1, 6)) { section = g.pick(names); repeated = true; }
      else { section = word(g, 1, 20, " "); names.push_back(section); }
      model[section];
      text += "[" + section + "]" + note() + nl();
    } else if (k == 1) text += nl();
    else if (k == 2) text += ";" + word(g, 0, 50, " =[]\t") + nl();
    else if (k == 3) text += std::string(g.below(5), g.chance(1, 2) ? ' ' : '\t') + nl();
    else if (k == 4) text += word(g, 1, 30) + nl();  // neither a section nor a key
    else {
      auto key = g.chance(1, 8) ? std::string("dup") : word(g, 1, 16);
      if (key[0] == '[') key[0] = 'k';
      std::string v;
      switch (g.below(7)) {
        case 0: v = std::to_string(static_cast<int32_t>(g.next())); break;
        case 1: { char b[64]; snprintf(b, sizeof b, "%.4f", static_cast<double>(g.range(-1000000, 1000000)) / 97.0); v = b; break; }
        case 2: break;
        case 3: v = word(g, 400, 700, " =[]\"'"); longline = true; break;
        case 4: if (large && g.chance(1, 20)) { v = word(g, 2000, 9000, " ="); longline = true; break; } [[fallthrough]];
        default: v = word(g, 1, 60, " =[]{}%\\\"'/");
      }
      while (!v.empty() && v.back() == ' ') v.pop_back();
      if (!v.empty() && v.front() == ' ') v.front() = 'x';
      text += key + "=" + v + (g.chance(1, 6) ? std::string(g.below(3), ' ') : "") + note();
      if (i + 1 < lines || g.chance(2, 3)) text += nl();
      if (!section.empty()) model[section].emplace(key, v);  // the first one counts
      else count("ini_keys_outside");
    }
  }
  auto file = (fs::current_path() / "t.ini").string();
  put(file, text);
  auto ctx = cat("seed ", seed);
  plain::Ini ini;
  if (g.chance(1, 4)) {  // an object used before
    put(file + "0", "[a]\nb=1\n[zz]\nq=w\n");
    ini.open((file + "0").c_str());
    int32_t v{0};
    if (!ini.getint32_ifexist("a", "b", v) || v != 1) viol("ini:value", ctx + " first file");
    ini.close();
    count("ini_reopened");
  }
  if (!ini.open(file.c_str())) { viol("ini:not-opened", ctx); return; }
  if (ini.getdata()->size() != model.size()) viol("ini:sections", cat(ctx, ": ", ini.getdata()->size(), " sections for ", model.size()));
  for (auto &[s, keys] : model) {
    auto it = ini.getdata()->find(s);
    if (it == ini.getdata()->end()) { viol("ini:section-lost", ctx + " [" + s + "]"); return; }
    if (it->second->size() != keys.size()) { viol("ini:keys", cat(ctx, " [", s, "] has ", it->second->size(), " keys for ", keys.size())); return; }
    for (auto &[k, v] : keys) {
      auto where = ctx + " [" + s + "] " + k + "=" + v.substr(0, 60) + ": ";
      auto bad = [&](const std::string &got) { viol("ini:value", where + got.substr(0, 80)); };
      auto p = it->second->find(k);
      if (p == it->second->end() || !ini.getstring(p->second) || v != ini.getstring(p->second)) { bad("by position"); return; }
      size_t size = g.chance(1, 3) ? 1 + g.below(v.size() + 3) : v.size() + 1 + g.below(30);
      Block b{size};
      if (!ini.getstring_ifexist(s.c_str(), k.c_str(), b.p.get(), static_cast<int32_t>(size))) { bad("not found"); return; }
      if (std::string(b.p.get(), strnlen(b.p.get(), size)) != v.substr(0, size - 1)) { bad(std::string(b.p.get(), strnlen(b.p.get(), size))); return; }
      if (size <= v.size()) count("ini_cut_strings");
      Block c{size};
      if (!ini.getstring(s.c_str(), k.c_str(), c.p.get(), static_cast<int32_t>(size), "other") || strcmp(c.p.get(), v.substr(0, size - 1).c_str()) != 0) { bad("getstring"); return; }
      plain::variable_t var{false};
      ini.get(s.c_str(), k.c_str(), var);
      if (!std::holds_alternative<std::string>(var.value) || std::get<std::string>(var.value) != v) { bad("variable"); return; }
      if (ini.get<std::string>(s, k, "def") != v) { bad("get<string> " + ini.get<std::string>(s, k, "def")); return; }
      int32_t iv{-7};
      if (!ini.getint32_ifexist(s.c_str(), k.c_str(), iv) || iv != static_cast<int32_t>(atoi(v.c_str())) || ini.getint32(s.c_str(), k.c_str(), 5) != iv || ini.get<int32_t>(s, k, 9) != iv) { bad("int"); return; }
      float fv{-7}, want = static_cast<float>(atof(v.c_str()));
      auto same = [](float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); };
      if (!ini.getfloat_ifexist(s.c_str(), k.c_str(), fv) || !same(fv, want) || !same(ini.getfloat(s.c_str(), k.c_str(), 5), want) || !same(ini.get<float>(s, k, 9), want)) { bad("float"); return; }
      count("ini_values");
    }
  }
  // what is not there is reported so
  auto none = word(g, 1, 12) + "~";
  std::string s = model.empty() ? "x" : model.begin()->first;
  int32_t iv{77};
  float fv{77};
  char buf[8] = "keep";
  if (ini.getint32_ifexist(s.c_str(), none.c_str(), iv) || iv != 77 || ini.getfloat_ifexist(none.c_str(), "k", fv) || fv != 77 ||
      ini.getstring_ifexist(s.c_str(), none.c_str(), buf, 8) || strcmp(buf, "keep") != 0 || ini.get<int32_t>(s, none, 41) != 41 ||
      ini.get<std::string>(none, none, "dflt") != "dflt" || ini.getint32(s.c_str(), none.c_str(), -3) != -3)
    viol("ini:absent", ctx);
  auto d = word(g, 0, 20);
  Block b{6};
  if (ini.getstring(s.c_str(), none.c_str(), b.p.get(), 6, d.c_str()) || std::string(b.p.get(), strnlen(b.p.get(), 6)) != d.substr(0, 5)) viol("ini:absent-string", ctx);
  if (g.chance(1, 30)) {
    auto huge = word(g, 900, 3000);
    if (ini.getint32(huge.c_str(), huge.c_str(), 12) != 12) viol("ini:absent", "long names");
    count("ini_long_names");
  }
  ini.close();
  if (!ini.getdata()->empty() || ini.getint32_ifexist(s.c_str(), none.c_str(), iv)) viol("ini:closed", ctx);
  if (repeated) count("ini_repeated_sections");
  if (longline) count("ini_long_lines");
  eval();
  distinct(hash_str(text));
}

static void ini_hostile(uint64_t seed) {
  Rng g{seed};
  std::string t;
  auto n = g.below(g.chance(1, 10) ? 20000 : 400);
  static const char set[] = "[]=;\n\r \tab0\\\"\0";
  for (uint64_t i = 0; i < n; ++i) t += g.chance(1, 12) ? static_cast<char>(g.next()) : set[g.below(sizeof set - 1)];
  auto file = (fs::current_path() / "h.ini").string();
  put(file, t);
  plain::Ini ini;
  if (!ini.open(file.c_str())) viol("ini:not-opened", cat("hostile seed ", seed));
  for (auto &[s, keys] : *ini.getdata())
    for (auto &[k, pos] : *keys) {
      auto p = ini.getstring(pos);
      if (!p) { viol("ini:no-value", cat("seed ", seed)); continue; }
      auto len = strlen(p);
      size_t size = 1 + g.below(len + 2);
      Block b{size};
      int32_t iv;
      float fv;
      if (s.find('\0') != std::string::npos || k.find('\0') != std::string::npos) continue;
      if (!ini.getstring_ifexist(s.c_str(), k.c_str(), b.p.get(), static_cast<int32_t>(size)) || memchr(b.p.get(), 0, size) == nullptr ||
          !ini.getint32_ifexist(s.c_str(), k.c_str(), iv) || !ini.getfloat_ifexist(s.c_str(), k.c_str(), fv))
        viol("ini:hostile-value", cat("seed ", seed));
      count("ini_hostile_values");
    }
  eval();
  distinct(hash_str(t));
}

// ---------------------------------------------------------------- tables
using Tab = plain::Tab;
struct Cell { int type; int32_t i{0}; float f{0}; std::string s; };

static bool check_tab(Rng &g, Tab &t, const std::vector<int> &types, const std::vector<std::string> &names,
                      const std::vector<std::vector<Cell>> &rows, const std::string &ctx) {
  auto F = static_cast<int32_t>(types.size());
  auto R = static_cast<int32_t>(rows.size());
  auto bad = [&](const std::string &k, const std::string &d) { viol("tab:" + k, ctx + " " + d); return false; };
  if (t.get_field_number() != F || t.get_record_number() != R)
    return bad("size", cat(t.get_record_number(), "x", t.get_field_number(), " for ", R, "x", F));
  for (int32_t c = 0; c < F; ++c)
    if (t.get_fieldtype(c) != types[c] || names[c] != t.get_fieldname(c) || t.get_fieldindex(names[c].c_str()) != c)
      return bad("columns", cat("column ", c));
  if (t.get_fieldindex("no such~") != -1) return bad("columns", "unknown name found");
  auto eq = [&](const Tab::field_data *d, const Cell &c) {
    switch (c.type) {
      case 0: return d->int_value == c.i;
      case 1: return d->float_value == c.f;
      default: return d->string_value && c.s == d->string_value;
    }
  };
  for (int32_t r = 0; r < R; ++r) {
    if (R > 2000 && r > 100 && r < R - 100 && (r & 63) && (r < 65500 || r > 65600)) continue;
    for (int32_t c = 0; c < F; ++c) {
      auto d = t.search_position(r, c);
      if (!d || !eq(d, rows[r][c])) return bad("cell", cat("row ", r, " column ", c, " type ", types[c]));
      if (g.chance(1, 4)) {
        auto e = t.get_fielddata(r, names[c].c_str());
        if (e != d) return bad("cell-by-name", cat("row ", r, " column ", names[c]));
      }
      count("tab_cells");
    }
  }
  // outside of the table there is nothing
  for (auto [r, c] : std::initializer_list<std::pair<int32_t, int32_t>>{{R, 0}, {-1, 0}, {0, F}, {R + 5, 3}, {0, -1}, {R - 1, F}, {INT32_MAX / (F + 1), 0}})
    if (t.search_position(r, c)) return bad("outside", cat("row ", r, " column ", c, " of ", R, "x", F));
  if (t.get_fielddata(0, "no such~")) return bad("outside", "unknown name");
  if (t.get_fieldname(F) || t.get_fieldname(-1)) return bad("outside", "field name");
  count("tab_outside", 10);
  // index by the first column
  auto index_ok = [&](int32_t col) {
    std::map<int32_t, int32_t> first;
    for (int32_t r = 0; r < R; ++r) first.emplace(rows[r][col].i, r);
    for (auto &[k, r] : first) {
      if (first.size() > 300 && (r % 37)) continue;
      auto d = t.search_index_equal(k);
      if (!d || d != t.search_position(r, 0)) return bad("index", cat("value ", k, " of column ", col, " row ", r));
      count("tab_index_lookups");
    }
    for (int i = 0; i < 5; ++i) {
      auto k = static_cast<int32_t>(g.next());
      if (!first.count(k) && t.search_index_equal(k)) return bad("index", cat("value ", k, " is not in column ", col));
    }
    return true;
  };
  if (types[0] == 0 && !index_ok(0)) return false;
  if (R) {
    for (int i = 0; i < 6; ++i) {
      auto c = static_cast<int32_t>(g.below(F)), r = static_cast<int32_t>(g.below(R));
      auto &cell = rows[r][c];
      int32_t want = 0;
      while (true) {
        auto &x = rows[want][c];
        if (x.type == 0 ? x.i == cell.i : x.type == 1 ? x.f == cell.f : x.s == cell.s) break;
        ++want;
      }
      Tab::field_data v;
      if (cell.type == 0) v.int_value = cell.i; else if (cell.type == 1) v.float_value = cell.f; else v.string_value = cell.s.c_str();
      if (cell.type == 1 && std::isnan(cell.f)) continue;
      if (t.search_first_column_equal(c, v) != t.search_position(want, 0)) return bad("search", cat("column ", c, " row ", want));
      count("tab_searches");
    }
    Tab::field_data v;
    v.string_value = "~none~";
    for (int32_t c = 0; c < F; ++c)
      if (types[c] == 2 && t.search_first_column_equal(c, v)) return bad("search", "absent string found");
    v.int_value = 3;
    if (t.search_first_column_equal(F, v) || t.search_first_column_equal(-1, v)) return bad("search", "column outside");
    for (int32_t c = 1; c < F; ++c)
      if (types[c] == 0 && g.chance(1, 2)) {
        t.create_index(c);
        if (!index_ok(c)) return false;
        count("tab_other_index");
        break;
      }
  }
  return true;
}

static void tab_case(uint64_t seed, bool huge) {
  Rng g{seed};
  auto F = huge ? 2 : g.range(1, 12);
  std::vector<int> types;
  std::vector<std::string> names;
  std::set<std::string> used;
  for (int64_t i = 0; i < F; ++i) {
    types.push_back(static_cast<int>(i == 0 && g.chance(2, 3) ? 0 : g.below(3)));
    std::string n;
    do { n = word(g, 1, g.chance(1, 8) ? 90 : 12, "%sdn"); } while (!used.insert(n).second);
    names.push_back(n);
  }
  if (huge) types = {0, 2};
  auto eol = g.chance(1, 3) ? "\r\n" : "\n";
  std::string text;
  static const char *tn[] = {"INT", "FLOAT", "STRING"};
  for (int64_t i = 0; i < F; ++i) text += std::string(i ? "\t" : "") + tn[types[i]];
  text += eol;
  for (int64_t i = 0; i < F; ++i) text += std::string(i ? "\t" : "") + names[i];
  text += eol;
  std::vector<std::vector<Cell>> rows;
  auto R = huge ? g.range(65530, 66500) : g.chance(1, 12) ? g.range(500, 3000) : g.range(0, 40);
  std::vector<std::string> pool;
  bool unique = g.chance(2, 3);
  std::set<int32_t> ids;
  for (int64_t r = 0; r < R; ++r) {
    if (!huge && g.chance(1, 12)) { text += g.chance(1, 2) ? "#" + word(g, 0, 30, "\t") + eol : std::string(eol); count("tab_skipped_lines"); }
    if (!huge && g.chance(1, 20)) { text += "\t" + word(g, 0, 9) + eol; count("tab_skipped_lines"); }  // no first cell: not a record
    std::vector<Cell> row;
    auto given = g.chance(1, 10) ? g.range(1, F) : F;
    std::string line;
    for (int64_t c = 0; c < F; ++c) {
      Cell x{types[c]};
      if (c < given) {
        std::string s;
        switch (types[c]) {
          case 0:
            x.i = g.chance(1, 20) ? (g.chance(1, 2) ? INT32_MIN : INT32_MAX) : static_cast<int32_t>(huge || unique ? g.range(-1000000, 1000000) : g.range(-50, 50));
            if (c == 0 && (unique || huge)) while (!ids.insert(x.i).second) x.i = static_cast<int32_t>(g.next());
            s = std::to_string(x.i);
            break;
          case 1: { char b[64]; snprintf(b, sizeof b, "%.*f", static_cast<int>(g.below(6)), static_cast<double>(g.range(-10000000, 10000000)) / 1000.0); s = b; x.f = static_cast<float>(atof(b)); break; }
          default:
            if (!pool.empty() && g.chance(1, 3)) s = g.pick(pool);
            else { s = word(g, c == 0 ? 1 : 0, g.chance(1, 15) ? (g.chance(1, 12) ? (g.chance(1, 3) ? 70000 : 9000) : 600) : 20, " %={}\"'#"); if (c == 0 && s[0] == '#') s[0] = 'x'; pool.push_back(s); }
            if (c == 0 && (s.empty() || s[0] == '#')) s = "f" + s;
            x.s = s;
        }
        line += (c ? "\t" : "") + s;
      }
      row.push_back(x);
    }
    if (given == F && g.chance(1, 12)) line += "\t" + word(g, 0, 5) + "\textra";
    if (line.size() > 10000) count("tab_long_lines");
    rows.push_back(row);
    text += line;
    if (r + 1 < R || g.chance(2, 3)) text += eol;
  }
  auto ctx = cat("seed ", seed, " ", rows.size(), "x", F);
  auto file = (fs::current_path() / "t.txt").string();
  Tab t{static_cast<uint32_t>(seed)};
  if (g.chance(1, 5)) {  // an object used before
    std::string other = "INT\tSTRING\nk\tv\n1\tone\n2\ttwo\n";
    if (!t.open_from_memory(other.data(), other.data() + other.size())) viol("tab:not-opened", ctx + " first content");
    count("tab_reopened");
  }
  if (g.chance(1, 2)) {
    put(file, text);
    if (!t.open_from_txt(file.c_str())) { viol("tab:not-opened", ctx); return; }
  } else {
    Block b{text.size()};  // no terminator
    memcpy(b.p.get(), text.data(), text.size());
    if (!t.open_from_memory(b.p.get(), b.p.get() + text.size(), "memory")) { viol("tab:not-opened", ctx + " memory"); return; }
  }
  if (t.get_id() != static_cast<uint32_t>(seed)) viol("tab:id", ctx);
  if (!check_tab(g, t, types, names, rows, ctx)) return;
  if (!huge || g.chance(1, 2)) {
    auto f2 = (fs::current_path() / "s.txt").string();
    if (!t.save_totext(f2.c_str())) { viol("tab:not-saved", ctx); return; }
    Tab u{7};
    if (!u.open_from_txt(f2.c_str())) { viol("tab:saved-not-opened", ctx); return; }
    check_tab(g, u, types, names, rows, ctx + " saved");
    count("tab_saved");
    auto f3 = (fs::current_path() / "s.bin").string();
    if (!t.save_tobinary(f3.c_str())) { viol("tab:not-saved", ctx + " binary"); return; }
    Tab w{8};
    if (g.chance(1, 4)) w.open_from_txt(f2.c_str());
    if (g.chance(1, 2)) {
      if (!w.open_from_txt(f3.c_str())) { viol("tab:saved-not-opened", ctx + " binary"); return; }
    } else {
      auto d = get(f3);
      auto b = std::make_unique<Block>(d.size());
      memcpy(b->p.get(), d.data(), d.size());
      if (!w.open_from_memory(b->p.get(), b->p.get() + d.size())) { viol("tab:saved-not-opened", ctx + " binary memory"); return; }
      b.reset();
    }
    check_tab(g, w, types, names, rows, ctx + " saved binary");
    count("tab_saved_binary");
  }
  count("tab_records", rows.size());
  if (huge) count("tab_huge");
  eval();
  distinct(hash_str(text));
}

static void tab_hostile(uint64_t seed) {
  Rng g{seed};
  std::string t;
  if (g.chance(4, 5)) {
    auto F = g.range(1, 6);
    static const char *tn[] = {"INT", "FLOAT", "STRING"};
    for (int64_t i = 0; i < F; ++i) t += std::string(i ? "\t" : "") + tn[g.below(3)];
    t += "\n";
    if (g.chance(4, 5)) for (int64_t i = 0; i < F; ++i) t += (i ? "\t" : "") + word(g, 1, 5);
    t += "\n";
  }
  auto n = g.below(g.chance(1, 10) ? 40000 : 500);
  static const char set[] = "\t\t\t\n\r #ab01.-\"%";
  bool wide = g.chance(1, 6);
  for (uint64_t i = 0; i < n; ++i) t += g.chance(1, 15) ? static_cast<char>(g.next()) : wide ? 'w' : set[g.below(sizeof set - 1)];
  bool binary = g.chance(1, 3);
  if (binary) {  // the binary form of it, damaged
    Tab o{2};
    auto f = (fs::current_path() / "hs.bin").string();
    t += "\n7\tx\ty\n";
    if (!o.open_from_memory(t.data(), t.data() + t.size()) || !o.save_tobinary(f.c_str())) return;
    t = get(f);
    static const uint32_t odd[] = {0, 1, 2, 3, 7, 0xffffffff, 0x7fffffff, 0x80000000, 0x10000000, 0x20000001, 1000};
    auto k = g.below(4);
    for (uint64_t i = 0; i < k && t.size() > 24; ++i) {
      auto where = g.chance(1, 2) ? 4 * g.below(4) : g.below(t.size() - 4);
      uint32_t v;
      memcpy(&v, &t[where], 4);
      v = g.chance(1, 2) ? odd[g.below(std::size(odd))] : v + static_cast<uint32_t>(g.range(-3, 3));
      if (where >= 4 || g.chance(1, 9)) memcpy(&t[where], &v, 4);
    }
    if (g.chance(1, 4)) t.resize(g.below(t.size() + 1));
    if (g.chance(1, 8)) t.append(g.below(40), static_cast<char>(g.next()));
    count("tab_hostile_binary");
  }
  Block b{t.size()};
  memcpy(b.p.get(), t.data(), t.size());
  Tab tab{1};
  bool ok = tab.open_from_memory(b.p.get(), b.p.get() + t.size());
  if (ok) {
    auto F = tab.get_field_number(), R = tab.get_record_number();
    uint64_t h{0};
    for (int32_t r = 0; r < R; ++r)
      for (int32_t c = 0; c < F; ++c) {
        auto d = tab.search_position(r, c);
        if (!d) { viol("tab:hostile-cell", cat("seed ", seed, " row ", r, " of ", R)); return; }
        if (tab.get_fieldtype(c) == 2) h += strlen(d->string_value); else h += d->int_value;
      }
    for (int32_t c = -1; c <= F; ++c) { auto p = tab.get_fieldname(c); if (p) h += strlen(p); }
    auto f2 = (fs::current_path() / "hs.txt").string();
    if (h == 1) progress();
    tab.save_totext(f2.c_str());
    tab.save_tobinary(f2.c_str());
    if (binary) count("tab_hostile_binary_opened");
    count("tab_hostile_opened");
  } else {
    if (tab.get_record_number() || tab.search_position(0, 0) || tab.search_index_equal(0) || tab.save_tobinary("hs.none")) viol("tab:hostile-left", cat("seed ", seed, " a refused table has records"));
    count("tab_hostile_refused");
    if (binary) count("tab_hostile_binary_refused");
  }
  eval();
  distinct(hash_str(t));
}

int main(int argc, char **argv) {
  init(argc, argv);
  plain::Logger::set_output([](const std::string_view &) {});
  std::cout.setstate(std::ios::badbit);  // reports of the library's own assertions
  uint64_t s = opt.seed * 1000003, n = opt.scale;
  auto run = [&](const char *name, uint64_t cases, const std::function<void(uint64_t)> &f) {
    if (!selected(name)) return;
    scenario(name);
    for (uint64_t i = 0; i < cases * n && viol_count() < 20; ++i) { progress(); f(s + i); }
  };
  run("ini", 10, ini_case);
  run("ini_hostile", 20, ini_hostile);
  run("tab", 10, [](uint64_t x) { tab_case(x, false); });
  run("tab_huge", 1, [](uint64_t x) { tab_case(x, true); });
  run("tab_hostile", 20, tab_hostile);
  return finish();
}
