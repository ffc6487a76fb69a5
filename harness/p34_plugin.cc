// P34 plugins: libraries and the manager of them. P35 script environments.
#include "common.h"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <unistd.h>
#include "plain/basic/global.h"
#include "plain/engine/kernel.h"
#include "plain/file/library.h"
#include "plain/script/interface.h"
#include "plain/script/factory.h"
using namespace vf;
namespace fs = std::filesystem;
using plain::Library;
using plain::LibraryManager;

// ---- the plugins: one built file per stem, copied wherever a case wants them

static const char *kSource = R"(
struct seen { int calls; void *kernel; void *params; };
struct seen opened_own, opened_alias;
int value = VALUE;
int answer(void) { return VALUE; }
int _under(void) { return VALUE + 1; }
int both(void) { return VALUE + 2; }
int _both(void) { return VALUE + 3; }
int UNIQ(void) { return VALUE; }
#ifdef OPENS
void OPENS(void *k, void *p) { opened_own.calls++; opened_own.kernel = k; opened_own.params = p; }
#endif
void plainopen_other(void *k, void *p) { opened_alias.calls++; opened_alias.kernel = k; opened_alias.params = p; }
)";
struct Seen { int calls; void *kernel, *params; };
struct Stem { const char *name, *opens; int value; };
static const Stem kStems[] = {{"alpha", "plainopen_alpha", 100}, {"beta", "plainopen_beta", 200}, {"gamma", nullptr, 300}, {"libdelta", "plainopen_libdelta", 400}, {"ep.so_x", "plainopen_ep", 500}};
static constexpr unsigned kNStems = 5;
static fs::path g_base, g_store;
static std::string uniq(unsigned s) { return cat("uniq_", s); }

static void build_plugins() {
  g_base = fs::current_path();
  g_store = g_base / "store";
  fs::create_directories(g_store);
  std::ofstream{g_store / "p.c"} << kSource;
  for (unsigned i = 0; i < kNStems; ++i) {
    std::string cc;
    for (auto c : {"gcc", "clang", "cc"}) {
      auto cmd = cat(c, " -shared -fPIC -Wl,-Bsymbolic -O0 -DVALUE=", kStems[i].value, " -DUNIQ=", uniq(i), kStems[i].opens ? cat(" -DOPENS=", kStems[i].opens) : std::string{}, " -o ", (g_store / cat("s", i)).string(), " ", (g_store / "p.c").string(), " 2>/dev/null");
      if (std::system(cmd.c_str()) == 0) { cc = c; break; }
    }
    if (cc.empty()) harness_error("no compiler makes a library");
  }
}

// What a file of a case is.
struct File { int stem{-1}; };  // -1: there, but no library
struct World {
  fs::path root;
  std::map<std::string, File> files;  // by full path
  void put(const fs::path &p, int stem, Rng &g) {
    fs::create_directories(p.parent_path());
    if (files.contains(p.string())) return;
    files[p.string()] = {stem};
    if (stem >= 0) fs::copy_file(g_store / cat("s", stem), p);
    else if (g.chance(1, 3)) fs::create_directory(p);
    else std::ofstream{p} << (g.chance(1, 2) ? "no library" : "\x7f" "ELF");
  }
  const File *at(const std::string &p) const { auto it = files.find(p); return it == files.end() ? nullptr : &it->second; }
};
static unsigned g_world = 0;
static World new_world() {
  World w;
  w.root = g_base / cat("w", g_world++);
  fs::create_directories(w.root);
  return w;
}
static std::string canon(const std::string &p) { std::error_code e; auto c = fs::canonical(p, e); return e ? p : c.string(); }
static bool mapped(const std::string &p) {
  std::ifstream m{"/proc/self/maps"};
  std::string l;
  while (std::getline(m, l)) if (l.size() > p.size() && l.compare(l.size() - p.size(), p.size(), p) == 0) return true;
  return false;
}
static std::string file_of(void *sym) { Dl_info i{}; return sym && dladdr(sym, &i) && i.dli_fname ? canon(i.dli_fname) : std::string{}; }

static std::string suffixed(const std::string &n) {
  auto p = n.rfind(".so");
  if (p == std::string::npos) return n + ".so";
  if (p + 3 == n.size() || n[p + 3] == '.') return n;
  return n + ".so";
}
static std::optional<std::string> find_in(const World &w, const std::string &dir, const std::string &file, bool tryprefix) {
  auto p = (fs::path{dir} / file).string();
  if (auto f = w.at(p); f && f->stem >= 0) return p;
  if (!tryprefix || file.substr(0, 3) == "lib") return {};
  p = (fs::path{dir} / ("lib" + file)).string();
  if (auto f = w.at(p); f && f->stem >= 0) return p;
  return {};
}
static std::string a_name(Rng &g, int *stem = nullptr) {
  auto s = g.below(kNStems);
  if (stem) *stem = s;
  static const char *tails[] = {"", "", "", ".so", ".so", ".so.1", ".so.2.3", ".sox", ".v2"};
  return std::string{kStems[s].name} + tails[g.below(9)];
}
// A name that gives one of the files there are, more or less.
static std::string near_name(const World &w, Rng &g, std::string *dir = nullptr) {
  if (w.files.empty() || g.chance(1, 4)) return a_name(g);
  auto it = std::next(w.files.begin(), g.below(w.files.size()));
  fs::path p{it->first};
  if (dir) *dir = p.parent_path().string() + "/";
  auto n = p.filename().string();
  if (n.starts_with("lib") && n.find("delta") != 3 && g.chance(2, 3)) n = n.substr(3);
  if (n.ends_with(".so") && g.chance(1, 2)) n.resize(n.size() - 3);
  return n;
}
static void fill(World &w, const std::vector<std::string> &dirs, Rng &g, unsigned n) {
  for (unsigned i = 0; i < n; ++i) {
    int stem;
    auto name = suffixed(a_name(g, &stem));
    if (g.chance(1, 2)) name = "lib" + name;
    w.put(fs::path{g.chance(1, 20) ? w.root.string() : dirs[g.below(dirs.size())]} / name, g.chance(1, 5) ? -1 : stem, g);
  }
}
// What is loaded of the process: how often, and if for all to see.
struct Loads {
  std::map<std::string, int> refs;
  std::set<std::string> global;
  void add(const std::string &f, bool glb) { refs[f]++; if (glb) global.insert(f); }
  void drop(const std::string &f) { if (--refs[f] == 0) { refs.erase(f); global.erase(f); } }
};
static void check_loads(const World &w, const Loads &l) {
  std::set<int> seen;
  for (auto &[p, f] : w.files) {
    if (f.stem < 0) continue;
    bool in = l.refs.contains(p);
    if (mapped(p) != in) viol(in ? "library:not-loaded" : "library:still-loaded", p.substr(w.root.string().size()));
    if (l.global.contains(p)) seen.insert(f.stem);
  }
  static void *self = dlopen(nullptr, RTLD_NOW);  // RTLD_DEFAULT would keep what it finds
  for (unsigned i = 0; i < kNStems; ++i) {
    bool there = dlsym(self, uniq(i).c_str()) != nullptr;
    if (there != seen.contains(i)) viol("library:visibility", cat("a symbol is ", there ? "" : "not ", "seen by all, expected ", seen.contains(i)));
  }
}
static void check_symbols(Library &lib, const std::string &file, int stem, Rng &g) {
  int v = kStems[stem].value;
  auto fn = [&](const char *n, bool again, int want) {
    auto p = lib.resolve(n, again);
    if (!want) { if (p) viol("library:resolve-none", n); else if (lib.errorstr().empty()) viol("library:no-error", cat("resolve ", n)); return; }
    if (!p) { viol("library:resolve", n); return; }
    if (auto f = file_of(p); f != canon(file)) viol("library:wrong-file", cat(n, " of ", f));
    if (reinterpret_cast<int (*)()>(p)() != want) viol("library:resolve", cat(n, " another one"));
    if (!lib.errorstr().empty()) viol("library:error-kept", cat("after resolve ", n, ": ", lib.errorstr()));
  };
  fn("answer", g.chance(1, 2), v);
  fn("under", true, v + 1);
  fn("under", false, 0);
  fn("_under", g.chance(1, 2), v + 1);
  fn("both", g.chance(1, 2), v + 2);
  fn("no_such_symbol_there", g.chance(1, 2), 0);
  fn(uniq(stem).c_str(), true, v);
  auto p = static_cast<int *>(lib.resolve("value"));
  if (!p || *p != v) viol("library:resolve", "value");
  count("symbols", 8);
}

static void library_case(Rng &g) {
  auto w = new_world();
  std::vector<std::string> dirs{(w.root / "a/").string(), (w.root / "b/").string(), (w.root / "c c/").string()};
  fill(w, dirs, g, g.range(2, 12));
  struct One { Library lib; std::string dir, name; std::optional<std::string> file; };
  std::vector<std::unique_ptr<One>> libs;
  Loads loads;
  for (unsigned i = 0, n = g.range(1, 3); i < n; ++i) libs.push_back(std::make_unique<One>());
  uint64_t h = libs.size();
  unsigned steps = g.range(4, 25);
  bool cd = false;
  auto cwd = fs::current_path();
  for (unsigned k = 0; k < steps && viol_count() == 0; ++k) {
    auto &o = *libs[g.below(libs.size())];
    unsigned op = g.below(7);
    h = hash_mix(h, op);
    switch (op) {
      case 0: case 1: {
        std::string near;
        auto n = near_name(w, g, &near);
        if (!near.empty() && g.chance(2, 3)) { o.dir = near; o.lib.set_path(near); }
        o.lib.set_filename(n);
        o.name = suffixed(n);
        if (o.lib.filename() != o.name) viol("library:filename", cat(n, " became ", o.lib.filename(), " expected ", o.name));
        count("names");
        h = hash_str(n, h);
        if (!near.empty()) goto load;
        [[fallthrough]];
      }
      case 2:
        o.dir = dirs[g.below(dirs.size())];
        if (g.chance(1, 10)) o.dir = (w.root / "none/").string();
        o.lib.set_path(g.chance(1, 4) ? o.dir.substr(0, o.dir.size() - 1) : o.dir);
        if (g.chance(1, 6)) {  // none: where the process is
          o.lib.set_path("");
          if (!cd) { fs::current_path(w.root); cd = true; }
          o.dir = w.root.string();
          count("current_directory");
        }
        [[fallthrough]];
      case 3: load: {
        if (o.name.empty() || o.dir.empty() || (o.dir == w.root.string() && !cd)) break;
        bool tp = g.chance(3, 4), glb = g.chance(1, 3);
        auto want = find_in(w, o.dir, o.name, tp);
        bool r = o.lib.load(tp, glb);
        if (o.file) loads.drop(*o.file);
        o.file = want;
        if (want) loads.add(*want, glb);
        if (r != want.has_value()) { viol(r ? "library:loaded-none" : "library:not-loaded", cat(o.name, " try prefix ", tp, ": ", o.lib.errorstr())); return; }
        if (r) {
          if (!o.lib.errorstr().empty()) viol("library:error-kept", o.lib.errorstr());
          o.name = fs::path{*want}.filename().string();
          if (o.lib.filename() != o.name) viol("library:filename", cat("loaded ", o.lib.filename(), " expected ", o.name));
          check_symbols(o.lib, *want, w.at(*want)->stem, g);
          count(glb ? "loads_global" : "loads");
        } else {
          if (o.lib.filename() != o.name) viol("library:filename", cat("not loaded, ", o.lib.filename(), " expected ", o.name));
          auto f = w.at((fs::path{o.dir} / o.name).string());
          if (f && o.lib.errorstr().empty()) viol("library:no-error", "a file that is no library");
          count(f ? "no_library" : "no_file");
        }
        break;
      }
      case 4: case 5: {
        if (!o.lib.unload()) viol("library:unload", o.lib.errorstr());
        if (o.file) { loads.drop(*o.file); count("unloads"); }
        o.file.reset();
        if (o.lib.resolve("answer") || o.lib.resolve("malloc")) viol("library:resolve-unloaded", o.name);
        break;
      }
      default: {
        for (auto &p : libs) if (p.get() == &o) { auto f = o.file; p = std::make_unique<One>(); if (f) { loads.drop(*f); count("destroyed_loaded"); } break; }
      }
    }
    for (auto &p : libs) if (p->lib.isloaded() != p->file.has_value()) viol("library:isloaded", cat(p->lib.isloaded(), " after step ", op));
    check_loads(w, loads);
    eval();
  }
  libs.clear();
  check_loads(w, {});
  fs::current_path(cwd);
  fs::remove_all(w.root);
  distinct(h);
}

static void manager_case(Rng &g) {
  std::string all[] = {"alpha", "beta", "gamma", "libdelta", "ep", "other", "other", "alpha.so", "gamma.v2", "beta.so.1", "none"};
  auto w = new_world();
  std::vector<std::string> own{(w.root / "a/").string(), (w.root / "b").string(), (w.root / "c c/").string()};
  std::vector<std::string> here{(g_base / "").string(), (g_base / "plugins/").string()};
  auto dirs = own;
  bool defaults = g.chance(1, 3);
  if (defaults) { dirs.push_back(here[0]); dirs.push_back(here[1]); dirs.push_back(here[1]); }
  fill(w, dirs, g, g.range(3, 14));
  auto m = std::make_unique<LibraryManager>();
  std::vector<std::string> paths;
  {
    auto p = m->get_searchpaths();
    bool cwd = false, base = false, plug = false;
    for (auto &d : p) { cwd |= d == "./"; auto c = fs::path{d}.lexically_normal().string(); base |= c == here[0]; plug |= c == here[1]; }
    if (!cwd || !base || !plug) viol("manager:default-paths", cat(cwd, base, plug));
    if (std::set<std::string>(p.begin(), p.end()).size() != p.size()) viol("manager:default-paths", "doubled");
    if (defaults) paths = p;
    else { paths = {own[0]}; m->set_searchpaths(paths); }
  }
  std::map<std::string, std::vector<std::string>> names;
  struct Open { std::string file; int params; };
  std::map<std::string, Open> open;
  Loads loads;
  for (auto &n : {all[0], all[1], all[2], all[3], all[8]}) if (g.chance(1, 2)) for (unsigned i = 0; i < kNStems; ++i) if (n.starts_with(kStems[i].name)) w.put(fs::path{dirs[g.below(dirs.size())]} / ((g.chance(1, 2) ? "lib" : "") + suffixed(n)), i, g);
  plain::variable_array_t args[4];
  args[1].push_back(plain::variable_t{7});
  auto dir_of = [&](const std::string &p) { return p == "./" ? g_base.string() : p; };
  uint64_t h = 3;
  unsigned steps = g.range(5, 30);
  for (unsigned k = 0; k < steps && viol_count() == 0; ++k) {
    unsigned op = g.below(12);
    auto name = all[g.below(std::size(all))];
    h = hash_str(name, hash_mix(h, op));
    switch (op) {
      case 0: {
        std::vector<std::string> add{own[g.below(3)], own[g.below(3)]};
        m->add_searchpaths(add);
        for (auto &a : add) if (std::find(paths.begin(), paths.end(), a) == paths.end()) paths.push_back(a);
        break;
      }
      case 1: {
        if (!g.chance(1, 3)) break;
        std::vector<std::string> rm{own[g.below(3)]};
        m->remove_searchpaths(rm);
        std::erase(paths, rm[0]);
        break;
      }
      case 2: {
        std::vector<std::string> ns;
        for (unsigned i = 0, n = g.range(0, 3); i < n; ++i) ns.push_back(near_name(w, g));
        m->set_librarynames(name, ns);
        names[name] = ns;
        break;
      }
      case 3: {
        auto it = names.find(name);
        if (it == names.end() || it->second.empty()) { if (g.chance(1, 2)) m->remove_librarynames("nobody", {"x"}); break; }
        auto gone = it->second[g.below(it->second.size())];
        m->remove_librarynames(name, {gone, "never"});
        std::erase(it->second, gone);
        count("names_removed");
        break;
      }
      case 4: case 5: {
        bool was = open.contains(name);
        if (!m->unload(name)) viol("manager:unload", name);
        if (was) { loads.drop(open[name].file); open.erase(name); count("unloads"); } else count("unloads_of_none");
        break;
      }
      default: {
        bool glb = g.chance(1, 3);
        int a = g.below(4);
        auto was = open.contains(name);
        std::optional<std::string> want;
        if (!was) {
          auto ns = names.contains(name) && !names[name].empty() ? names[name] : std::vector<std::string>{name};
          for (auto &n : ns) {
            for (auto &p : paths) if ((want = find_in(w, dir_of(p), suffixed(n), true))) break;
            if (want) break;
          }
          if (ns.size() > 1) count("several_names");
        }
        // What was called before, if the file is in already under another name.
        std::optional<Seen> before_own, before_alias;
        if (want && loads.refs.contains(*want)) {
          auto hd = dlopen(want->c_str(), RTLD_NOW | RTLD_NOLOAD);
          before_own = *static_cast<Seen *>(dlsym(hd, "opened_own"));
          before_alias = *static_cast<Seen *>(dlsym(hd, "opened_alias"));
          dlclose(hd);
          count("loaded_twice");
        }
        bool r = m->load(name, glb, args[a]);
        if (was) { if (!r) viol("manager:load-again", name); count("loads_again"); break; }
        if (r != want.has_value()) { viol(r ? "manager:loaded-none" : "manager:not-loaded", cat(name, " expected ", want ? want->substr(w.root.string().size()) : "none", " paths ", paths.size())); break; }
        if (!r) { count("load_failed"); break; }
        open[name] = {*want, a};
        loads.add(*want, glb);
        auto lib = m->get(name);
        if (!lib) break;
        auto stem = w.at(*want)->stem;
        check_symbols(*lib, *want, stem, g);
        auto so = *static_cast<Seen *>(lib->resolve("opened_own")), sa = *static_cast<Seen *>(lib->resolve("opened_alias"));
        auto fn = "plainopen_" + name.substr(0, name.find('.'));
        auto called = [&](const Seen &s, const std::optional<Seen> &b, bool mine, const char *which) {
          int n = s.calls - (b ? b->calls : 0);
          if (n != (mine ? 1 : 0)) viol("manager:open-calls", cat(which, " of ", name, " called ", n));
          else if (mine && (s.kernel != ENGINE.get() || s.params != &args[a])) viol("manager:open-arguments", name);
          if (mine) count("opened");
        };
        called(so, before_own, kStems[stem].opens && fn == kStems[stem].opens, "own");
        called(sa, before_alias, fn == "plainopen_other", "other");
        count("loads");
      }
    }
    if (m->get_searchpaths() != paths) viol("manager:paths", cat("after step ", op));
    for (auto &n : all) {
      auto lib = m->get(n);
      if ((lib != nullptr) != open.contains(n)) viol("manager:get", cat(n, lib ? " got" : " not got", " after step ", op));
      else if (lib && (!lib->isloaded() || file_of(lib->resolve("answer")) != canon(open[n].file))) viol("manager:wrong-file", n);
      if (m->get_librarynames(n) != (names.contains(n) ? names[n] : std::vector<std::string>{})) viol("manager:names", cat(n, " after step ", op));
    }
    check_loads(w, loads);
    eval();
  }
  m.reset();
  check_loads(w, {});
  fs::remove_all(w.root);
  for (auto &[p, f] : w.files) fs::remove_all(p);
  distinct(h);
}

// ---- script environments

namespace ps = plain::script;
struct Env;
static std::atomic<int> g_envs{0};
static ps::Factory *g_factory;
struct Env : ps::Interface {
  std::string root, work;
  std::atomic<unsigned> *gone;
  ps::eid_t look{SCRIPT_EID_INVALID};  // asks the factory for another when destroyed
  uint64_t magic{0x5ca1ab1e};
  Env(std::atomic<unsigned> *d = nullptr) : gone{d} { g_envs++; }
  ~Env() override {
    if (look != SCRIPT_EID_INVALID) g_factory->getenv(look);
    magic = 0;
    if (gone) ++*gone;
    g_envs--;
  }
  bool init() override { return true; }
  bool bootstrap(const std::string &) override { return true; }
  void release() override {}
  bool load(const std::string &) override { return true; }
  bool reload(const std::string &) override { return true; }
  void set_rootpath(const std::string &p) override { root = p; }
  void set_workpath(const std::string &p) override { work = p; }
  void register_function(const std::string &, void *) override {}
  void setglobal(const std::string &, const plain::variable_t &) override {}
  void getglobal(const std::string &, plain::variable_t &) override {}
  bool exists(const std::string &) override { return false; }
  bool call(const std::string &) override { return true; }
  bool call(const std::string &, const plain::variable_array_t &, plain::variable_array_t &) override { return true; }
};
static unsigned g_created = 0;
static std::mutex g_made;
static ps::Interface *make3() { std::lock_guard l{g_made}; ++g_created; return new Env; }
static ps::Interface *make4() { return nullptr; }
static ps::Interface *make200() { std::lock_guard l{g_made}; ++g_created; auto e = new Env; e->magic = 0x200; return e; }

static void script_case(Rng &g) {
  int base = g_envs;
  auto f = std::make_unique<ps::Factory>();
  g_factory = f.get();
  std::map<ps::eid_t, Env *> model;
  std::map<Env *, std::unique_ptr<std::atomic<unsigned>>> gone;
  uint64_t h = 11;
  unsigned steps = g.range(5, 120), close_bias = g.range(1, 4);
  for (unsigned k = 0; k < steps && viol_count() == 0; ++k) {
    unsigned op = g.below(4 + close_bias);
    h = hash_mix(h, op);
    if (op == 0) {
      ps::config_t c{cat("root", k), cat("work", k), static_cast<int8_t>(g.pick(std::vector<int>{3, 3, 3, 4, 5, -56}))};
      unsigned before = g_created;
      auto eid = f->newenv(c);
      bool known = c.type == 3 || c.type == -56;
      if (!known) { if (eid != SCRIPT_EID_INVALID) viol("script:made-unknown", cat("type ", int{c.type})); count("no_creator"); }
      else if (eid == SCRIPT_EID_INVALID) viol("script:not-made", "");
      else {
        if (g_created != before + 1) viol("script:created", cat(g_created - before, " times"));
        auto e = dynamic_cast<Env *>(f->getenv(eid));
        if (!e || e->root != c.rootpath || e->work != c.workpath || e->magic != (c.type == 3 ? 0x5ca1ab1eu : 0x200u)) viol("script:config", "paths or kind");
        if (model.contains(eid)) viol("script:id-taken", cat("id ", eid));
        model[eid] = e;
        count("made_by_type");
      }
    } else if (op <= 2) {
      auto d = std::make_unique<std::atomic<unsigned>>(0);
      auto e = new Env{d.get()};
      if (!model.empty() && g.chance(1, 4)) e->look = model.begin()->first;
      auto eid = f->newenv(e);
      if (eid == SCRIPT_EID_INVALID) viol("script:not-made", "");
      if (model.contains(eid)) viol("script:id-taken", cat("id ", eid, " of ", model.size()));
      model[eid] = e;
      gone[e] = std::move(d);
      count("made");
    } else if (op == 3) {
      ps::eid_t eid = g.chance(1, 2) ? g.range(-3, 300) : (model.empty() ? 1 : static_cast<ps::eid_t>(model.rbegin()->first + 1));
      auto it = model.find(eid);
      if (f->getenv(eid) != (it == model.end() ? nullptr : it->second)) viol("script:get", cat("id ", eid));
      if (it == model.end()) { f->closeenv(eid); count("closed_none"); }
    } else if (!model.empty()) {
      auto it = std::next(model.begin(), g.below(model.size()));
      auto [eid, e] = *it;
      int envs = g_envs;
      f->closeenv(eid);
      if (g_envs != envs - 1) viol("script:closed", cat(envs - g_envs, " environments ended"));
      if (gone.contains(e) && *gone[e] != 1) viol("script:closed", "another environment ended");
      gone.erase(e);
      model.erase(it);
      if (f->getenv(eid)) viol("script:get-closed", cat("id ", eid));
      if (g.chance(1, 4)) f->closeenv(eid);
      count("closed");
    }
    for (auto &[id, e] : model) {
      if (f->getenv(id) != e) { viol("script:get", cat("id ", id, " gives another")); break; }
      if (gone.contains(e) && *gone[e]) { viol("script:ended-early", cat("id ", id)); break; }
    }
    if (g_envs != base + static_cast<int>(model.size())) viol("script:alive", cat(g_envs - base, " alive of ", model.size()));
    eval();
  }
  for (auto &[id, e] : model) e->look = SCRIPT_EID_INVALID;
  f.reset();
  if (g_envs != base && viol_count() == 0) viol("script:left", cat(g_envs - base));
  distinct(h);
}

static void script_race_case(Rng &g) {
  int base = g_envs;
  {
    ps::Factory f;
    g_factory = &f;
    std::mutex mx;
    std::set<ps::eid_t> held;
    std::vector<std::thread> ts;
    unsigned n = g.range(2, 4), rounds = g.range(20, 120);
    for (unsigned t = 0; t < n; ++t) ts.emplace_back([&, seed = g.next()] {
      Rng r{seed};
      std::vector<std::pair<ps::eid_t, Env *>> mine;
      for (unsigned i = 0; i < rounds; ++i) {
        if (r.chance(1, 6)) {  // of no known type
          if (f.newenv(ps::config_t{"r", "w", static_cast<int8_t>(r.range(4, 127))}) != SCRIPT_EID_INVALID) { viol("script:made-unknown", "in a thread"); return; }
          count("race_no_creator");
          continue;
        }
        if (mine.empty() || r.chance(1, 2)) {
          Env *e = nullptr;
          ps::eid_t id;
          if (r.chance(1, 3)) { id = f.newenv(ps::config_t{"r", "w", 3}); e = static_cast<Env *>(f.getenv(id)); }
          else { e = new Env; id = f.newenv(e); }
          std::lock_guard l{mx};
          if (!held.insert(id).second) { viol("script:id-taken", cat("id ", id, " by two threads")); return; }
          mine.emplace_back(id, e);
        } else {
          auto k = r.below(mine.size());
          auto [id, e] = mine[k];
          auto got = f.getenv(id);
          if (got != e || !got || static_cast<Env *>(got)->magic != 0x5ca1ab1e) { viol("script:get", "another environment"); return; }
          if (r.chance(1, 2)) {
            { std::lock_guard l{mx}; held.erase(id); }
            f.closeenv(id);
            mine[k] = mine.back();
            mine.pop_back();
          }
        }
        count("race_steps");
      }
    });
    for (auto &t : ts) t.join();
    if (g_envs - base != static_cast<int>(held.size()) && viol_count() == 0) viol("script:alive", cat(g_envs - base, " of ", held.size()));
    distinct(hash_mix(n, rounds));
    eval(n * rounds);
  }
  if (g_envs != base && viol_count() == 0) viol("script:left", cat(g_envs - base));
}

int main(int argc, char **argv) {
  init(argc, argv);
  register_env_creator_script(3, make3);
  register_env_creator_script(4, make4);
  register_env_creator_script(200, make200);
  struct { const char *name; void (*f)(Rng &); } all[] = {{"library", library_case}, {"manager", manager_case}, {"script", script_case}, {"script_race", script_race_case}};
  if (selected("library") || selected("manager")) { build_plugins(); if (g_base != fs::path{GLOBALS["app.basepath"].get<std::string>()}) harness_error("base path"); }
  uint64_t salt = 0;
  for (auto &s : all) {
    ++salt;
    if (!selected(s.name)) continue;
    scenario(s.name);
    for (uint64_t i = 0; i < opt.scale && viol_count() == 0; ++i) {
      Rng g{opt.seed * 1000003 + salt * 7919 + i};
      progress();
      s.f(g);
    }
  }
  return finish();
}
