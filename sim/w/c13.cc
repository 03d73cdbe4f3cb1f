// C13: plugin managers over simulated directories and a simulated dynamic linker.
#include "maliput/plugin/create_road_network.h"
#include "maliput/plugin/maliput_plugin.h"
#include "maliput/plugin/maliput_plugin_manager.h"
#include "w/common.h"

const char* const kCheckId = "C13";

namespace w {
using maliput::plugin::MaliputPlugin;
using maliput::plugin::MaliputPluginManager;
using maliput::plugin::MaliputPluginType;
using maliput::plugin::RoadNetworkLoader;

constexpr int kLibs = 7;
enum Flavour { kGood, kNoMaker, kOtherType, kNoId, kNoType, kNullId, kEmptyId, kNotALibrary };
const char* const kFlavours[] = {"good", "without an entry point", "of another type", "without an id symbol", "without a type symbol", "with a null id", "with an empty id", "not a library"};

struct Library {
  std::string path, id;
  Flavour flavour = kGood;
  int dir = -1;  // index in the directories, -1: elsewhere
  bool loads() const { return flavour <= kOtherType; }
};
struct World {
  std::vector<Library> libs;
  std::vector<std::string> dirs;  // named by the environment variable, in order; may repeat and may not exist
  std::vector<int> env;           // index in dirs; -1: no such directory; -2: a file; -3: empty
  std::vector<int> loads;         // libraries asked for their id, in order
  int loaders = 0;                // road network loaders alive
  std::map<std::string, std::string> got_properties;
};
World& world() { static World* w = new World; return *w; }

void in_use(int i, const char* what) {
  sim::Quiet q;
  sim::check(sim::dl::open_count(world().libs[i].path) > 0, "closed-library-used", std::string(what) + " of library " + world().libs[i].path + " was called although the library is closed");
}
void may_throw() {
  if (sim::fault(sim::F_TASK_THROW)) throw std::runtime_error("the plugin's code throws");
}

struct SimLoader final : RoadNetworkLoader {
  explicit SimLoader(int i) : lib(i) { sim::Quiet q; ++world().loaders; }
  ~SimLoader() override { in_use(lib, "the loader's destructor"); sim::Quiet q; --world().loaders; }
  std::unique_ptr<maliput::api::RoadNetwork> operator()(const std::map<std::string, std::string>& properties) const override {
    in_use(lib, "the loader");
    may_throw();
    sim::Quiet q;
    world().got_properties = properties;
    world().got_properties["library"] = num(lib);
    return nullptr;
  }
  std::map<std::string, std::string> GetDefaultParameters() const override {
    in_use(lib, "the loader");
    sim::Quiet q;
    return {{"library", num(lib)}};
  }
  int lib;
};

template <int I>
struct Code {
  static char* id() {
    in_use(I, "GetMaliputPluginId");
    { sim::Quiet q; world().loads.push_back(I); }
    may_throw();
    return world().libs[I].flavour == kNullId ? nullptr : const_cast<char*>(world().libs[I].id.c_str());
  }
  static MaliputPluginType type() {
    in_use(I, "GetMaliputPluginType");
    return static_cast<MaliputPluginType>(world().libs[I].flavour == kOtherType ? 1 : 0);
  }
  static void* make() {
    in_use(I, "MakeRoadNetworkLoader");
    may_throw();
    return static_cast<RoadNetworkLoader*>(new SimLoader(I));
  }
  static int tag(int x, std::string s) {
    in_use(I, "Tag");
    return I * 1000 + x * 10 + static_cast<int>(s.size());
  }
  static sim::dl::Lib symbols(Flavour f) {
    sim::dl::Lib l;
    if (f != kNoId) l.symbols.emplace_back("GetMaliputPluginId", reinterpret_cast<void*>(&id));
    if (f != kNoType) l.symbols.emplace_back("GetMaliputPluginType", reinterpret_cast<void*>(&type));
    if (f != kNoMaker) l.symbols.emplace_back("MakeRoadNetworkLoader", reinterpret_cast<void*>(&make));
    l.symbols.emplace_back("Tag", reinterpret_cast<void*>(&tag));
    return l;
  }
};
template <int... I>
sim::dl::Lib symbols(int i, Flavour f, std::integer_sequence<int, I...>) {
  sim::dl::Lib l;
  (void)std::initializer_list<int>{(I == i ? (l = Code<I>::symbols(f), 0) : 0)...};
  return l;
}

void make_world(bool healthy) {
  sim::Quiet q;
  World& W = world();
  static const char* const all_dirs[] = {"/sim/plugins", "/sim/a second directory of plugins", "/sim/work/p"};
  int nd = 1 + sim::choose(3);
  for (int i = 0; i < nd; ++i) { W.dirs.push_back(all_dirs[i]); sim::fs::mkdirs(all_dirs[i]); }
  int n = 2 + sim::choose(kLibs - 1);
  int ids = 1 + sim::choose(n);
  bool bad = !healthy && sim::flip(1, 2);
  for (int i = 0; i < n; ++i) {
    Library l;
    l.id = names()[sim::choose(ids)];
    if (sim::flip(1, 4)) l.flavour = static_cast<Flavour>(1 + sim::choose(2));
    if (bad && sim::flip(1, 3)) l.flavour = static_cast<Flavour>(3 + sim::choose(5));
    if (l.flavour == kEmptyId) l.id = "";
    l.dir = sim::flip(1, healthy ? 8 : 4) ? -1 : static_cast<int>(sim::choose(nd));
    std::string d = l.dir < 0 ? "/sim/elsewhere" : W.dirs[l.dir];
    if (sim::flip(1, 4)) d += "/nested directory";
    if (sim::flip(1, 8)) d += "/deep.so";  // a directory that is named like a library
    sim::fs::mkdirs(d);
    l.path = d + "/lib" + num(i) + (sim::flip(1, 4) ? " with a name that is longer than most.so" : ".so");
    sim::fs::put(l.path, "ELF");
    if (l.flavour != kNotALibrary) sim::dl::define(l.path, symbols(i, l.flavour, std::make_integer_sequence<int, kLibs>()));
    W.libs.push_back(l);
  }
  for (int i = 0; i < nd; ++i) {
    if (sim::flip(1, 3)) sim::fs::put(W.dirs[i] + "/readme.txt", "not a plugin");
    if (sim::flip(1, 3)) sim::fs::put(W.dirs[i] + "/libold.so.1", "not a plugin");
    if (sim::flip(1, 3)) sim::fs::mkdirs(W.dirs[i] + "/empty");
  }
  sim::fs::set_dir_salt(sim::choose(1000));
}

void make_env() {
  sim::Quiet q;
  World& W = world();
  W.env.clear();
  if (sim::flip(1, 12)) { sim::fs::unset_env("MALIPUT_PLUGIN_PATH"); return; }
  std::string s;
  for (int i = 0, n = sim::choose(4); i <= n; ++i) {
    int e = sim::flip(1, 5) ? -1 - static_cast<int>(sim::choose(3)) : static_cast<int>(sim::choose(W.dirs.size()));
    W.env.push_back(e);
    if (i) s += ":";
    s += e == -1 ? "/sim/absent" : e == -2 ? "/sim/a file" : e == -3 ? "" : W.dirs[e];
    if (e >= 0 && sim::flip(1, 6)) s += "/";
  }
  sim::fs::put("/sim/a file", "");
  sim::fs::set_env("MALIPUT_PLUGIN_PATH", s);
  sim::event("MALIPUT_PLUGIN_PATH=" + s);
}

// Faults that fired, to tell whether something went wrong while a call was under way.
struct Window {
  uint64_t dl, dir, code;
  Window() { sim::Quiet q; dl = d(); dir = r(); code = sim::faults_fired(sim::F_TASK_THROW); }
  static uint64_t d() { return sim::faults_fired(sim::F_DLOPEN) + sim::faults_fired(sim::F_DLSYM); }
  static uint64_t r() { return sim::faults_fired(sim::F_STAT) + sim::faults_fired(sim::F_READDIR); }
  bool linker() const { return d() != dl; }
  bool directory() const { return r() != dir; }
  bool any() const { return linker() || directory() || sim::faults_fired(sim::F_TASK_THROW) != code; }
};

struct Manager {
  std::unique_ptr<MaliputPluginManager> real;
  std::map<std::string, int> model;
  std::map<std::string, const MaliputPlugin*> objects;

  std::string text() const {
    std::string s;
    for (const auto& e : model) s += e.first + "=" + num(e.second) + " ";
    return s;
  }
  // Everything the model has is there and works; nothing else is.
  void check(const char* when) {
    std::unordered_map<MaliputPlugin::Id, MaliputPluginType> list;
    list = real->ListPlugins();
    {
      sim::Quiet q;
      std::map<std::string, int> got;
      for (const auto& e : list) got[e.first.string()] = static_cast<int>(e.second);
      std::map<std::string, int> want;
      for (const auto& e : model) want[e.first] = world().libs[e.second].flavour == kOtherType ? 1 : 0;
      std::string g, x;
      for (const auto& e : got) g += e.first + " of type " + num(e.second) + ", ";
      for (const auto& e : want) x += e.first + " of type " + num(e.second) + ", ";
      sim::check(g == x, "wrong-listing", std::string(when) + " the manager lists " + g + "not " + x);
    }
    for (const auto& n : names()) {
      const MaliputPlugin* p = real->GetPlugin(MaliputPlugin::Id(n));
      auto it = model.find(n);
      SIM_CHECK((p != nullptr) == (it != model.end()), "plugin-lost", std::string(when) + " plugin " + n + (p ? " is" : " is not") + " available");
      if (!p) continue;
      {
        sim::Quiet q;
        auto o = objects.find(n);
        sim::check(o == objects.end() || o->second == p, "plugin-replaced", std::string(when) + " plugin " + n + " is another object although it was not replaced");
        objects[n] = p;
        sim::check(p->GetId() == n, "wrong-id", std::string(when) + " plugin " + n + " says that it is " + p->GetId());
        sim::check(static_cast<int>(p->GetType()) == (world().libs[it->second].flavour == kOtherType ? 1 : 0), "wrong-type", std::string(when) + " plugin " + n + " has another type");
        sim::check(sim::dl::open_count(world().libs[it->second].path) > 0, "closed-library", std::string(when) + " the library of plugin " + n + " is closed");
      }
      call(n, p, it->second, when);
    }
  }
  static void call(const std::string& n, const MaliputPlugin* p, int lib, const char* when) {
    Window win;
    int x = 1 + sim::choose(9);
    int got = -1;
    uint32_t k = alloc_faults() && sim::flip(1, 8) ? random_k() : 0;
    Outcome o = attempt([&] { got = p->ExecuteSymbol<int>(std::string("Tag"), static_cast<int>(x), std::string("four")); }, k);
    sim::Quiet q;
    if (o.threw) {
      sim::check(o.injected || win.linker(), "symbol-failed", std::string(when) + " calling into plugin " + n + " failed: " + o.what);
      return;
    }
    sim::check(got == lib * 1000 + x * 10 + 4, "wrong-symbol", std::string(when) + " a call into plugin " + n + " was answered by library " + num(got / 1000) + ", not " + num(lib));
  }
};

int g_several = 0;  // several threads work at once: what each does cannot be told from the counters of faults

// What a manager that reads the environment must have, given what it loaded in which order.
void check_discovery(const std::vector<int>& loads, const Window& win, std::map<std::string, int>* model) {
  sim::Quiet q;
  World& W = world();
  size_t at = 0;
  for (size_t i = 0; i < W.env.size(); ++i) {
    int e = W.env[i];
    if (e < 0) continue;
    std::set<int> want, got;
    for (size_t l = 0; l < W.libs.size(); ++l)
      if (W.libs[l].dir == e && W.libs[l].loads()) want.insert(static_cast<int>(l));
    size_t start = at;
    while (at < loads.size() && want.count(loads[at]) && !got.count(loads[at])) got.insert(loads[at++]);
    if (got == want) continue;
    // A directory that could not be looked at is left out as a whole.
    if (win.directory() && got.empty()) { sim::probe("directory_left_out"); continue; }
    if (win.directory() && i + 1 < W.env.size()) { at = start; continue; }  // the same libraries may belong to a later entry
    if (win.linker()) continue;
    sim::violation("discovery-incomplete", "of directory " + W.dirs[e] + " only " + num(static_cast<long>(got.size())) + " of " + num(static_cast<long>(want.size())) + " plugins were loaded");
  }
  for (int l : loads) if (W.libs[l].loads()) (*model)[W.libs[l].id] = l;
}

bool bad_library_in_reach() {
  for (int e : world().env)
    for (const auto& l : world().libs) if (e >= 0 && l.dir == e && !l.loads()) return true;
  return false;
}

bool discover(Manager* m) {
  Window win;
  std::vector<int> mine;
  uint32_t k = alloc_faults() && sim::flip(1, 2) ? (sim::flip(1, 2) ? random_k() : 1 + sim::choose(400)) : 0;
  SIM_EVENT("discovers plugins" + (k ? " with allocation " + num(k) + " failing" : std::string()));
  size_t before = world().loads.size();
  Outcome o = attempt([&] { m->real = std::make_unique<MaliputPluginManager>(); }, k);
  sim::Quiet q;
  sim::event(o.threw ? "-> " + o.what : "-> done");
  if (o.threw) {
    sim::check(o.injected || win.any() || bad_library_in_reach(), "discovery-failed", "plugins were not discovered: " + o.what);
    sim::probe("discovery_failed");
    m->real.reset();
    return false;
  }
  sim::probe("discovery_done");
  mine.assign(world().loads.begin() + before, world().loads.end());
  m->model.clear();
  check_discovery(mine, win, &m->model);
  return true;
}

void add(Manager* m) {
  World& W = world();
  int i = sim::choose(W.libs.size() + 2);
  bool exists = i < static_cast<int>(W.libs.size());
  std::string path;
  { sim::Quiet q; path = exists ? W.libs[i].path : i == static_cast<int>(W.libs.size()) ? "/sim/plugins/libabsent.so" : ""; }
  uint32_t k = alloc_faults() && sim::flip(1, 2) ? random_k() : 0;
  Window win;
  SIM_EVENT("adds " + path + (exists ? std::string(" (") + kFlavours[W.libs[i].flavour] + ", id " + W.libs[i].id + ")" : std::string()) + (k ? " with allocation " + num(k) + " failing" : std::string()));
  Outcome o = attempt([&] { m->real->AddPlugin(path); }, k);
  sim::Quiet q;
  sim::event(o.threw ? "-> " + o.what : "-> done");
  bool good = exists && W.libs[i].loads();
  if (!o.threw) {
    sim::check(good, "bad-library-accepted", "library " + path + " was accepted");
    if (!g_several) sim::check(!win.linker(), "linker-failure-not-reported", "the linker failed but library " + path + " was accepted");
    m->model[W.libs[i].id] = i;
    m->objects.erase(W.libs[i].id);
    sim::probe("plugin_added");
    return;
  }
  sim::check(!good || o.injected || win.any(), "good-library-refused", "library " + path + " was not loaded: " + o.what);
  sim::probe("plugin_refused");
}

void check_balance(const std::vector<Manager>& ms) {
  sim::Quiet q;
  World& W = world();
  for (size_t i = 0; i < W.libs.size(); ++i) {
    int want = 0;
    for (const auto& m : ms) if (m.real) for (const auto& e : m.model) want += e.second == static_cast<int>(i);
    int got = sim::dl::open_count(W.libs[i].path);
    sim::check(got <= want, "library-left-open", "library " + W.libs[i].path + " is open " + num(got) + " times but used by " + num(want) + " plugins");
    sim::check(got >= want, "library-closed-too-often", "library " + W.libs[i].path + " is open " + num(got) + " times but used by " + num(want) + " plugins");
  }
  sim::check(sim::dl::bad_closes() == 0, "closed-twice", "a library was closed once more after it was closed");
  sim::check(!sim::dl::sym_after_close(), "closed-library-used", "a symbol was looked up in a closed library");
  sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", "a directory is still open");
}

void manager_step(Manager* m) {
  if (!m->real) {
    make_env();
    if (!discover(m)) return;
    m->check("after discovery");
    return;
  }
  switch (sim::choose(10)) {
    default: add(m); m->check("after adding a plugin"); return;
    case 8: {  // an unknown symbol disturbs nothing
      if (m->model.empty()) return;
      int which = sim::choose(m->model.size());
      std::string id; int lib;
      { sim::Quiet q; auto it = m->model.begin(); std::advance(it, which); id = it->first; lib = it->second; }
      const MaliputPlugin* p = m->real->GetPlugin(MaliputPlugin::Id(id));
      SIM_CHECK(p, "plugin-lost", "plugin " + id + " is not available");
      Outcome o = attempt([&] { p->ExecuteSymbol<int>(std::string("NoSuchSymbol")); });
      SIM_CHECK(o.threw, "unknown-symbol-executed", "a symbol that plugin " + id + " lacks was executed");
      m->call(id, p, lib, "after an unknown symbol was asked for");
      return;
    }
    case 9: {
      SIM_EVENT("drops the manager");
      m->real.reset();
      sim::Quiet q;
      m->model.clear();
      m->objects.clear();
      return;
    }
  }
}

void managers(int n) {
  std::vector<Manager> ms(n);
  int steps = 3 + sim::choose(10);
  if (n == 1) {
    for (int i = 0; i < steps; ++i) { manager_step(&ms[0]); check_balance(ms); }
  } else {
    // Each thread has a manager of its own; they share the linker and the directories. The environment does not change.
    g_several = 1;
    sim::probe("several_managers");
    { sim::Quiet q; make_env(); }
    std::vector<int> ids;
    for (int t = 0; t < n; ++t) {
      int id = sim::spawn([&, t] {
        Manager& m = ms[t];
        Outcome o = attempt([&] {
          Window win;
          uint32_t k = alloc_faults() && sim::flip(1, 3) ? 1 + sim::choose(400) : 0;
          Outcome oo = attempt([&] { m.real = std::make_unique<MaliputPluginManager>(); }, k);
          sim::Quiet q;
          if (oo.threw) {
            sim::check(oo.injected || win.any() || bad_library_in_reach(), "discovery-failed", "plugins were not discovered: " + oo.what);
            return;
          }
          // Which of several libraries with one id won depends on the order in the directory, so it is asked for here.
          for (const auto& e : m.real->ListPlugins()) {
            const MaliputPlugin* p = m.real->GetPlugin(e.first);
            for (size_t l = 0; l < world().libs.size(); ++l)
              if (world().libs[l].loads() && world().libs[l].id == e.first.string()) m.model[e.first.string()] = -1;
            sim::check(m.model.count(e.first.string()) && p, "wrong-listing", "plugin " + e.first.string() + " is listed");
          }
        });
        if (!m.real) return;
        std::vector<std::string> ids;
        { sim::Quiet q; for (const auto& e : m.model) ids.push_back(e.first); }
        for (const auto& id : ids) {
          const MaliputPlugin* p = m.real->GetPlugin(MaliputPlugin::Id(id));
          int got = -1;
          for (int tries = 0; tries < 50 && got < 0; ++tries)
            attempt([&] { got = p->ExecuteSymbol<int>(std::string("Tag"), 1, std::string("four")); });
          sim::Quiet q;
          if (got < 0) { m.model.clear(); return; }
          int lib = got / 1000;
          sim::check(world().libs[lib].id == id && world().libs[lib].loads(), "wrong-symbol", "plugin " + id + " is answered by library " + world().libs[lib].path);
          m.model[id] = lib;
        }
        for (int i = 0, c = sim::choose(5); i < c; ++i) { add(&m); m.check("after adding a plugin"); }
      });
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
    check_balance(ms);
  }
  for (auto& m : ms) m.real.reset();
  { sim::Quiet q; for (auto& m : ms) m.model.clear(); }
  check_balance(ms);
}

// The process-wide manager behind MakeRoadNetworkLoader and CreateRoadNetwork.
void loaders() {
  sim::probe("process_wide_manager");
  make_env();
  World& W = world();
  std::map<std::string, int> seen;     // which library answered for an id
  std::map<std::string, std::set<int>> last;  // libraries that may win for an id when nothing fails
  {
    sim::Quiet q;
    std::map<std::string, int> from;
    for (int e : W.env) {
      if (e < 0) continue;
      std::set<std::string> here;
      for (const auto& l : W.libs) if (l.dir == e && l.loads()) here.insert(l.id);
      for (const auto& i : here) {
        last[i].clear();
        for (size_t l = 0; l < W.libs.size(); ++l) if (W.libs[l].dir == e && W.libs[l].loads() && W.libs[l].id == i) last[i].insert(static_cast<int>(l));
      }
    }
  }
  bool bad = bad_library_in_reach();
  std::vector<std::string> known;
  { sim::Quiet q; for (const auto& e : last) known.push_back(e.first); known.push_back("g"); }
  std::mutex m;
  auto ask = [&](bool quiet_now) {
    std::string id;
    { sim::Quiet q; id = known[quiet_now || sim::flip(9, 10) ? sim::choose(known.size() - 1 + (known.size() == 1)) : known.size() - 1]; }
    uint32_t k = !quiet_now && alloc_faults() && sim::flip(1, 2) ? (sim::flip(1, 2) ? random_k() : 1 + sim::choose(400)) : 0;
    Window win;
    bool create = !quiet_now && sim::flip(1, 3);
    SIM_EVENT(std::string(create ? "creates a road network by " : "makes a loader by ") + id + (k ? " with allocation " + num(k) + " failing" : std::string()));
    int got = -1;
    Outcome o;
    if (create) {
      std::map<std::string, std::string> props{{"key", "value"}, {"another property with a long name", id}};
      std::lock_guard<std::mutex> l(m);  // for the recorded properties only
      world().got_properties.clear();
      o = attempt([&] { maliput::plugin::CreateRoadNetwork(id, props); }, k);
      sim::Quiet q;
      if (!o.threw) {
        auto p = world().got_properties;
        sim::check(p.count("library"), "loader-not-called", "no loader was called for " + id);
        got = std::stoi(p["library"]);
        p.erase("library");
        sim::check(p == props, "wrong-properties", "the loader got other properties");
      }
    } else {
      o = attempt([&] {
        std::unique_ptr<RoadNetworkLoader> l = maliput::plugin::MakeRoadNetworkLoader(id);
        SIM_CHECK(l, "no-loader", "no loader was made by " + id);
        auto p = l->GetDefaultParameters();
        got = std::stoi(p["library"]);
      }, k);
    }
    sim::Quiet q;
    sim::event(o.threw ? "-> " + o.what : "-> library " + num(got));
    auto it = last.find(id);
    if (o.threw) {
      bool hard = false;  // may be refused without any fault
      if (it == last.end() || bad) hard = true;
      else for (size_t l = 0; l < W.libs.size(); ++l) if (W.libs[l].id == id && W.libs[l].loads() && W.libs[l].flavour != kGood && (it->second.count(l) || sim::faults_fired_total())) hard = true;
      // A directory that could not be looked at during discovery is left out for good.
      if (sim::faults_fired(sim::F_STAT) && !seen.count(id)) hard = true;
      if (seen.count(id) && W.libs[seen[id]].flavour == kGood) hard = false;
      sim::check(hard || o.injected || win.any() || (!seen.count(id) && sim::faults_fired_total()), "loader-refused", "no loader was made by " + id + ": " + o.what);
      sim::probe("loader_refused");
      return;
    }
    sim::check(got >= 0 && W.libs[got].id == id && W.libs[got].flavour == kGood, "wrong-loader", "loader " + id + " came from library " + num(got));
    if (!sim::faults_fired(sim::F_STAT) && !sim::faults_fired(sim::F_READDIR)) sim::check(it != last.end() && it->second.count(got), "earlier-plugin-won", "loader " + id + " came from library " + W.libs[got].path + " although a later directory has one");
    auto s = seen.emplace(id, got);
    sim::check(s.first->second == got, "plugin-replaced", "loader " + id + " came from library " + num(got) + " after it came from library " + num(s.first->second));
    sim::probe("loader_made");
  };
  int n = 1 + sim::choose(3);
  if (n > 1) sim::probe("several_threads_ask");
  std::vector<int> ids;
  for (int t = 0; t < n; ++t) {
    int id = sim::spawn([&] { for (int i = 0, c = 1 + sim::choose(3); i < c; ++i) ask(false); });
    sim::Quiet q;
    ids.push_back(id);
  }
  for (int id : ids) sim::join(id);
  { sim::Quiet q; for (int f = 0; f < sim::F_COUNT; ++f) sim::set_rate(static_cast<sim::Fault>(f), 0); }
  if (!known.empty()) ask(true);
  sim::Quiet q;
  sim::check(W.loaders == 0, "loader-leaked", num(W.loaders) + " loaders were not destroyed");
  for (const auto& s : seen) sim::check(sim::dl::open_count(W.libs[s.second].path) == 1, "library-closed-too-often", "library " + W.libs[s.second].path + " is open " + num(sim::dl::open_count(W.libs[s.second].path)) + " times");
  for (const auto& l : W.libs) sim::check(sim::dl::open_count(l.path) <= 1 && sim::dl::open_count(l.path) >= 0, "library-left-open", "library " + l.path + " is open " + num(sim::dl::open_count(l.path)) + " times but there is one manager");
  for (const auto& l : W.libs) if (!l.loads()) sim::check(sim::dl::open_count(l.path) == 0, "library-left-open", "library " + l.path + " is open although its plugin was refused");
  sim::check(sim::dl::bad_closes() == 0 && !sim::dl::sym_after_close(), "closed-twice", "a library was closed or used after it was closed");
  sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", "a directory is still open");
}
}  // namespace w

void workload() {
  using namespace w;
  bool healthy = sim::flip(1, 3);
  {
    sim::Quiet q;
    names();
    alloc_faults() = sim::flip(1, 3);
    sim::mark_nontrivial();
  }
  make_world(healthy);
  static const uint32_t rates[] = {200, 1000, 4000, 12000};
  if (!healthy)
    for (sim::Fault f : {sim::F_DLOPEN, sim::F_DLSYM, sim::F_STAT, sim::F_READDIR, sim::F_TASK_THROW})
      if (sim::flip(1, 3)) sim::set_rate(f, rates[sim::choose(4)]);
  if (sim::flip(1, 3)) loaders();
  else managers(sim::flip(1, 4) ? 2 + sim::choose(2) : 1);
  sim::Quiet q;
  uint64_t h = 0;
  for (const auto& l : world().libs) h = h * 31 + hash_of(l.path) + sim::dl::opens(l.path) * 7 + sim::dl::closes(l.path);
  sim::mix_state(h);
}
