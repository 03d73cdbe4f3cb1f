// C14: file-system helpers while calls fail and others change the same paths.
#include "maliput/common/filesystem.h"
#include "maliput/utility/file_utils.h"
#include "w/common.h"

const char* const kCheckId = "C14";

namespace w {
inline std::string& temp_directory() {
  static std::string d;
  return d;
}
using maliput::common::Filesystem;
using maliput::common::Path;

const std::vector<std::string>& pool() {
  static const std::vector<std::string>* v = new std::vector<std::string>{
      "/sim/w", "/sim/w/a", "/sim/w/a/b", "/sim/w/a/b/c.so", "/sim/w/a/b/a directory with a longer name", "/sim/w/a/b/a directory with a longer name/deep.so",
      "/sim/w/file.txt", "/sim/w/a/file.so", "x", "x/y", "x/y/z.so", "/sim/w/file.txt/below a file"};
  return *v;
}
std::string absolute(const std::string& p) { return p.empty() ? p : p[0] == '/' ? p : "/sim/work/" + p; }
std::vector<std::string> prefixes(const std::string& abs) {  // of a path, itself included, the root not
  std::vector<std::string> v;
  for (size_t i = 1; (i = abs.find('/', i)) != std::string::npos; ++i)
    if (i + 1 < abs.size()) v.push_back(abs.substr(0, i));
  std::string last = abs;
  while (last.size() > 1 && last.back() == '/') last.pop_back();
  v.push_back(last);
  return v;
}
std::string bytes() {
  static const size_t sizes[] = {0, 1, 5, 100, 8190, 8192, 20000};
  size_t n = sizes[sim::choose(7)];
  std::string s;
  uint32_t x = sim::choose(1000) + 1;
  for (size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; s += (x >> 28) == 0 ? '\xff' : (x >> 28) == 1 ? '\0' : (x >> 28) == 2 ? '\n' : static_cast<char>(x >> 16); }
  return s;
}

// Another process.
void intrude() {
  std::string p = absolute(sim::pick(pool()));
  auto pre = prefixes(p);
  for (size_t i = 0; i + 1 < pre.size(); ++i) if (sim::fs::exists(pre[i]) && !sim::fs::is_dir(pre[i])) return;
  switch (sim::choose(5)) {
    case 0: case 1: if (p != "/sim/w") sim::fs::remove(p); break;
    case 2: if (!sim::fs::exists(p)) sim::fs::mkdirs(p); break;
    case 3: if (!sim::fs::is_dir(p)) sim::fs::put(p, bytes()); break;
    default:  // a file becomes a directory or the other way round
      if (p == "/sim/w") break;
      if (sim::fs::is_dir(p)) { sim::fs::remove(p); sim::fs::put(p, bytes()); }
      else if (sim::fs::exists(p)) { sim::fs::remove(p); sim::fs::mkdirs(p); }
  }
}

struct Op {
  std::string name, path;
  uint64_t from;
  uint64_t errors;
  bool alone;
  Op(const std::string& n, const std::string& p, bool al) : name(n), path(p), alone(al) { from = sim::fs::version(); errors = total(); sim::event(n + " " + p); }
  static uint64_t total() {
    uint64_t n = 0;
    for (sim::Fault f : {sim::F_STAT, sim::F_MKDIR, sim::F_READDIR, sim::F_OPEN, sim::F_EIO_READ}) n += sim::faults_fired(f);
    return n;
  }
  bool failed_call() const { return total() != errors; }
  bool ever(const std::string& p, const char* kinds) const {
    for (; *kinds; ++kinds) if (sim::fs::ever(p, *kinds, from)) return true;
    return false;
  }
  bool ever(const char* kinds) const { return ever(absolute(path), kinds); }
  std::string text() const { return name + " " + (path.empty() ? "(empty)" : path); }
  // The paths that this helper changed, "path from->to".
  std::vector<std::string> mine() const {
    std::vector<std::string> v;
    for (const auto& m : sim::fs::mutations(from)) if (m.by == sim::current_task()) v.push_back(m.path + " " + m.from + ">" + m.to);
    return v;
  }
  bool others() const {
    for (const auto& m : sim::fs::mutations(from)) if (m.by != sim::current_task()) return true;
    return false;
  }
  void unchanged() const {
    auto v = mine();
    sim::check(v.empty(), "unexpected-change", text() + " changed " + (v.empty() ? "" : v[0]));
  }
};

std::string some_path() {
  if (sim::flip(1, 30)) return "";
  return sim::pick(pool());
}

void one(bool alone) {
  uint32_t kind = sim::choose(10);
  uint32_t k = alloc_faults() && sim::flip(1, 3) ? random_k() : 0;
  std::unique_ptr<Op> op;
  std::unique_ptr<Path> path;
  auto start = [&](const char* name, const std::string& p) {
    sim::Quiet q;
    op = std::make_unique<Op>(name, p, alone);
    path = std::make_unique<Path>(p);
  };
  std::string p;
  { sim::Quiet q; p = some_path(); }
  switch (kind) {
    case 0: {
      start("exists", p);
      bool r = path->exists();
      sim::Quiet q;
      sim::event(r ? "-> yes" : "-> no");
      sim::check(r ? op->ever("fd") : p.empty() || op->ever("-") || op->failed_call(), "wrong-class", op->text() + " said " + (r ? "yes" : "no") + " but that was never so");
      op->unchanged();
      return;
    }
    case 1: {
      start("is_file", p);
      bool r = path->is_file();
      sim::Quiet q;
      sim::event(r ? "-> yes" : "-> no");
      sim::check(r ? op->ever("f") : p.empty() || op->ever("d-") || op->failed_call(), "wrong-class", op->text() + " said " + (r ? "yes" : "no") + " but that was never so");
      op->unchanged();
      return;
    }
    case 2: {
      start("is_directory", p);
      bool r = path->is_directory();
      sim::Quiet q;
      sim::event(r ? "-> yes" : "-> no");
      sim::check(r ? op->ever("d") : p.empty() || op->ever("f-") || op->failed_call(), "wrong-class", op->text() + " said " + (r ? "yes" : "no") + " but that was never so");
      op->unchanged();
      return;
    }
    case 3: {
      start("create_directory", p);
      bool r = Filesystem::create_directory(*path);
      sim::Quiet q;
      sim::event(r ? "-> done" : "-> not done");
      auto m = op->mine();
      if (r) {
        sim::check(m.size() == 1 && m[0] == absolute(p) + " ->d", "wrong-effect", op->text() + " reported success but " + (m.empty() ? "made nothing" : "did " + m[0]));
      } else {
        op->unchanged();
        auto pre = prefixes(absolute(p));
        bool parent_missing = false;
        for (size_t i = 0; i + 1 < pre.size(); ++i) parent_missing = parent_missing || op->ever(pre[i], "-f");
        sim::check(p.empty() || op->ever("fd") || parent_missing || op->failed_call(), "refused", op->text() + " failed although nothing was in its way");
      }
      return;
    }
    case 4: {
      if (!p.empty() && sim::flip(1, 4)) { sim::Quiet q; p += sim::flip(1, 2) ? "/" : "/new/directories below"; }
      start("create_directory_recursive", p);
      bool r = false;
      Outcome o = attempt([&] { r = Filesystem::create_directory_recursive(*path); }, k);
      sim::Quiet q;
      sim::event(o.threw ? "-> " + o.what : r ? "-> done" : "-> not done");
      sim::check(!o.threw || o.injected, "threw", op->text() + " threw " + o.what);
      auto pre = prefixes(absolute(p));
      std::set<std::string> may;
      for (const auto& x : pre) may.insert(x + " ->d");
      for (const auto& m : op->mine()) sim::check(may.count(m), "unexpected-change", op->text() + " did " + m);
      if (o.threw) return;
      if (r) {
        for (const auto& x : pre) sim::check(!p.empty() && op->ever(x, "d"), "wrong-effect", op->text() + " reported success but there is no directory " + x);
      } else {
        bool obstacle = p.empty() || op->failed_call();
        for (const auto& x : pre) {
          obstacle = obstacle || op->ever(x, "f");
          for (const auto& m : sim::fs::mutations(op->from)) obstacle = obstacle || (m.path == x && m.to != 'd');
        }
        sim::check(obstacle, "refused", op->text() + " failed although nothing was in its way");
      }
      return;
    }
    case 5: case 6: {
      bool dir = kind == 6;
      start(dir ? "remove_directory" : "remove_file", p);
      bool r = dir ? Filesystem::remove_directory(*path) : Filesystem::remove_file(*path);
      sim::Quiet q;
      sim::event(r ? "-> done" : "-> not done");
      auto m = op->mine();
      if (r) {
        sim::check(m.size() == 1 && m[0] == absolute(p) + (dir ? " d>-" : " f>-"), "wrong-effect", op->text() + " reported success but " + (m.empty() ? "removed nothing" : "did " + m[0]));
        sim::probe(dir ? "directory_removed" : "file_removed");
      } else {
        op->unchanged();
        bool full = false;
        if (dir) {
          std::set<std::string> all;
          for (const auto& x : sim::fs::list()) all.insert(x);
          for (const auto& x : sim::fs::mutations(op->from)) all.insert(x.path);
          for (const auto& x : all) full = full || (x.compare(0, absolute(p).size() + 1, absolute(p) + "/") == 0);
        }
        sim::check(p.empty() || op->ever(dir ? "f-" : "d-") || full || op->failed_call(), "refused", op->text() + " failed although nothing was in its way");
      }
      return;
    }
    case 7: {
      start("read_as_string", p);
      std::string before = "what was there before", got = before;
      bool r = false;
      Outcome o = attempt([&] { r = Filesystem::read_as_string(*path, got); }, k);
      sim::Quiet q;
      sim::event(o.threw ? "-> " + o.what : r ? "-> " + num(got.size()) + " bytes" : "-> not read");
      sim::check(!o.threw || o.injected, "threw", op->text() + " threw " + o.what);
      op->unchanged();
      if (!r) {
        sim::check(got == before, "touched-on-failure", op->text() + " failed but changed the caller's string");
        sim::check(o.threw || o.injected || p.empty() || op->ever("d-") || op->failed_call(), "refused", op->text() + " failed although nothing was in its way");
        return;
      }
      sim::probe("file_read");
      sim::check(op->ever("f"), "wrong-effect", op->text() + " reported success but there was no file");
      if (alone) sim::check(!op->failed_call(), "failure-not-reported", op->text() + " reported success although a system call failed");
      bool touched = false;
      for (const auto& m : sim::fs::mutations(op->from)) touched = touched || m.path == absolute(p);
      std::string want;
      if (!touched && sim::fs::get(p, &want))
        sim::check(got == want, "wrong-bytes", op->text() + " read " + num(got.size()) + " bytes that are not the " + num(want.size()) + " bytes of the file");
      return;
    }
    case 8: {
      std::optional<std::string> suffix;
      { sim::Quiet q; if (sim::flip(2, 3)) suffix = sim::flip(1, 4) ? "" : sim::flip(1, 2) ? "so" : "txt"; }
      start("GetAllFilePathsFromDirectory", p);
      std::vector<std::string> got;
      Outcome o = attempt([&] { got = maliput::utility::GetAllFilePathsFromDirectory(p, suffix); }, k);
      sim::Quiet q;
      sim::event(o.threw ? "-> " + o.what : "-> " + num(got.size()) + " files");
      op->unchanged();
      if (o.threw) {
        sim::check(o.injected || p.empty() || op->ever("f-") || op->failed_call() || op->others(), "threw", op->text() + " threw " + o.what);
        return;
      }
      sim::probe("directory_listed");
      if (alone) sim::check(!op->failed_call(), "failure-not-reported", op->text() + " reported success although a system call failed");
      std::map<std::string, int> count;
      for (const auto& g : got) {
        sim::check(g.compare(0, p.size() + 1, p + "/") == 0, "wrong-listing", op->text() + " lists " + g);
        sim::check(op->ever(absolute(g), "f") || op->others(), "wrong-listing", op->text() + " lists " + g + " which is no file");
        sim::check(!suffix || suffix->empty() || (g.size() > suffix->size() && g.compare(g.size() - suffix->size(), suffix->size(), *suffix) == 0), "wrong-listing", op->text() + " lists " + g + " which has another suffix");
        ++count[absolute(g)];
      }
      std::set<std::string> touched;
      for (const auto& m : sim::fs::mutations(op->from)) touched.insert(m.path);
      for (const auto& x : sim::fs::list()) {
        if (x.compare(0, absolute(p).size() + 1, absolute(p) + "/") || sim::fs::is_dir(x)) continue;
        if (suffix && !suffix->empty() && (x.size() <= suffix->size() || x.compare(x.size() - suffix->size() - 1, std::string::npos, "." + *suffix))) continue;
        bool t = false;
        for (const auto& y : prefixes(x)) t = t || touched.count(y);
        if (!t) sim::check(count[x] == 1, "wrong-listing", op->text() + " lists " + x + " " + num(count[x]) + " times");
      }
      return;
    }
    default: {
      // Paths put together from parts, the working directory and the environment.
      static const char* const vars[] = {"A_PATH", "ABSENT"};
      int v = sim::choose(2);
      std::string got = Filesystem::get_env_path(vars[v]);
      SIM_CHECK(got == (v ? "" : "/sim/w:/sim/x"), "wrong-environment", std::string("get_env_path of ") + vars[v] + " is " + got);
      bool fails;
      uint64_t before;
      { sim::Quiet q; before = Op::total(); fails = false; }
      std::string cwd;
      Outcome o = attempt([&] { cwd = Filesystem::get_cwd().get_path(); });
      {
        sim::Quiet q;
        fails = Op::total() != before;
        sim::check(o.threw ? fails : cwd == "/sim/work" || fails, "wrong-directory", "get_cwd is " + (o.threw ? o.what : cwd));
      }
      Path path;
      path.set_path(p.empty() ? std::string() : absolute(p) + (v ? "/" : ""));
      SIM_CHECK(path.get_path() == absolute(p), "wrong-path", "set_path made " + path.get_path() + " of " + p);
      path.append("below/");
      SIM_CHECK(path.get_path() == absolute(p) + "/below", "wrong-path", "append made " + path.get_path());
      path.append("/sim/other");
      SIM_CHECK(path.get_path() == "/sim/other", "wrong-path", "append made " + path.get_path());
      Path temp("/sim/other");
      temp.set_as_temp();
      SIM_CHECK(temp.get_path() == temp_directory(), "wrong-path", "set_as_temp made " + temp.get_path() + ", not " + temp_directory());
      start("is_absolute", p);
      Path self(p);
      bool r = self.is_absolute();
      sim::Quiet q;
      sim::check(r ? !p.empty() && p[0] == '/' && op->ever("fd") : p.empty() || p[0] != '/' || op->ever("-") || op->failed_call(), "wrong-class", op->text() + " said " + (r ? "yes" : "no"));
      return;
    }
  }
}
}  // namespace w

void workload() {
  using namespace w;
  int n;
  {
    sim::Quiet q;
    names();
    alloc_faults() = sim::flip(1, 3);
    sim::mark_nontrivial();
    sim::fs::mkdirs("/sim/w");
    sim::fs::mkdirs("/sim/work");
    for (int i = 0, c = sim::choose(16); i < c; ++i) intrude();
    sim::fs::set_env("A_PATH", "/sim/w:/sim/x");
    temp_directory() = "/tmp";
    static const char* const temps[] = {"TEMP", "TMP", "TEMPDIR", "TMPDIR"};  // the last one that is set counts
    for (const char* t : temps)
      if (sim::flip(1, 3)) {
        std::string dir = std::string("/sim/work/of ") + t;
        sim::fs::set_env(t, dir + (sim::flip(1, 2) ? "/" : ""));
        temp_directory() = dir;
      }
    sim::fs::set_dir_salt(sim::choose(100));
    sim::fs::set_stat_junk(true);
    static const uint32_t rates[] = {400, 2000, 8000, 25000};
    if (sim::flip(2, 3))
      for (sim::Fault f : {sim::F_STAT, sim::F_MKDIR, sim::F_READDIR, sim::F_OPEN, sim::F_EIO_READ, sim::F_EINTR_READ, sim::F_SHORT_READ})
        if (sim::flip(1, 3)) sim::set_rate(f, rates[sim::choose(4)]);
    n = sim::flip(1, 3) ? 2 + sim::choose(2) : 1;
    if (sim::flip(1, 2)) {
      sim::set_rate(sim::F_FSRACE, rates[1 + sim::choose(3)]);
      sim::fs::set_racer(intrude);
      sim::probe("another_process");
    }
    if (n > 1) sim::probe("several_threads");
  }
  int steps = 4 + sim::choose(20);
  if (n == 1) {
    for (int i = 0; i < steps; ++i) one(true);
  } else {
    std::vector<int> ids;
    for (int t = 0; t < n; ++t) {
      int id = sim::spawn([&] { for (int i = 0; i < steps; ++i) one(false); });
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
  }
  sim::Quiet q;
  sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", num(sim::fs::open_fds()) + " descriptors are still open");
  uint64_t h = 0;
  for (const auto& x : sim::fs::list()) h = h * 31 + hash_of(x);
  sim::mix_state(h);
}
