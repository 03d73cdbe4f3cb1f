// C11: File exports are complete or report an error.
#include "maliput/utility/generate_urdf.h"
#include "w/rule_queries.h"

const char* const kCheckId = "C11";

namespace {

using namespace w;

struct Export {
  bool urdf = false, from_network = false;
  std::string dir, root;
  utility::ObjFeatures features;
  std::string name() const { return std::string(urdf ? "robot description " : "meshes ") + dir + "/" + root; }
  std::vector<std::string> suffixes() const { return urdf ? std::vector<std::string>{".obj", ".mtl", ".urdf"} : std::vector<std::string>{".obj", ".mtl"}; }
};

void run_export(const Export& e, const std::string& dir, const std::string& root, Network& n) {
  if (e.urdf) utility::GenerateUrdfFile(n.rg(), dir, root, e.features);
  else if (e.from_network) utility::GenerateObjFile(n.rn.get(), dir, root, e.features);
  else utility::GenerateObjFile(n.rg(), dir, root, e.features);
}

// What an undisturbed export writes, by suffix; empty if it is refused.
std::map<std::string, std::string> undisturbed(const Export& e, Network& n) {
  std::map<std::string, std::string> out;
  { sim::Quiet q; sim::fs::mkdirs("/sim/reference"); }
  Outcome o = attempt([&] { run_export(e, "/sim/reference", e.root, n); });
  sim::Quiet q;
  if (!o.threw)
    for (const auto& s : e.suffixes()) {
      std::string d;
      sim::check(sim::fs::get("/sim/reference/" + e.root + s, &d), "file-missing", "an undisturbed export of " + e.name() + " leaves no file " + s);
      sim::check(!d.empty(), "file-empty", "an undisturbed export of " + e.name() + " leaves an empty " + s);
      out[s] = d;
    }
  sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", "an undisturbed export leaves a file open");
  sim::fs::remove("/sim/reference");
  return out;
}

size_t total(const std::map<std::string, std::string>& files) {
  size_t n = 0;
  for (const auto& f : files) n += f.second.size();
  return n;
}

enum Trouble { kNone, kNoDirectory, kDirectoryIsFile, kTargetIsDirectory };

}  // namespace

void workload() {
  sim::set_step_cap(800000000);
  std::unique_ptr<NetworkPlan> plan;
  std::vector<Export> exports;
  std::vector<Trouble> troubles;
  {
    sim::Quiet q;
    names();
    plan = std::make_unique<NetworkPlan>(sim::flip(1, 8) ? 2 : 1);
    alloc_faults() = sim::flip(1, 4);
    for (int i = 0, n = sim::flip(1, 4) ? 2 : 1; i < n; ++i) {
      Export e;
      e.urdf = sim::flip(1, 2);
      e.from_network = sim::flip(1, 3);
      e.features = random_features(*plan);
      // The meshes are not what is looked at here, but the files must be longer than a stream's buffer.
      e.features.max_grid_unit = sim::flip(1, 2) ? 2. : 5.;
      e.features.simplify_mesh_threshold = sim::flip(1, 12) ? .1 : 0.;
      e.dir = sim::flip(1, 4) ? "exports" : "/sim/exports";  // relative to /sim/work
      e.root = i ? "second" : sim::flip(1, 3) ? "a file name that is longer than usual" : "first";
      exports.push_back(e);
      troubles.push_back(sim::flip(1, 8) ? static_cast<Trouble>(1 + sim::choose(3)) : kNone);
    }
    sim::fs::mkdirs("/sim/work");
  }
  auto net = build_network(*plan);
  std::vector<std::map<std::string, std::string>> want;
  for (const auto& e : exports) want.push_back(undisturbed(e, *net));
  bool clean = true;  // no lasting trouble was arranged
  {
    sim::Quiet q;
    for (size_t i = 0; i < exports.size(); ++i) {
      const auto& e = exports[i];
      if (troubles[i] == kDirectoryIsFile) exports[i].dir = "/sim/file " + num(i);
      if (troubles[i] == kNoDirectory) exports[i].dir = "/sim/absent " + num(i);
      if (troubles[i] == kDirectoryIsFile) sim::fs::put(e.dir, "a file");
      else if (troubles[i] != kNoDirectory) sim::fs::mkdirs(e.dir);
      if (troubles[i] == kTargetIsDirectory) {
        auto s = e.suffixes();
        sim::fs::mkdirs(e.dir + "/" + e.root + s[sim::choose(s.size())]);
      } else if (troubles[i] == kNone && sim::flip(1, 3)) {
        for (const auto& s : e.suffixes())  // what an earlier export left there
          if (sim::flip(1, 2)) sim::fs::put(e.dir + "/" + e.root + s, std::string(1 + sim::choose(9) * (total(want[i]) / 4), '#'));
      }
      if (troubles[i] != kNone) clean = false;
    }
    static const uint32_t rates[] = {300, 1500, 8000, 25000};
    struct { sim::Fault f; bool lasting; } kinds[] = {{sim::F_SHORT_WRITE, false}, {sim::F_EINTR_WRITE, false}, {sim::F_ENOSPC, true}, {sim::F_EIO_WRITE, true}, {sim::F_OPEN, true}, {sim::F_CLOSE, true}};
    int mode = sim::choose(4);  // none, transient only, any
    if (mode)
      for (auto& k : kinds)
        if ((mode > 1 || !k.lasting) && sim::flip(1, mode == 3 ? 3 : 2)) sim::set_rate(k.f, rates[sim::choose(4)]);
    if (mode == 3 && sim::flip(1, 2)) {
      size_t all = 0;
      for (const auto& n : sim::fs::list()) { std::string d; if (sim::fs::get(n, &d)) all += d.size(); }
      long room = static_cast<long>(all);
      for (const auto& wnt : want) room += total(wnt);
      sim::fs::set_capacity(sim::choose(3) == 0 ? room - 1 - static_cast<long>(sim::choose(200)) : static_cast<long>(sim::choose(room + 1)));
    }
    sim::fs::io_error_reported = false;
  }
  struct Result { Outcome o; bool error = false; };
  std::vector<Result> results(exports.size());
  std::vector<uint32_t> ks;
  { sim::Quiet q; for (size_t i = 0; i < exports.size(); ++i) ks.push_back(alloc_faults() && sim::flip(1, 2) ? 1 + sim::choose(sim::flip(1, 2) ? 400 : 20000) : 0); }
  auto one = [&](size_t i) {
    SIM_EVENT("exports " + exports[i].name() + (ks[i] ? " with allocation " + num(ks[i]) + " failing" : std::string()));
    Outcome o = attempt([&] { run_export(exports[i], exports[i].dir, exports[i].root, *net); }, ks[i]);
    sim::Quiet q;
    sim::event(o.threw ? "-> " + o.what : "-> done");
    results[i].o = o;
    if (!o.threw) {
      // The data are on disk and closed now, not only later.
      sim::check(!want[i].empty(), "refused-export-accepted", exports[i].name() + " was refused when undisturbed but is accepted now");
      sim::check(troubles[i] == kNone, "failure-not-reported", exports[i].name() + " cannot be written but the export returned normally");
      for (const auto& f : want[i]) {
        std::string d, path = exports[i].dir + "/" + exports[i].root + f.first;
        sim::check(sim::fs::get(path, &d), "file-missing", "the export of " + exports[i].name() + " returned normally without " + f.first);
        sim::check(d.size() >= f.second.size() || f.second.compare(0, d.size(), d), "file-truncated",
                   "the export of " + exports[i].name() + " returned normally but " + f.first + " has only " + num(d.size()) + " of " + num(f.second.size()) + " bytes");
        sim::check(d == f.second, "file-differs", "the export of " + exports[i].name() + " returned normally but " + f.first + " has not the bytes of an undisturbed export (" + num(d.size()) + ", not " + num(f.second.size()) + " bytes)");
      }
      sim::probe("export_complete");
    } else {
      sim::check(want[i].empty() || troubles[i] != kNone || o.injected || sim::fs::io_error_reported || sim::faults_fired(sim::F_CLOSE), "export-failed",
                 "the export of " + exports[i].name() + " failed although no system call did: " + o.what);
      sim::probe("export_failed");
      if (!o.injected && sim::fs::io_error_reported) sim::probe("io_error_reported_by_exception");
    }
  };
  if (exports.size() == 1) one(0);
  else {
    std::vector<int> ids;
    for (size_t i = 0; i < exports.size(); ++i) {
      int id = sim::spawn([&, i] { one(i); });
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
  }
  {
    sim::Quiet q;
    sim::mark_nontrivial();
    sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", "a file is still open after the exports");
    // The trouble ends.
    for (int f = 0; f < sim::F_COUNT; ++f) if (f != sim::F_ALLOC) sim::set_rate(static_cast<sim::Fault>(f), 0);
    sim::fs::set_capacity(-1);
    sim::fs::io_error_reported = false;
  }
  for (size_t i = 0; i < exports.size(); ++i)
    if (troubles[i] == kNone && results[i].o.threw && !want[i].empty()) {
      ks[i] = 0;
      SIM_EVENT("tries again");
      one(i);
      SIM_CHECK(!results[i].o.threw, "export-failed", "the export of " + exports[i].name() + " still fails when nothing is in its way: " + results[i].o.what);
    }
  sim::Quiet q;
  uint64_t h = 0;
  for (const auto& n : sim::fs::list()) { std::string d; sim::fs::get(n, &d); h ^= hash_of(n + d); }
  sim::mix_state(h);
  (void)clean;
}
