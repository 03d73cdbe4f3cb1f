// C12: Configuration files load completely and faithfully, or are refused.
#include "w/docs.h"

const char* const kCheckId = "C12";

namespace docs {
enum State { kIntact, kWrong, kDamaged, kAbsent, kDirectory };
struct Op {
  Doc* doc;
  State state = kIntact;
  std::string text, path;
  bool from_file = true, must_throw = false;
  std::string want, what;
  uint32_t k = 0;
  int errors_before = 0;
};

}  // namespace docs

void workload() {
  using namespace docs;
  sim::set_step_cap(100000000);
  auto world = std::make_unique<World>();
  NetSpec spec;
  { sim::Quiet q; ids(); spec = random_net(2); }
  world->net = build_net(spec);
  std::vector<std::unique_ptr<Doc>> docs;
  std::vector<std::vector<Op>> users;
  bool bad_alloc_run;
  {
    sim::Quiet q;
    for (size_t s = 0; s < world->net.lanes.size(); ++s)
      for (auto* l : world->net.lanes[s]) { world->lanes.ids.push_back(l->id()); world->lanes.lengths.push_back(l->length()); }
    bad_alloc_run = sim::flip(1, 4);
    for (int i = 0, n = 1 + sim::choose(2); i < n; ++i) docs.push_back(random_doc(*world));
    sim::fs::mkdirs("/sim/work");
    users.resize(1 + (sim::flip(1, 2) ? sim::choose(3) : 0));
    int serial = 0;
    for (auto& u : users)
      for (int i = 0, n = 1 + sim::choose(3); i < n; ++i) {
        Op o;
        o.doc = docs[sim::choose(docs.size())].get();
        o.from_file = !sim::flip(1, 6);
        static const State st[] = {kIntact, kIntact, kIntact, kWrong, kWrong, kWrong, kDamaged, kDamaged, kAbsent, kDirectory};
        o.state = st[sim::choose(10)];
        if (!o.from_file && o.state >= kAbsent) o.state = kWrong;
        if (o.state == kWrong && o.doc->wrong_text.empty()) o.state = kIntact;
        o.text = o.state == kWrong ? o.doc->wrong_text : o.doc->text;
        if (o.state == kDamaged && !o.text.empty()) {
          if (sim::flip(1, 2)) o.text.resize(sim::choose(o.text.size()));
          else
            for (int j = 0, m = 1 + sim::choose(3); j < m; ++j) {
              static const char bytes[] = "\n :-[]{}#'\"&*!|>%@,?\t0aZ~\x01\x80\xff";
              size_t at = sim::choose(o.text.size());
              uint32_t how = sim::choose(3);
              if (how == 0) o.text[at] = bytes[sim::choose(sizeof bytes - 1)];
              else if (how == 1) o.text.erase(at, 1 + sim::choose(4));
              else o.text.insert(at, 1, bytes[sim::choose(sizeof bytes - 1)]);
              if (o.text.empty()) break;
            }
        }
        o.path = sim::flip(1, 3) ? "work file " + num(serial) + ".yaml" : "/sim/work/" + num(serial) + ".yaml";
        ++serial;
        std::string full = o.path[0] == '/' ? o.path : "/sim/work/" + o.path;
        if (o.state == kDirectory) sim::fs::mkdirs(full);
        else if (o.state != kAbsent) sim::fs::put(full, o.text);
        o.must_throw = o.state == kWrong || o.state >= kAbsent;
        o.want = o.doc->want;
        o.what = std::string(kKindName[o.doc->kind]) + (o.state == kWrong ? " with a mistake (" + o.doc->mistake + ")" : o.state == kDamaged ? " with damaged bytes" : o.state == kAbsent ? ", a file that is absent" : o.state == kDirectory ? ", a directory" : "") +
                 (o.from_file ? " from " + full : " from a string");
        o.path = o.from_file ? o.path : std::string();
        if (bad_alloc_run && sim::flip(1, 2)) o.k = 1 + sim::choose(sim::flip(1, 2) ? 60 : 3000);
        u.push_back(o);
      }
  }
  // What damaged bytes mean: what the same loader makes of them when nothing disturbs it.
  for (auto& u : users)
    for (auto& o : u)
      if (o.state == kDamaged) {
        std::string got;
        Outcome out = attempt([&] { got = load(*o.doc, *world, false, o.text); });
        sim::Quiet q;
        o.must_throw = out.threw;
        o.want = got;
        if (!out.threw) sim::probe("damaged_but_readable");
      }
  {
    sim::Quiet q;
    static const uint32_t rates[] = {1500, 8000, 20000};
    struct { sim::Fault f; bool lasting; } kinds[] = {{sim::F_SHORT_READ, false}, {sim::F_EINTR_READ, false}, {sim::F_EIO_READ, true}, {sim::F_OPEN, true}};
    int mode = sim::choose(3);
    if (mode)
      for (auto& k : kinds)
        if ((mode > 1 || !k.lasting) && sim::flip(1, 2)) sim::set_rate(k.f, rates[sim::choose(3)]);
    sim::fs::io_error_reported = false;
  }
  auto run = [&](Op& o) {
    std::string got, full;
    { sim::Quiet q; full = o.path.empty() || o.path[0] == '/' ? o.path : "/sim/work/" + o.path; o.errors_before = sim::fs::errors_on(full); sim::event("loads " + o.what + (o.k ? " with allocation " + num(o.k) + " failing" : std::string())); }
    Outcome out = attempt([&] { got = load(*o.doc, *world, o.from_file, o.from_file ? o.path : o.text); }, o.k);
    sim::Quiet q;
    int errors = o.from_file && (o.state < kAbsent) ? sim::fs::errors_on(full) - o.errors_before : 0;
    sim::event(out.threw ? "-> " + out.what : "-> loaded");
    if (out.threw) {
      if (errors) sim::probe("read_error_reported");
      sim::check(o.must_throw || out.injected || errors, "load-refused", "loading " + o.what + " was refused: " + out.what + "\n" + o.text.substr(0, 400));
      sim::probe("load_refused");
      return;
    }
    sim::check(!errors, "read-error-ignored", "loading " + o.what + " returned normally although reading the file failed (" + sim::fs::last_error_desc() + ")");
    sim::check(!o.must_throw, "mistake-accepted", "loading " + o.what + " returned normally");
    sim::check(got == o.want, "contents-differ", "loading " + o.what + " gives " + difference(got, o.want));
    sim::probe("loaded");
    if (out.injected) sim::probe("loaded_despite_failed_allocation");
  };
  if (users.size() == 1) for (auto& o : users[0]) run(o);
  else {
    std::vector<int> tasks;
    for (auto& u : users) {
      int id = sim::spawn([&u, &run] { for (auto& o : u) run(o); });
      sim::Quiet q;
      tasks.push_back(id);
    }
    for (int id : tasks) sim::join(id);
  }
  {
    sim::Quiet q;
    sim::mark_nontrivial();
    sim::check(sim::fs::open_fds() == 0, "descriptor-leaked", "a file is still open after loading");
    for (int f = 0; f < sim::F_COUNT; ++f) if (f != sim::F_ALLOC) sim::set_rate(static_cast<sim::Fault>(f), 0);
  }
  // Undisturbed, everything loads.
  uint64_t h = 0;
  for (auto& u : users)
    for (auto& o : u) {
      o.k = 0;
      run(o);
      sim::Quiet q;
      h ^= hash_of(o.text + o.want);
    }
  SIM_CHECK(sim::fs::open_fds() == 0, "descriptor-leaked", "a file is still open after loading");
  sim::Quiet q;
  sim::mix_state(h);
}
