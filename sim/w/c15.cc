// C15: logging from several threads, from first use on.
#include <iostream>

#include "maliput/api/lane_data.h"
#include "maliput/common/logger.h"
#include "w/common.h"

const char* const kCheckId = "C15";

namespace w {
namespace logger = maliput::common::logger;
using maliput::common::SinkBase;

struct SinkFailed : std::runtime_error { SinkFailed() : std::runtime_error("the sink throws") {} };

struct Received { std::string text; int sink; uint64_t at; };
struct Logged {
  std::string text;       // what must reach the sink
  bool above = true;      // at or above the level
  int thread = 0;
  uint64_t from = 0, to = 0;
  Outcome outcome;
  bool sink_threw = false;
};
struct World {
  std::vector<Received> received;
  std::vector<Logged> logged;
  uint64_t clock = 0;
  int sinks_alive = 0;
};
World& world() { static World* w = new World; return *w; }

class SimSink : public SinkBase {
 public:
  explicit SimSink(int id) : id_(id) { sim::Quiet q; ++world().sinks_alive; }
  ~SimSink() override { sim::Quiet q; --world().sinks_alive; }
  void log(const std::string& msg) override {
    sim::yield_point();
    {
      sim::Quiet q;
      world().received.push_back({msg, id_, ++world().clock});
    }
    if (sim::flip(1, 3)) sim::yield_point();
    if (sim::fault(sim::F_TASK_THROW)) throw SinkFailed();
  }
  void flush() override {}

 private:
  int id_;
};

// Catches what the default sink prints.
struct Capture : std::streambuf {
  std::string text;
  int overflow(int c) override { sim::Quiet q; if (c != EOF) text.push_back(static_cast<char>(c)); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::Quiet q; text.append(s, n); return n; }
};

const char* const kPrefix[] = {"[TRACE] ", "[DEBUG] ", "[INFO] ", "[WARNING] ", "[ERROR] ", "[CRITICAL] "};
const char* const kNames[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};

template <class... A>
void send(int level, const A&... a) {
  maliput::common::Logger* l = maliput::log();
  switch (level) {
    case 0: l->trace(a...); break;
    case 1: l->debug(a...); break;
    case 2: l->info(a...); break;
    case 3: l->warn(a...); break;
    case 4: l->error(a...); break;
    default: l->critical(a...);
  }
}

// Logs one message whose text is unique.
void log_one(int thread, int seq, int min_level) {
  int level = sim::choose(6);
  int shape = sim::choose(7);
  uint32_t k = alloc_faults() && sim::flip(1, 3) ? 1 + sim::choose(12) : 0;
  size_t index;
  std::string tag, big;
  {
    sim::Quiet q;
    tag = "t" + num(thread) + "." + num(seq);
    big = shape == 4 ? std::string(600 + sim::choose(2000), static_cast<char>('a' + thread)) : "x";
    Logged l;
    l.thread = thread;
    l.above = level >= min_level;
    std::string body;
    switch (shape) {
      case 0: body = tag; break;
      case 1: body = tag + " is " + num(seq) + " of 1.5"; break;
      case 2: body = "message " + tag + " with " + num(-7) + " a, b and 1"; break;
      case 3: body = tag; break;
      case 4: body = tag + big + tag; break;
      case 5: body = tag + "(x = 1, y = 2, z = 3)" + "a lane"; break;
      default: body = tag + "0123456789" + tag;
    }
    l.text = kPrefix[level] + body + "\n";
    l.from = ++world().clock;
    index = world().logged.size();
    world().logged.push_back(l);
    if (k) sim::event("logs " + tag + " with allocation " + num(k) + " failing");
  }
  bool sink_threw = false;
  Outcome o = attempt([&] {
    try {
      switch (shape) {
        case 0: send(level, tag); break;
        case 1: send(level, tag, " is ", seq, " of ", 1.5); break;
        case 2: send(level, "message ", tag, " with ", -7, ' ', 'a', ", ", "b", " and ", true); break;
        case 3: send(level, tag.c_str()); break;
        case 4: send(level, tag, big, tag); break;
        case 5: send(level, tag, maliput::api::InertialPosition(1, 2, 3), maliput::api::LaneId("a lane")); break;
        default: send(level, tag, 0, 1, 2u, 3l, 4ul, '5', "6", std::string("7"), 8ll, 9., tag);
      }
    } catch (const SinkFailed&) {
      sink_threw = true;
    }
  }, k);
  sim::Quiet q;
  Logged& l = world().logged[index];
  l.to = ++world().clock;
  l.outcome = o;
  l.sink_threw = sink_threw;
  sim::check(!o.threw || o.injected, "threw", "logging " + l.text + " threw " + o.what);
}

void check_round(int sink) {
  sim::Quiet q;
  World& W = world();
  std::map<std::string, std::vector<const Received*>> by;
  for (const auto& r : W.received) {
    by[r.text].push_back(&r);
    sim::check(r.sink == sink, "replaced-sink-used", "sink " + num(r.sink) + " got " + r.text + "although sink " + num(sink) + " is in place");
  }
  for (const auto& l : W.logged) {
    auto it = by.find(l.text);
    size_t n = it == by.end() ? 0 : it->second.size();
    sim::check(n <= 1, "message-repeated", "the sink got " + num(n) + " times " + l.text);
    if (!l.above) sim::check(n == 0, "message-below-level", "the sink got " + l.text + "which is below the level");
    else if (!l.outcome.threw) sim::check(n == 1, "message-lost", "the sink did not get " + l.text);
    if (n) sim::check(it->second[0]->at > l.from && it->second[0]->at < l.to, "message-late", "the sink did not get " + l.text + "while it was being logged");
    if (n) by.erase(it);
  }
  for (const auto& e : by) sim::violation("strange-message", "the sink got " + e.first + "which nobody logged");
  uint64_t h = 0;
  for (const auto& r : W.received) h = h * 31 + hash_of(r.text);
  sim::mix_state(h);
  W.received.clear();
  W.logged.clear();
}

maliput::common::Logger* first_use(std::set<maliput::common::Logger*>* seen) {
  maliput::common::Logger* l = nullptr;
  uint32_t k = alloc_faults() && sim::flip(1, 2) ? 1 + sim::choose(3) : 0;
  Outcome o = attempt([&] { l = maliput::log(); }, k);
  SIM_CHECK(!o.threw || o.injected, "threw", "maliput::log() threw " + o.what);
  sim::Quiet q;
  if (l) seen->insert(l);
  sim::check(seen->size() <= 1, "several-loggers", "maliput::log() is not always the same logger");
  return l;
}
}  // namespace w

void workload() {
  using namespace w;
  {
    sim::Quiet q;
    names();
    alloc_faults() = sim::flip(1, 3);
    sim::mark_nontrivial();
    static const uint32_t rates[] = {0, 0, 3000, 15000};
    sim::set_rate(sim::F_TASK_THROW, rates[sim::choose(4)]);
  }
  std::set<maliput::common::Logger*> seen;
  int level = logger::info;
  int sink = 0, next_sink = 1;
  int n = 1 + sim::choose(4);
  Capture capture;
  bool default_sink = sim::flip(1, 5);
  if (n > 1) sim::probe("several_threads");
  std::streambuf* old = std::cout.rdbuf(&capture);
  if (default_sink) {
    // The sink that is there from the start prints each message.
    sim::probe("default_sink");
    std::string want;
    std::vector<int> ids;
    for (int i = 0, c = 1 + sim::choose(5); i < c; ++i) {
      int lv = sim::choose(6);
      SIM_EVENT("prints message " + num(i) + " at level " + kNames[lv]);
      send(lv, "message ", i, ".");
      sim::Quiet q;
      if (lv >= level) want += std::string(kPrefix[lv]) + "message " + num(i) + ".\n\n";
      sim::check(capture.text == want, "wrong-output", "the default sink printed\n" + capture.text + "not\n" + want);
    }
  } else if (n > 1) {
    // The first to ask make the logger.
    std::vector<int> ids;
    for (int t = 0; t < n; ++t) {
      int id = sim::spawn([&] { while (!first_use(&seen)) {} });
      sim::Quiet q;
      ids.push_back(id);
    }
    for (int id : ids) sim::join(id);
  }
  for (int round = 0, rounds = 1 + sim::choose(4); round < rounds; ++round) {
    first_use(&seen);
    // Changes are made while nobody logs.
    for (int c = sim::choose(3); c >= 0; --c) {
      int what = sink == 0 ? 0 : sim::choose(6);
      if (what < 2) {
        SIM_EVENT("sets sink " + num(next_sink));
        uint32_t k = alloc_faults() && sim::flip(1, 2) ? 1 + sim::choose(3) : 0;
        Outcome o = attempt([&] { maliput::log()->set_sink(std::make_unique<SimSink>(next_sink)); }, k);
        SIM_CHECK(!o.threw || o.injected, "threw", "set_sink threw " + o.what);
        if (!o.threw) sink = next_sink;
        ++next_sink;
        if (sink == 0) { maliput::log()->set_sink(std::make_unique<SimSink>(next_sink)); sink = next_sink++; }
        SIM_CHECK(world().sinks_alive == 1, "sink-kept", num(world().sinks_alive) + " sinks are alive");
      } else if (what == 2) {
        Outcome o = attempt([&] { maliput::log()->set_sink(nullptr); });
        SIM_CHECK(o.threw, "null-sink-accepted", "a null sink was accepted");
      } else if (what == 3) {
        Outcome o = attempt([&] { maliput::common::set_log_level("no such level"); });
        SIM_CHECK(o.threw, "unknown-level-accepted", "an unknown level was accepted");
      } else if (what == 4) {
        std::string was = maliput::log()->set_level(logger::unchanged);
        SIM_CHECK(was == kNames[level], "wrong-level", "the level is " + was + ", not " + kNames[level]);
      } else {
        int to = sim::choose(7);
        SIM_EVENT(std::string("sets level ") + kNames[to]);
        std::string was = sim::flip(1, 2) ? maliput::common::set_log_level(kNames[to]) : maliput::log()->set_level(static_cast<logger::level>(to));
        SIM_CHECK(was == kNames[level], "wrong-level", "the level was " + was + ", not " + kNames[level]);
        level = to;
      }
    }
    int m = 1 + sim::choose(6);
    if (n == 1) {
      for (int i = 0; i < m; ++i) log_one(0, round * 100 + i, level);
    } else {
      std::vector<int> ids;
      for (int t = 0; t < n; ++t) {
        int id = sim::spawn([&, t] {
          for (int i = 0; i < m; ++i) {
            if (sim::flip(1, 6)) first_use(&seen);
            log_one(t, round * 100 + i, level);
          }
        });
        sim::Quiet q;
        ids.push_back(id);
      }
      for (int id : ids) sim::join(id);
    }
    check_round(sink);
  }
  std::cout.rdbuf(old);
}
