// Thread pool workload shared by C01, C02 and C03: a controller drives one or more pools through a random history of
// operations; pool threads run under the simulated scheduler; the model below records what every task did.
#pragma once
#include <cstdio>
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include "maliput/utility/thread_pool.h"
#include "rt.h"

namespace poolsim {

enum Mode { kOnce, kShutdown, kCancel };

using maliput::utility::ThreadPool;

struct TaskError {
  int id;
};

struct Gate {  // opened once by the controller
  std::mutex m;
  std::condition_variable c;
  bool open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    c.wait(l, [this] { return open; });
  }
  void release() {
    std::unique_lock<std::mutex> l(m);
    open = true;
    c.notify_all();
  }
};

struct Rendezvous {  // passed when `need` tasks are inside at the same time
  std::mutex m;
  std::condition_variable c;
  int in = 0;
  int need = 0;
  void arrive() {
    std::unique_lock<std::mutex> l(m);
    ++in;
    if (in == need) c.notify_all();
    c.wait(l, [this] { return in >= need; });
  }
};

enum Kind { kValue, kVoid, kThrow, kText, kUnique, kSleep, kGate, kMeet, kNested };

struct Rec {  // what the model knows about one queued task
  int id = 0;
  Kind kind = kValue;
  int started = 0;
  int finished = 0;
  int by = -1;
  bool accepted = false;
  bool cancelled = false;     // certainly cancelled
  int epoch = 0;              // number of cancellations before it was queued
  bool collected = false;
};

struct World {
  std::vector<Rec> recs;
  std::vector<int> order;     // accepted tasks in the order of queueing
  int n = 0;                  // pool threads
  bool started = false;       // Start() was called
  bool finish_returned = false;
  int controller = 0;
  int epoch = 0;
  int running_now = 0, max_running = 0;
  std::vector<int> pool_tasks;  // simulated threads that ran a task
};

struct Cell {
  int value = 0;  // plain memory written by the task and read by whoever learned that it ended
  std::string text;
};

// Threads of another pool that stays idle meanwhile.
inline int& bystanders() {
  static int n = 0;
  return n;
}

inline World*& world() {
  static World* w = nullptr;
  return w;
}

inline void begin_task(int id) {
  sim::Quiet q;
  World* w = world();
  if (!w) sim::violation("runs-after-end", "a task ran after its pool was destroyed");
  Rec& r = w->recs[id];
  r.started++;
  r.by = sim::current_task();
  sim::event("task " + std::to_string(id) + " begins");
  if (r.started > 1) sim::violation("ran-twice", "task " + std::to_string(id) + " was run more than once");
  if (!w->started) sim::violation("ran-before-start", "task " + std::to_string(id) + " ran before the pool was started");
  if (w->finish_returned) sim::violation("ran-after-finish", "task " + std::to_string(id) + " ran after finish returned");
  if (r.by == w->controller) sim::violation("wrong-thread", "a task ran on the controlling thread");
  if (r.cancelled) sim::violation("ran-cancelled", "task " + std::to_string(id) + " ran although no thread had started it when it was cancelled");
  int earlier = 0;
  for (int o : w->order) {
    if (o == id) break;
    if (!w->recs[o].started && !w->recs[o].cancelled && w->recs[o].epoch == r.epoch) ++earlier;
  }
  if (earlier > w->n - 1)
    sim::violation("out-of-order", "task " + std::to_string(id) + " began while " + std::to_string(earlier) + " tasks queued before it had not, with " + std::to_string(w->n) + " threads");
  if (w->n == 1 && w->running_now > 0) sim::violation("too-many-threads", "two tasks run at once in a pool of one thread");
  if (++w->running_now > w->n) sim::violation("too-many-threads", "more tasks run at once than the pool has threads");
  if (w->running_now > w->max_running) w->max_running = w->running_now;
  bool seen = false;
  for (int t : w->pool_tasks) seen |= t == r.by;
  if (!seen) w->pool_tasks.push_back(r.by);
}
inline void end_task(int id) {
  sim::Quiet q;
  World* w = world();
  w->recs[id].finished++;
  w->running_now--;
  sim::event("task " + std::to_string(id) + " ends");
}

struct Pending {  // a future held by somebody
  int id;
  Kind kind;
  std::shared_ptr<Cell> cell;
  std::future<int> fi;
  std::future<void> fv;
  std::future<std::string> fs;
  std::future<std::unique_ptr<int>> fu;
};

inline void check_cell(const Pending& p) {
  // Read outside quiet code, so that the race detector sees whether the write is visible here.
  int v = p.cell->value;
  size_t n = p.cell->text.size();
  SIM_CHECK(v == 1000 + p.id, "write-lost", "what task " + std::to_string(p.id) + " wrote is not visible to whoever learned its outcome");
  SIM_CHECK(n == static_cast<size_t>(20 + p.id % 50), "write-lost", "text written by task " + std::to_string(p.id) + " is not visible");
}

// Takes the outcome of a future and compares it with what the model says. `final`: no task of the pool can run any more.
inline void collect(Pending* p) {
  bool broken = false, threw = false, foreign = false;
  int thrown_id = -1;
  std::string got;
  try {
    switch (p->kind) {
      case kText: {
        std::string s = p->fs.get();
        { sim::Quiet q; got = s; }
        break;
      }
      case kUnique: {
        std::unique_ptr<int> u = p->fu.get();
        int x = *u;
        { sim::Quiet q; got = std::to_string(x); }
        break;
      }
      case kVoid: case kGate: case kMeet: p->fv.get(); break;
      default: {
        int x = p->fi.get();
        { sim::Quiet q; got = std::to_string(x); }
      }
    }
  } catch (const std::future_error& e) {
    broken = true;
  } catch (const TaskError& e) {
    threw = true;
    thrown_id = e.id;
  } catch (...) {
    foreign = true;
  }
  {
    sim::Quiet q;
    Rec& r = world()->recs[p->id];
    std::string who = "task " + std::to_string(p->id);
    sim::event("outcome of " + who + ": " + (broken ? "broken promise" : threw ? "exception" : "value " + got));
    if (r.collected) sim::violation("harness", "collected twice");
    r.collected = true;
    if (foreign) sim::violation("wrong-outcome", who + " delivered an exception it did not throw");
    if (broken) {
      if (r.started) sim::violation("outcome-lost", who + " ran but its future reports a broken promise");
    } else {
      if (!r.started) sim::violation("outcome-without-run", who + " never ran but its future has an outcome");
      if (p->kind == kThrow) {
        if (!threw || thrown_id != p->id) sim::violation("wrong-outcome", who + " threw but its future does not yield that exception");
      } else {
        if (threw) sim::violation("wrong-outcome", who + " returned but its future throws");
        std::string want = p->kind == kText ? std::string(30 + p->id % 7, 'a' + p->id % 26)
                           : (p->kind == kVoid || p->kind == kGate || p->kind == kMeet) ? std::string() : std::to_string(p->id * 3 + 1);
        if (got != want) sim::violation("wrong-outcome", who + " returned " + want + " but its future yields " + got);
      }
    }
  }
  if (!broken) check_cell(*p);
}

// The body every task shares; returns normally or throws.
inline void work(int id, Kind kind, Cell* cell, int pause, Gate* gate, Rendezvous* meet) {
  begin_task(id);
  cell->value = 1000 + id;
  cell->text.assign(20 + id % 50, 'x');
  for (int i = 0; i < pause % 4; ++i) sim::yield_point();
  if (kind == kSleep) sim::sleep_ns(1000 + 997 * pause);
  if (kind == kGate) gate->wait();
  if (kind == kMeet) meet->arrive();
  end_task(id);
  if (kind == kThrow) throw TaskError{id};
}

struct Driver {
  Mode mode;
  World w;
  ThreadPool* pool = nullptr;
  std::vector<std::unique_ptr<Pending>> held;       // futures of the controller
  std::vector<std::unique_ptr<Pending>> observed;   // futures handed to an observer
  std::vector<int> observers;
  std::vector<std::unique_ptr<Gate>> gates;
  std::unique_ptr<Rendezvous> meet;
  bool finished = false;                            // Finish() was called
  int gates_waiting = 0;

  static std::string num(long x) { return std::to_string(x); }

  // Queues one task; returns whether it was accepted.
  bool queue(Kind kind, uint32_t alloc_k = 0) {
    int id;
    std::shared_ptr<Cell> cell;
    std::unique_ptr<Pending> p;
    Gate* gate = nullptr;
    Rendezvous* mt = meet.get();
    int pause = sim::choose(8);
    {
      sim::Quiet q;
      id = static_cast<int>(w.recs.size());
      Rec r;
      r.id = id; r.kind = kind; r.epoch = w.epoch;
      w.recs.push_back(r);
      w.recs[id].accepted = true;
      w.order.push_back(id);
      if (kind == kGate) { gates.push_back(std::make_unique<Gate>()); gate = gates.back().get(); }
    }
    cell = std::make_shared<Cell>();
    { sim::Quiet q; p = std::make_unique<Pending>(); p->id = id; p->kind = kind; p->cell = cell; }
    bool threw = false;
    bool injected = false;
    try {
      sim::AllocFail af(alloc_k);
      struct Note { sim::AllocFail* a; bool* f; ~Note() { *f = a->fired(); } } note{&af, &injected};
      switch (kind) {
        case kText:
          p->fs = pool->Queue([=]() -> std::string { work(id, kind, cell.get(), pause, gate, mt); return std::string(30 + id % 7, 'a' + id % 26); });
          break;
        case kUnique: {
          auto token = std::make_unique<int>(id * 3 + 1);
          p->fu = pool->Queue([=, t = std::move(token)]() mutable -> std::unique_ptr<int> { work(id, kind, cell.get(), pause, gate, mt); return std::move(t); });
          break;
        }
        case kVoid: case kGate: case kMeet:
          p->fv = pool->Queue([=]() { work(id, kind, cell.get(), pause, gate, mt); });
          break;
        default:
          p->fi = pool->Queue([=]() -> int { work(id, kind, cell.get(), pause, gate, mt); return id * 3 + 1; });
      }
    } catch (const std::exception& e) {
      threw = true;
    }
    sim::Quiet q;
    sim::event("queue task " + num(id) + " kind " + num(kind) + (threw ? " rejected" : ""));
    if (threw) {
      w.recs[id].accepted = false;
      if (w.recs[id].started) sim::violation("rejected-task-ran", "a task whose queueing threw was run");
      for (size_t i = 0; i < w.order.size(); ++i) if (w.order[i] == id) { w.order.erase(w.order.begin() + i); break; }
      if (!finished && !injected) sim::violation("queue-rejected", "queueing to a pool that is not finished threw");
      if (kind == kGate) gates.pop_back();
      return false;
    }
    if (finished) sim::violation("queue-accepted", "queueing to a finished pool was accepted");
    if (kind == kGate) ++gates_waiting;
    held.push_back(std::move(p));
    return true;
  }

  void check_running(bool want, const char* when) {
    bool r = pool->is_running();
    SIM_CHECK(r == want, "running-flag", std::string("is_running() is ") + (r ? "true " : "false ") + when);
  }

  void start() {
    bool should = !w.started && !finished;
    bool threw = false;
    { sim::Quiet q; if (should) w.started = true; sim::event("start"); }
    try {
      pool->Start();
    } catch (const std::exception&) {
      threw = true;
    }
    SIM_CHECK(!threw || !should, "start-rejected", "Start() threw on a pool that was neither running nor finished");
    SIM_CHECK(threw || should, "start-accepted", std::string("Start() was accepted on a ") + (finished ? "finished" : "running") + " pool");
    check_running(w.started && !finished, "after Start()");
  }

  void open_gates() {
    for (auto& g : gates) g->release();
    gates_waiting = 0;
  }

  void finish() {
    open_gates();
    SIM_EVENT("finish");
    pool->Finish();
    finished = true;
    { sim::Quiet q; w.finish_returned = true; after_end("Finish()"); }
    check_running(false, "after Finish()");
  }

  // Quiet. Nothing of the pool is left.
  void after_end(const char* what) {
    sim::event(std::string(what) + " returned");
    for (Rec& r : w.recs) {
      if (!r.accepted) continue;
      if (r.started && !r.finished) sim::violation("finish-too-early", std::string(what) + " returned while task " + num(r.id) + " was running");
      if (w.started && !r.started && !r.cancelled && r.epoch == w.epoch)
        sim::violation("task-lost", std::string(what) + " returned but accepted task " + num(r.id) + " never ran");
    }
    int helpers = 0;
    for (int o : observers) helpers += !sim::task_done(o);
    if (sim::tasks_alive() != 1 + bystanders() + helpers)
      sim::violation("threads-left", std::string(what) + " returned but " + num(sim::tasks_alive() - 1 - bystanders() - helpers) + " pool threads are still alive");
  }

  void cancel() {
    // Tasks queued before this call and begun after its return were already taken by a thread, so there are at most as
    // many of them as there are threads that are not busy with a begun task.
    size_t before;
    { sim::Quiet q; before = w.order.size(); sim::event("cancel"); }
    pool->cancel_pending();
    sim::Quiet q;
    sim::event("cancel returned");
    sim::probe("cancel");
    ++w.epoch;
    int free_threads = w.started && !finished ? w.n - w.running_now : 0;
    int in_flight = 0;
    for (size_t i = 0; i < before; ++i) {
      Rec& r = w.recs[w.order[i]];
      if (r.started || r.cancelled || r.epoch != w.epoch - 1) continue;
      if (in_flight < free_threads) { ++in_flight; continue; }  // may have been taken: the oldest ones are
      r.cancelled = true;
      sim::probe("certainly_cancelled");
    }
  }

  // A future of a certainly cancelled task is ready at once with a broken promise.
  void check_cancelled_ready() {
    for (auto& p : held) {
      if (!w.recs[p->id].cancelled || w.recs[p->id].collected) continue;
      std::future_status s = std::future_status::deferred;
      switch (p->kind) {
        case kText: s = p->fs.wait_for(std::chrono::seconds(0)); break;
        case kUnique: s = p->fu.wait_for(std::chrono::seconds(0)); break;
        case kVoid: case kGate: case kMeet: s = p->fv.wait_for(std::chrono::seconds(0)); break;
        default: s = p->fi.wait_for(std::chrono::seconds(0));
      }
      SIM_CHECK(s == std::future_status::ready, "cancel-not-reported", "the future of cancelled task " + num(p->id) + " is not ready");
      collect(p.get());
    }
  }

  void collect_held(size_t i) {
    open_gates();
    if (!w.recs[held[i]->id].collected) collect(held[i].get());
  }

  // Whether the outcome of held[i] is bound to arrive.
  bool will_complete(size_t i) const { return w.started && !w.recs[held[i]->id].collected; }

  void observe() {  // another thread takes over some futures and waits for them
    if (!w.started || finished) return;
    auto batch = std::make_shared<std::vector<std::unique_ptr<Pending>>>();
    {
      sim::Quiet q;
      for (size_t i = 0; i < held.size();) {
        if (!w.recs[held[i]->id].collected && held[i]->kind != kGate && held[i]->kind != kMeet) { batch->push_back(std::move(held[i])); held.erase(held.begin() + i); }
        else ++i;
      }
    }
    if (batch->empty()) return;
    sim::probe("observer");
    int t = sim::spawn([batch] {
      for (auto& p : *batch) collect(p.get());
    });
    sim::Quiet q;
    observers.push_back(t);
  }

  // n tasks that only proceed when all of them run at the same time; nothing else may occupy a thread.
  void parallel() {
    if (!w.started || finished || gates_waiting) return;
    // everything queued so far has to be over, or a thread may legitimately be busy
    for (size_t i = 0; i < held.size(); ++i) collect_held(i);
    for (int o : observers) sim::join(o);
    if (w.running_now) return;
    { sim::Quiet q; meet = std::make_unique<Rendezvous>(); meet->need = w.n; sim::event("rendezvous of " + num(w.n)); }
    sim::probe("rendezvous");
    size_t from = held.size();
    for (int i = 0; i < w.n; ++i) queue(kMeet);
    for (size_t i = from; i < held.size(); ++i) collect(held[i].get());
  }

  Kind random_kind() {
    static const Kind k[] = {kValue, kVoid, kThrow, kText, kUnique, kSleep, kValue, kThrow};
    return k[sim::choose(8)];
  }

  // Constructs the pool; returns false when construction (legitimately) failed.
  bool construct(int n) {
    bool faulty = mode == kShutdown && sim::flip(1, 6);
    if (sim::flip(1, 16)) {
      bool rejected = false;
      try { ThreadPool none(0); } catch (const std::exception&) { rejected = true; }
      sim::Quiet q;
      if (!rejected) sim::violation("construct-accepted", "a pool without any worker could be constructed");
      if (sim::tasks_alive() != 1 + bystanders()) sim::violation("threads-left", "a pool without any worker left threads behind");
      sim::probe("pool_of_no_workers");
    }
    if (faulty) sim::set_rate(sim::F_THREAD, 20000);
    uint32_t k = mode == kShutdown && sim::flip(1, 8) ? 1 + sim::choose(4 * n + 2) : 0;
    uint64_t before = sim::faults_fired(sim::F_THREAD);
    bool injected = false;
    ThreadPool* p = nullptr;
    w.n = n;
    SIM_EVENT("construct " + num(n) + (k ? " allocation " + num(k) + " fails" : ""));
    bool threw = false;
    {
      void* mem;
      { sim::Quiet q; mem = ::operator new(sizeof(ThreadPool)); }
      try {
        sim::AllocFail af(k);
        struct Note { sim::AllocFail* a; bool* f; ~Note() { *f = a->fired(); } } note{&af, &injected};
        p = new (mem) ThreadPool(n);
      } catch (const std::exception& e) {
        threw = true;
        sim::Quiet q;
        ::operator delete(mem);
      }
    }
    sim::set_rate(sim::F_THREAD, 0);
    pool = p;
    if (threw) {
      sim::Quiet q;
      sim::probe("construction_failed");
      sim::event("construction failed");
      if (sim::faults_fired(sim::F_THREAD) == before && !injected) sim::violation("construct-rejected", "construction of a pool threw without any failure");
      if (sim::tasks_alive() != 1 + bystanders()) sim::violation("threads-left", "construction failed but left threads behind");
      return false;
    }
    check_running(false, "after construction");
    return true;
  }

  void destroy() {
    open_gates();
    SIM_EVENT("destroy");
    pool->~ThreadPool();
    sim::Quiet q;
    w.finish_returned = true;
    after_end("the destructor");
    ::operator delete(pool);
    pool = nullptr;
  }

  void run_one() {
    {
      sim::Quiet q;
      w.controller = sim::current_task();
      world() = &w;
    }
    int n = 1 + sim::choose(4);
    if (sim::flip(1, 12)) n = 1 + sim::choose(7);
    if (!construct(n)) { sim::Quiet q; sim::mark_nontrivial(); world() = nullptr; return; }
    int nops = 1 + sim::choose(mode == kShutdown ? 8 : 14);
    if (sim::flip(1, 10)) nops = 0;
    for (int i = 0; i < nops; ++i) {
      uint32_t r = sim::choose(100);
      if (mode == kOnce) {
        if (r < 50) queue(random_kind());
        else if (r < 64) { if (!w.started) start(); else queue(random_kind()); }
        else if (r < 74) { size_t c = 1 + sim::choose(9); for (size_t j = 0; j < c; ++j) queue(random_kind()); }
        else if (r < 82) { if (!held.empty()) { size_t j = sim::choose(held.size()); if (will_complete(j)) collect_held(j); } }
        else if (r < 88) observe();
        else if (r < 92) sim::sleep_ns(500 + sim::choose(4000));
        else if (r < 95) { if (!finished) queue(kGate); }
        else if (r < 97) open_gates();
        else if (!finished && w.started) finish();
      } else if (mode == kShutdown) {
        if (r < 40) queue(random_kind());
        else if (r < 60) start();
        else if (r < 66) { if (!finished) queue(kGate); }
        else if (r < 72) sim::sleep_ns(500 + sim::choose(9000));
        else if (r < 80) cancel();
        else if (r < 90) finish();
        else if (r < 95) open_gates();
        else { if (!held.empty()) { size_t j = sim::choose(held.size()); if (w.started && !finished) { collect_held(j); } } }
      } else {
        if (r < 38) queue(random_kind(), sim::flip(1, 6) ? 1 + sim::choose(5) : 0);
        else if (r < 50) start();
        else if (r < 60) cancel();
        else if (r < 68) { if (!finished) queue(kGate); }
        else if (r < 72) open_gates();
        else if (r < 80) parallel();
        else if (r < 88) check_cancelled_ready();
        else if (r < 92) check_running(w.started && !finished, "in the middle of the history");
        else if (r < 95) sim::sleep_ns(500 + sim::choose(4000));
        else if (r < 97) { if (w.started) finish(); }
        else { size_t c = 1 + sim::choose(6); for (size_t j = 0; j < c; ++j) queue(random_kind()); }
      }
      if (finished && (mode == kOnce)) break;
    }
    bool never = mode == kShutdown || mode == kCancel ? sim::flip(1, 4) : false;
    if (!w.started && !finished && !never) start();
    if (sim::flip(1, 2)) finish();
    if (finished && sim::flip(1, 3)) { if (sim::flip(1, 2)) queue(kValue); else start(); }
    if (finished && sim::flip(1, 4)) finish();
    if (sim::flip(1, 3)) for (size_t i = 0; i < held.size(); ++i) if (w.started && !w.recs[held[i]->id].collected) collect_held(i);
    bool was_started = w.started;
    destroy();
    for (int o : observers) sim::join(o);
    for (auto& p : held) if (!w.recs[p->id].collected) collect(p.get());
    sim::Quiet q;
    for (Rec& r : w.recs) {
      if (!r.accepted) continue;
      if (!was_started && r.started) sim::violation("ran-before-start", "a task of a pool that was never started ran");
      if (r.started > 1) sim::violation("ran-twice", "a task was run more than once");
    }
    // tasks of one cancelled batch that did run are the oldest of it
    for (int e = 0; e < w.epoch; ++e) {
      bool gap = false;
      for (int o : w.order) {
        Rec& r = w.recs[o];
        if (r.epoch != e) continue;
        if (!r.started) gap = true;
        else if (gap) sim::violation("cancel-out-of-order", "cancellation removed a task that was queued before one that ran");
      }
    }
    if (!w.order.empty() || mode == kShutdown) sim::mark_nontrivial();
    if (w.max_running > 1) sim::probe("tasks_overlapped");
    if (w.pool_tasks.size() > 1) sim::probe("several_pool_threads_used");
    if (!was_started) sim::probe("never_started");
    held.clear();
    world() = nullptr;
  }
};

inline void run(Mode mode) {
  static const uint32_t spur[] = {0, 0, 3000, 12000};
  sim::set_rate(sim::F_SPURIOUS, spur[sim::choose(4)]);
  sim::set_step_cap(600000);
  std::unique_ptr<ThreadPool> idle;
  int others = sim::flip(1, 6) ? 1 + sim::choose(3) : 0;
  if (others) {
    idle = std::make_unique<ThreadPool>(others);
    idle->Start();
    { sim::Quiet q; sim::probe("idle_pool_beside"); sim::event("another pool of " + std::to_string(others) + " stays idle"); bystanders() = others; }
    if (sim::flip(1, 2)) sim::sleep_ns(2000);
  }
  int pools = sim::flip(1, 8) ? 2 : 1;
  for (int i = 0; i < pools; ++i) {
    Driver* d;
    { sim::Quiet q; d = new Driver; d->mode = mode; }
    d->run_one();
    { sim::Quiet q; delete d; }
  }
  if (idle) {
    auto f = idle->Queue([] { return 7; });
    int v = f.get();
    SIM_CHECK(v == 7, "wrong-value", "the pool that was idle gave a wrong result");
    idle->Finish();
    idle.reset();
    sim::Quiet q;
    bystanders() = 0;
  }
}

}  // namespace poolsim
