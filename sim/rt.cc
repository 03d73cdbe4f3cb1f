// Deterministic simulator runtime: scheduler, happens-before race detector, simulated heap and clock, zygote.
// Compiled without instrumentation; everything here runs while its thread holds the token.
#include <iostream>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cxxabi.h>

#include <exception>
#include <new>
#include <typeinfo>

#include "rt_internal.h"

#define NOINSTR __attribute__((no_sanitize("thread")))
#define RET __builtin_return_address(0)

extern "C" char _end;

namespace sim {
const char* const kFaultNames[F_COUNT] = {"spurious_wakeup", "thread_create_fail", "alloc_fail", "short_read",
                                          "eintr_read", "eio_read", "short_write", "eintr_write", "disk_full",
                                          "eio_write", "open_fail", "close_fail", "stat_fail", "mkdir_fail",
                                          "readdir_fail", "fs_race", "dlopen_fail", "dlsym_fail", "task_throws",
                                          "truncated_file", "corrupted_file"};
namespace in {

Shm* shm = nullptr;
static const uintptr_t low_end = reinterpret_cast<uintptr_t>(&_end);  // the program's own static data
bool running = false;
int quiet = 1;
uint64_t step = 0;

// ------------------------------------------------------------------ small helpers
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

void* real_sym(const char* name) {
  using F = void* (*)(void*, const char*);
  static F f = nullptr;
  if (!f) f = reinterpret_cast<F>(dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5"));
  if (!f) f = reinterpret_cast<F>(dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34"));
  void* p = f ? f(RTLD_NEXT, name) : nullptr;
  if (!p) {
    fprintf(stderr, "sim: no real symbol %s\n", name);
    raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0);
  }
  return p;
}

[[noreturn]] static void vio(const char* cls, const char* detail);

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t x) { s[0] = mix(x); s[1] = mix(x); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
  }
  uint64_t below(uint64_t n) { return static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64); }
};

static Rng rng_ops, rng_sched, rng_fault;
static bool replaying = false;        // choices come from the lists below
static const uint32_t* rp_ops; static int rp_nops, rp_iops;
static const SchedRec* rp_sched; static int rp_nsched, rp_isched;
static const FaultRec* rp_faults; static int rp_nfaults;
static bool resample_sched = false;   // replaying ops and faults but drawing a fresh schedule

static uint64_t H, IH;
void hash_mix(uint64_t v) { H = (H ^ v) * 0x100000001B3ull; H ^= H >> 29; }
static void ihash_mix(uint64_t v) { IH = (IH ^ v) * 0x100000001B3ull; IH ^= IH >> 31; }

void text_event(const char* s, size_t n) {
  for (size_t i = 0; i < n; ++i) hash_mix(static_cast<unsigned char>(s[i]));
  if (shm->ntext + static_cast<int>(n) + 2 < kTraceText) {
    memcpy(shm->text + shm->ntext, s, n);
    shm->ntext += n;
    shm->text[shm->ntext++] = '\n';
    shm->text[shm->ntext] = 0;
  } else {
    shm->text_truncated = 1;
  }
}

// ------------------------------------------------------------------ tasks
enum State { RUNNABLE = 0, BLOCKED, DONE };
struct Task {
  int id = 0;
  int state = RUNNABLE;
  int kind = 0;                 // what it waits for
  const void* obj = nullptr;
  uint64_t wait_seq = 0;
  uint64_t deadline = 0;        // 0: none
  bool timed_out = false;
  int go = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  pthread_t real = 0;
  bool joined = false, detached = false;
  uint32_t vc[kMaxTasks] = {};
  uint32_t prio = 0;
  uint64_t last_switch_in = 0;
  // allocation failure window
  bool af_on = false, af_more = false, af_fired = false;
  uint32_t af_k = 0, af_n = 0;
  void* stack[40];
  int depth = 0;
  int iterator_depth = -1;
};
static Task tasks[kMaxTasks];
static int ntasks = 0, nlive = 0;
static Task* cur = nullptr;
static uint64_t wait_counter = 0;
static uint64_t step_cap = 4000000;
static uint64_t next_event = 0;       // next step at which the slow path must look
static uint64_t clock_base = 1000000000ull;
static uint64_t last_clock_step = 0;
constexpr uint64_t kNsPerStep = 20;
constexpr uint64_t kRotate = 60000;   // a task that runs this many steps is rotated out (fair default)

static uint64_t now() { return clock_base + (step - last_clock_step) * kNsPerStep; }
static void set_next_event();
void tick(uint64_t ns) { clock_base += ns; if (live()) set_next_event(); }

// schedule policy
static int pol_sync_shift = 0;        // switch at sync points with probability 2^-shift (0: never)
static uint64_t pol_gap = 0;          // mean gap of preemptions at arbitrary points (0: never)
static bool pol_pct = false;
static uint64_t pct_changes[4];
static int pct_n = 0, pct_low = 0;
static bool pol_random_block = false;

static uint64_t next_preempt = ~0ull;

static void set_next_event();
static void draw_next_preempt() {
  if (!pol_gap) { next_preempt = ~0ull; return; }
  // geometric-like: uniform in [1, 2*gap) is enough
  // and the longer the run has become, the rarer they are: what is recorded stays bounded
  next_preempt = step + 1 + rng_sched.below(2 * pol_gap * (1 + static_cast<uint64_t>(shm->nsched) / 4000));
}

static void futex_wait(int* p, int v) { raw_syscall(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(int* p) { raw_syscall(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void finish_run(int how) {
  shm->hash = H;
  shm->ihash = IH;
  shm->steps = step;
  shm->simtime = now() - 1000000000ull;
  shm->max_tasks = ntasks;
  __atomic_store_n(&shm->finished, how, __ATOMIC_SEQ_CST);
  raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}

static void vio(const char* cls, const char* detail) {
  ++quiet;
  running = false;
  snprintf(shm->cls, sizeof shm->cls, "%s", cls);
  snprintf(shm->msg, sizeof shm->msg, "%s", detail);
  for (const char* p = shm->cls; *p; ++p) hash_mix(*p);
  finish_run(2);
  __builtin_unreachable();
}

void internal_error(const char* what) {
  running = false;
  snprintf(shm->cls, sizeof shm->cls, "internal:%s", what);
  finish_run(2);
  __builtin_unreachable();
}

static void describe_stack(char* buf, size_t n, const Task* t) {
  size_t o = 0;
  buf[0] = 0;
  int d = t->depth < 40 ? t->depth : 40;
  for (int i = d - 1; i >= 0 && i > d - 14; --i) o += snprintf(buf + o, n - o, " 0x%lx", reinterpret_cast<long>(t->stack[i]) - 1);
}

static void record_sched(uint64_t s, int t) {
  if (shm->nsched < kMaxSched) { shm->sched[shm->nsched].step = s; shm->sched[shm->nsched].task = t; ++shm->nsched; }
  else internal_error("too many schedule choices");
}

static void expire_sleepers() {
  uint64_t n = now();
  for (int i = 0; i < ntasks; ++i)
    if (tasks[i].state == BLOCKED && tasks[i].deadline && tasks[i].deadline <= n) {
      tasks[i].state = RUNNABLE; tasks[i].timed_out = true;
    }
}

static uint64_t earliest_deadline() {
  uint64_t e = 0;
  for (int i = 0; i < ntasks; ++i)
    if (tasks[i].state == BLOCKED && tasks[i].deadline && (!e || tasks[i].deadline < e)) e = tasks[i].deadline;
  return e;
}

static void set_next_event() {
  uint64_t e = step_cap;
  if (nlive > 1) {
    uint64_t r = cur->last_switch_in + kRotate;
    if (r < e) e = r;
    if (replaying && !resample_sched) {
      if (rp_isched < rp_nsched && rp_sched[rp_isched].step < e) e = rp_sched[rp_isched].step;
    } else {
      if (next_preempt < e) e = next_preempt;
      if (pol_pct) for (int i = 0; i < pct_n; ++i) if (pct_changes[i] > step && pct_changes[i] < e) e = pct_changes[i];
    }
    uint64_t d = earliest_deadline();
    if (d) { uint64_t s = d <= now() ? step + 1 : step + (d - now() + kNsPerStep - 1) / kNsPerStep; if (s < e) e = s; }
  }
  next_event = e;
}

static void give_token(Task* t) {
  Task* me = cur;
  hash_mix(0x5157ull ^ (step << 8) ^ t->id);
  ihash_mix(t->id + 101);
  ++shm->switches;
  cur = t;
  t->last_switch_in = step;
  set_next_event();
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  futex_wake(&t->go);
  (void)me;
}
static void await_token(Task* me) {
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) futex_wait(&me->go, 0);
  me->go = 0;
}
static void switch_to(Task* t) {
  Task* me = cur;
  if (t == me) return;
  give_token(t);
  await_token(me);
}

static int runnable_list(Task** out) {
  int n = 0;
  for (int i = 0; i < ntasks; ++i) if (tasks[i].state == RUNNABLE) out[n++] = &tasks[i];
  return n;
}

static Task* default_next(Task* me) {  // cyclic successor that is runnable
  for (int k = 1; k <= ntasks; ++k) {
    Task* t = &tasks[(me->id + k) % ntasks];
    if (t->state == RUNNABLE && t != me) return t;
  }
  return me->state == RUNNABLE ? me : nullptr;
}

static Task* rp_take(uint64_t s) {  // the recorded choice for this step, if it is usable
  Task* t = nullptr;
  while (rp_isched < rp_nsched && rp_sched[rp_isched].step <= s) {
    if (rp_sched[rp_isched].step == s) {
      uint32_t id = rp_sched[rp_isched].task;
      if (id < static_cast<uint32_t>(ntasks)) t = &tasks[id];
    }
    ++rp_isched;
  }
  return t;
}

static Task* pct_best() {
  Task* r[kMaxTasks];
  int n = runnable_list(r);
  Task* b = nullptr;
  for (int i = 0; i < n; ++i) if (!b || r[i]->prio > b->prio) b = r[i];
  return b;
}

// The running task may be preempted here.
static void slow_point(bool sync) {
  if (step >= step_cap) {
    char b[1000]; describe_stack(b, sizeof b, cur);
    char m[1400]; snprintf(m, sizeof m, "no progress: task %d still running after %lu steps; stack%s", cur->id, static_cast<unsigned long>(step), b);
    vio("livelock", m);
  }
  if (nlive < 2) { next_event = step_cap; return; }
  expire_sleepers();
  Task* target = nullptr;
  bool forced = false;
  if (step - cur->last_switch_in >= kRotate) { target = default_next(cur); forced = true; cur->last_switch_in = step; }
  Task* dflt = target ? target : cur;
  if (replaying && !resample_sched) {
    Task* t = rp_take(step);
    if (t && t->state == RUNNABLE) target = t;
  } else {
    if (pol_pct) {
      for (int i = 0; i < pct_n; ++i) if (pct_changes[i] == step) cur->prio = pct_low--;
      if (forced) { cur->prio = pct_low--; }
      Task* b = pct_best();
      if (b) target = b;
    } else if (step >= next_preempt || (sync && pol_sync_shift && shm->nsched < kMaxSched / 2 && rng_sched.below(1u << pol_sync_shift) == 0)) {
      if (step >= next_preempt) draw_next_preempt();
      Task* r[kMaxTasks];
      int n = runnable_list(r);
      if (n > 1) target = r[rng_sched.below(n)];
    }
  }
  if ((target ? target : cur) != dflt) record_sched(step, (target ? target : cur)->id);
  if (target && target != cur) {
    ++shm->preemptions;
    switch_to(target);
  } else {
    set_next_event();
  }
}

static inline void mem_point() { if (++step >= next_event) slow_point(false); }

static const char* kind_name(int k) {
  static const char* n[] = {"?", "lock", "unlock", "wait", "signal", "create", "join", "atomic", "futex", "once", "guard", "yield", "sleep", "io", "exit", "start"};
  return k >= 0 && k <= K_START ? n[k] : "?";
}

static uint64_t norm(const void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if ((a >= kArena && a < kArena + kArenaSize) || (a >= kLow && a < low_end)) return a;
  return 1;
}

void sync_point(int kind, const void* obj) {
  if (!live()) return;
  ++step;
  ++shm->sync_ops;
  hash_mix((static_cast<uint64_t>(kind) << 56) ^ (norm(obj) << 4) ^ cur->id);
  if (kind != K_ATOMIC) ihash_mix(kind * 131 + cur->id);
  if (step >= next_event || (nlive > 1 && ((!replaying || resample_sched) && (pol_sync_shift || pol_pct)))) slow_point(true);
}

// The running task cannot continue; something else must run.
static void schedule_away() {
  Task* me = cur;
  for (;;) {
    ++step;
    expire_sleepers();
    Task* r[kMaxTasks];
    int n = runnable_list(r);
    if (n == 0) {
      uint64_t e = earliest_deadline();
      if (!e) {
        char b[3000]; size_t o = 0;
        for (int i = 0; i < ntasks; ++i)
          if (tasks[i].state == BLOCKED) {
            char st[900]; describe_stack(st, sizeof st, &tasks[i]);
            if (o < sizeof b - 400) o += snprintf(b + o, sizeof b - o, "task %d blocked in %s;%.*s\n", i, kind_name(tasks[i].kind), 300, st);
          }
        vio("deadlock", b);
      }
      if (e > now()) clock_base += e - now();
      continue;
    }
    Task* d = default_next(me);
    Task* target = d;
    if (replaying && !resample_sched) {
      Task* t = rp_take(step);
      if (t && t->state == RUNNABLE) target = t;
    } else {
      if (pol_pct) target = pct_best();
      else if (pol_random_block) target = r[rng_sched.below(n)];
    }
    if (target != d) record_sched(step, target->id);
    if (target == me) { set_next_event(); return; }  // became runnable again by itself (timeout)
    if (me->state == DONE) { give_token(target); return; }
    switch_to(target);
    return;
  }
}

static void block(int kind, const void* obj, uint64_t deadline) {
  Task* me = cur;
  me->state = BLOCKED;
  me->kind = kind;
  me->obj = obj;
  me->deadline = deadline;
  me->timed_out = false;
  me->wait_seq = ++wait_counter;
  schedule_away();
  me->deadline = 0;
  me->kind = 0;
}

static int wake_all(int kind, const void* obj) {
  int n = 0;
  for (int i = 0; i < ntasks; ++i)
    if (tasks[i].state == BLOCKED && tasks[i].kind == kind && tasks[i].obj == obj) { tasks[i].state = RUNNABLE; ++n; }
  return n;
}

static bool wake_one(int kind, const void* obj) {
  Task* w[kMaxTasks];
  int n = 0;
  for (int i = 0; i < ntasks; ++i)
    if (tasks[i].state == BLOCKED && tasks[i].kind == kind && tasks[i].obj == obj) w[n++] = &tasks[i];
  if (!n) return false;
  Task* first = w[0];
  for (int i = 1; i < n; ++i) if (w[i]->wait_seq < first->wait_seq) first = w[i];
  Task* t = first;
  if (n > 1) {
    ++step;
    if (replaying && !resample_sched) {
      Task* c = rp_take(step);
      for (int i = 0; c && i < n; ++i) if (w[i] == c) t = c;
    } else if (pol_random_block) {
      t = w[rng_sched.below(n)];
    }
    if (t != first) record_sched(step, t->id);
    set_next_event();
  }
  t->state = RUNNABLE;
  return true;
}

// ------------------------------------------------------------------ vector clocks
struct SyncVC { const void* key; uint32_t vc[kMaxTasks]; };
constexpr int kSyncSlots = 1 << 16;
static SyncVC* sync_tab;
static int sync_used = 0;
static SyncVC* sync_vc(const void* k, bool create) {
  uint64_t h = reinterpret_cast<uintptr_t>(k) * 0x9E3779B97F4A7C15ull;
  for (uint32_t i = h >> 48;; ++i) {
    SyncVC* s = &sync_tab[i & (kSyncSlots - 1)];
    if (s->key == k) return s;
    if (!s->key) {
      if (!create) return nullptr;
      if (++sync_used > kSyncSlots * 3 / 4) internal_error("too many synchronisation objects");
      s->key = k;
      return s;
    }
  }
}
static void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < ntasks; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(const void* k) { if (ntasks < 2) return; SyncVC* s = sync_vc(k, false); if (s) vc_join(cur->vc, s->vc); }
static void release_join(const void* k) {
  if (ntasks < 2) { return; }
  SyncVC* s = sync_vc(k, true);
  vc_join(s->vc, cur->vc);
  cur->vc[cur->id]++;
}
static void release_set(const void* k) {
  if (ntasks < 2) return;
  SyncVC* s = sync_vc(k, true);
  memcpy(s->vc, cur->vc, sizeof s->vc);
  cur->vc[cur->id]++;
}
static char fence_obj;

// ------------------------------------------------------------------ heap
struct Hdr { uint32_t size; uint32_t flags; uint32_t serial; void* pc_lo_unused; };
static uint8_t* heap_state;   // one byte per 8 bytes of the heap: 0 none, 1 live, 2 freed
static uintptr_t heap_top = kArena;
static long live_counted = 0;
static uint32_t alloc_no = 0;
struct Block { uint64_t at; uint32_t size; uint32_t serial; uint32_t pc; uint8_t live, counted; uint16_t pad; int64_t next; };
static Block* blocks;
static long nblocks = 0;
// In some runs freed blocks are handed out again at once, as a real allocator does, so that what is remembered about an
// address can meet another object there. In the others addresses are never used twice, which shows late accesses.
static bool heap_reuse = false;
constexpr size_t kReuseClasses = 4096;
static int64_t reuse_head[2][kReuseClasses];  // by who allocates (code under test, oracle) and size in words; block number + 1
constexpr long kMaxBlocks = 6000000;

static void forget_shadow(uintptr_t p, size_t n);

static void* heap_alloc(size_t n, size_t align, void* pc) {
  if (align < 16) align = 16;
  if (heap_reuse && (n + 7) >> 3 < kReuseClasses) {
    int64_t& head = reuse_head[live() ? 1 : 0][(n + 7) >> 3];
    if (head && blocks[head - 1].at % align == 0) {
      Block& b = blocks[head - 1];
      head = b.next;
      b.size = n; b.serial = ++alloc_no; b.pc = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc)); b.live = 1;
      b.counted = live() ? 1 : 0;
      live_counted += b.counted;
      ++shm->reused;
      memset(heap_state + ((b.at - kArena) >> 3), 1, (n + 7) >> 3);
      forget_shadow(b.at, n);
      memset(reinterpret_cast<void*>(b.at), 0xCD, n);
      return reinterpret_cast<void*>(b.at);
    }
  }
  uintptr_t p = (heap_top + 16 + align - 1) & ~(align - 1);  // at least 16 bytes of red zone holding the block number
  if (n > kHeapSize || p + n + 16 > kArena + kHeapSize || nblocks >= kMaxBlocks) {
    if (running) { quiet = 0; vio("runaway-allocation", "the run allocated more than the simulated heap holds"); }
    internal_error("heap exhausted outside a run");
  }
  heap_top = (p + n + 7) & ~7ull;
  *reinterpret_cast<uint64_t*>(p - 8) = nblocks;
  Block& b = blocks[nblocks++];
  b.at = p; b.size = n; b.serial = ++alloc_no; b.pc = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc)); b.live = 1;
  b.counted = live() ? 1 : 0;
  live_counted += b.counted;
  memset(heap_state + ((p - kArena) >> 3), 1, (n + 7) >> 3);
  memset(reinterpret_cast<void*>(p), 0xCD, n);
  return reinterpret_cast<void*>(p);
}
static inline bool in_heap(const void* p) { uintptr_t a = reinterpret_cast<uintptr_t>(p); return a >= kArena && a < kArena + kHeapSize; }

static Block* block_of(void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  uint64_t i = *reinterpret_cast<uint64_t*>(a - 8);
  if (i < static_cast<uint64_t>(nblocks) && blocks[i].at == a) return &blocks[i];
  return nullptr;
}

static void heap_free(void* p) {
  if (!p) return;
  if (!in_heap(p)) { if (running) vio("heap:bad-free", "a pointer that is not a heap block was freed"); return; }
  Block* b = block_of(p);
  if (!b) vio("heap:bad-free", "a pointer into the middle of a block was freed, or its header was overwritten");
  if (!b->live) vio("heap:double-free", "a block was freed twice");
  b->live = 0;
  if (b->counted) --live_counted;
  memset(heap_state + ((b->at - kArena) >> 3), 2, (b->size + 7) >> 3);
  memset(p, 0xDD, b->size);
  if (heap_reuse && (b->size + 7) >> 3 < kReuseClasses) {
    int64_t& head = reuse_head[b->counted][(b->size + 7) >> 3];
    b->next = head;
    head = b - blocks + 1;
  }
}

void in_directory_iterator() { if (cur) cur->iterator_depth = cur->depth; }

static bool alloc_should_fail() {
  if (!live() || !cur || cur->iterator_depth >= 0) return false;
  ++shm->allocs;
  if (!cur->af_on) return false;
  ++cur->af_n;
  if (cur->af_k && (cur->af_n == cur->af_k || (cur->af_more && cur->af_n > cur->af_k))) {
    if (!cur->af_fired) {
      ++shm->fired[F_ALLOC];
      hash_mix(0xA110C000ull + cur->af_n);
    }
    cur->af_fired = true;
    return true;
  }
  return false;
}

static void* op_new(size_t n, size_t align, void* pc, bool nothrow) {
  if (alloc_should_fail()) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  return heap_alloc(n ? n : 1, align, pc);
}

// ------------------------------------------------------------------ race detector
static uint64_t* shadow_arena;  // 4 slots per 8 bytes
static uint32_t* shadow_pc_arena;
static uint64_t* shadow_low;
static uint32_t* shadow_pc_low;

static void forget_shadow(uintptr_t p, size_t n) { memset(shadow_arena + ((p - kArena) >> 3) * 4, 0, ((n + 7) >> 3) * 32); }

static void report_race(uint64_t old, uint32_t oldpc, uintptr_t a, unsigned n, bool w, bool at, void* pc) {
  char st[1200]; describe_stack(st, sizeof st, cur);
  char m[2400];
  const char* where = a >= kStacks ? "stack" : a >= kArena ? "heap" : "static data";
  snprintf(m, sizeof m,
           "data race on %s 0x%lx (%u bytes): task %d %s%s at 0x%lx; earlier task %lu %s%s at 0x%x, not ordered before it; stack%s",
           where, static_cast<unsigned long>(a), n, cur->id, at ? "atomic " : "", w ? "write" : "read", reinterpret_cast<long>(pc) - 1,
           static_cast<unsigned long>((old >> 16) & 0xff), (old & 2) ? "atomic " : "", (old & 1) ? "write" : "read", oldpc - 1, st);
  vio("data-race", m);
}

static inline void shadow_word(uint64_t* sl, uint32_t* pcs, unsigned mask, bool w, bool at, void* pc, uintptr_t a, unsigned n) {
  const uint32_t me = cur->id;
  const uint32_t clk = cur->vc[me];
  int put = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t s = sl[i];
    if (!s) { if (put < 0) put = i; continue; }
    unsigned smask = (s >> 8) & 0xff;
    if (!(smask & mask)) continue;
    unsigned tid = (s >> 16) & 0xff;
    bool sw = s & 1, sat = s & 2;
    uint32_t sclk = s >> 32;
    if (tid == me) {
      if (sclk == clk && smask == mask && (sw || !w) && (!sat || at)) return;
      if ((smask & ~mask) == 0 && (w || !sw) && (!at || sat)) { if (put < 0 || sl[put]) put = i; }
      continue;
    }
    if (sclk > cur->vc[tid]) {
      if ((sw || w) && !(sat && at)) report_race(s, pcs[i], a, n, w, at, pc);
    } else if (w && !at && (smask & ~mask) == 0) {
      if (put < 0) put = i;
    }
  }
  if (put < 0) put = step & 3;
  sl[put] = (static_cast<uint64_t>(clk) << 32) | (static_cast<uint64_t>(me) << 16) | (static_cast<uint64_t>(mask) << 8) | 4 | (at ? 2 : 0) | (w ? 1 : 0);
  pcs[put] = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(pc));
}

static void bad_access(uintptr_t a, unsigned n, bool w, void* pc, int st) {
  char sk[1200]; describe_stack(sk, sizeof sk, cur);
  char m[2000];
  snprintf(m, sizeof m, "%s of %u bytes at 0x%lx by task %d at 0x%lx: %s; stack%s", w ? "write" : "read", n, static_cast<unsigned long>(a), cur->id,
           reinterpret_cast<long>(pc) - 1, st == 2 ? "the block was freed" : "outside any heap block", sk);
  vio(st == 2 ? "heap:use-after-free" : "heap:out-of-bounds", m);
}

// The standard streams may be used by several threads at once; that libstdc++ keeps their widths and flags in plain
// members is its own affair.
static inline bool in_std_stream(uintptr_t a) {
  return a - reinterpret_cast<uintptr_t>(&std::cout) < sizeof std::cout || a - reinterpret_cast<uintptr_t>(&std::cerr) < sizeof std::cerr ||
         a - reinterpret_cast<uintptr_t>(&std::clog) < sizeof std::clog;
}

static inline void access(const void* p, unsigned n, bool w, bool at, void* pc) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  uint64_t* sh; uint32_t* pcs; uintptr_t off;
  if (a - kArena < kArenaSize) {
    off = a - kArena;
    if (off < kHeapSize) {
      int s0 = heap_state[off >> 3], s1 = heap_state[(off + n - 1) >> 3];
      if (s0 != 1) bad_access(a, n, w, pc, s0);
      if (s1 != 1) bad_access(a, n, w, pc, s1);
    }
    if (ntasks < 2) return;
    sh = shadow_arena; pcs = shadow_pc_arena;
  } else if (a >= kLow && a < low_end) {
    if (ntasks < 2 || in_std_stream(a)) return;
    off = a - kLow;
    sh = shadow_low; pcs = shadow_pc_low;
  } else {
    return;
  }
  unsigned left = n;
  while (left) {
    unsigned o = off & 7, len = 8 - o < left ? 8 - o : left;
    unsigned mask = ((1u << len) - 1) << o;
    size_t w4 = (off >> 3) * 4;
    shadow_word(sh + w4, pcs + w4, mask, w, at, pc, a, n);
    off += len;
    left -= len;
  }
}

void mem_range(const void* p, size_t n, bool write, void* pc) {
  if (!live() || !n) return;
  mem_point();
  const char* c = static_cast<const char*>(p);
  while (n) {
    unsigned k = n > 64 ? 64 : static_cast<unsigned>(n);
    access(c, k, write, false, pc);
    c += k;
    n -= k;
  }
}

// ------------------------------------------------------------------ mutexes, conditions, once
struct Mtx { const void* key; int owner; int count; int readers; };
constexpr int kMtxSlots = 1 << 13;
static Mtx* mtx_tab;
static int mtx_used = 0;
static Mtx* mtx(const void* k) {
  uint64_t h = reinterpret_cast<uintptr_t>(k) * 0x9E3779B97F4A7C15ull;
  for (uint32_t i = h >> 51;; ++i) {
    Mtx* m = &mtx_tab[i & (kMtxSlots - 1)];
    if (m->key == k) return m;
    if (!m->key) {
      if (++mtx_used > kMtxSlots * 3 / 4) internal_error("too many mutexes");
      m->key = k; m->owner = -1; m->count = 0;
      return m;
    }
  }
}

static void check_obj(const void* p, const char* what) {
  if (in_heap(p)) {
    int s = heap_state[(reinterpret_cast<uintptr_t>(p) - kArena) >> 3];
    if (s != 1) {
      char m[1500]; char st[1200]; describe_stack(st, sizeof st, cur);
      snprintf(m, sizeof m, "%s on a destroyed object; stack%s", what, st);
      vio(s == 2 ? "heap:use-after-free" : "heap:out-of-bounds", m);
    }
  }
}

static int my_id() { return cur ? cur->id : 0; }

static int do_lock(const void* m, bool recursive, uint64_t deadline, bool try_only) {
  if (!running) { return 0; }
  if (quiet) {
    Mtx* x = mtx(m);
    if (x->owner >= 0 && x->owner != my_id()) internal_error("quiet code locks a mutex held by a task");
    if (x->owner == my_id() && !recursive && !try_only) internal_error("quiet code relocks a mutex");
    x->owner = my_id(); x->count++;
    return 0;
  }
  check_obj(m, "lock");
  sync_point(K_LOCK, m);
  Mtx* x = mtx(m);
  while (x->owner >= 0 || x->readers > 0) {
    if (recursive && x->owner == cur->id) { x->count++; return 0; }
    if (try_only) return EBUSY;
    block(K_LOCK, m, deadline);
    if (cur->timed_out && (x->owner >= 0 || x->readers > 0)) return ETIMEDOUT;
    check_obj(m, "lock");
  }
  x->owner = cur->id;
  x->count = 1;
  acquire(m);
  return 0;
}

static int do_unlock(const void* m, bool point) {
  if (!running) return 0;
  Mtx* x = mtx(m);
  if (quiet) {
    if (--x->count <= 0) { x->owner = -1; x->count = 0; wake_all(K_LOCK, m); }
    return 0;
  }
  if (x->owner != cur->id) { vio("mutex-misuse", "a mutex was unlocked by a task that does not hold it"); }
  if (--x->count > 0) return 0;
  release_set(m);
  x->owner = -1;
  wake_all(K_LOCK, m);
  if (point) sync_point(K_UNLOCK, m);
  return 0;
}

static uint64_t abs_deadline(const struct timespec* ts) {
  uint64_t t = static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
  return t ? t : 1;
}

static int do_cond_wait(const void* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!live()) internal_error("quiet code waits");
  check_obj(c, "wait");
  sync_point(K_WAIT, c);
  Mtx* x = mtx(m);
  if (x->owner != cur->id) vio("mutex-misuse", "wait without holding the mutex");
  int cnt = x->count;
  x->count = 1;
  bool spurious = fault(F_SPURIOUS);
  uint64_t dl = ts ? abs_deadline(ts) : 0;
  do_unlock(m, false);
  bool timed = false;
  if (!spurious && !(dl && dl <= now())) {
    block(K_WAIT, c, dl);
    timed = cur->timed_out;
  } else {
    if (dl && dl <= now() && !spurious) timed = true;
    sync_point(K_WAIT, c);
  }
  // the mutex is taken again
  check_obj(m, "lock");
  x = mtx(m);
  while (x->owner >= 0) block(K_LOCK, m, 0);
  x->owner = cur->id;
  x->count = cnt;
  acquire(m);
  return timed ? ETIMEDOUT : 0;
}

struct Once { const void* key; int state; int owner; };
static Once once_tab[4096];
static int once_used = 0;
static Once* once_of(const void* k) {
  for (int i = 0; i < once_used; ++i) if (once_tab[i].key == k) return &once_tab[i];
  if (once_used == 4096) internal_error("too many once flags");
  once_tab[once_used].key = k;
  once_tab[once_used].state = 0;
  return &once_tab[once_used++];
}

// ------------------------------------------------------------------ thread start and end
static pthread_key_t exit_key;
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

static void task_finished(void* v) {
  Task* t = static_cast<Task*>(v);
  // Runs after thread_local destructors; the task still holds the token.
  ++quiet;
  hash_mix(0xE417ull ^ t->id);
  t->state = DONE;
  --nlive;
  wake_all(K_JOIN, t);
  --quiet;
  if (t->id == 0) finish_run(1);
  schedule_away();
  for (;;) { int z = 0; futex_wait(&z, 0); }
}

static void* trampoline(void* v) {
  Task* t = static_cast<Task*>(v);
  pthread_setspecific(exit_key, t);
  await_token(t);
  ihash_mix(1000 + t->id);
  void* r = t->fn(t->arg);
  t->ret = r;
  return r;
}

static int start_task(pthread_t* out, void* (*fn)(void*), void* arg) {
  if (ntasks >= kMaxTasks) internal_error("too many tasks");
  Task* t = &tasks[ntasks];
  t->id = ntasks;
  t->fn = fn;
  t->arg = arg;
  t->state = RUNNABLE;
  t->prio = pol_pct ? 1000 + static_cast<uint32_t>(rng_sched.below(1000000)) : 0;
  uintptr_t st = kStacks + static_cast<uintptr_t>(ntasks) * kStackSize;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, reinterpret_cast<void*>(st + 65536), kStackSize - 65536);
  mprotect(reinterpret_cast<void*>(st), 65536, PROT_NONE);
  int n = ntasks++;
  if (cur) {
    memcpy(t->vc, cur->vc, sizeof t->vc);
    cur->vc[cur->id]++;
  }
  t->vc[n] = 1;
  ++nlive;
  pthread_t th;
  int e = real_pthread_create(&th, &a, trampoline, t);
  if (e) internal_error("pthread_create failed for real");
  t->real = th;
  if (out) *out = th;
  return 0;
}

static Task* task_of(pthread_t th) {
  for (int i = 0; i < ntasks; ++i) if (tasks[i].real == th) return &tasks[i];
  internal_error("unknown thread");
}

}  // namespace in

using namespace in;

// ------------------------------------------------------------------ public interface
Quiet::Quiet() { ++quiet; }
Quiet::~Quiet() { --quiet; }

uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replaying) {
    v = rp_iops < rp_nops ? rp_ops[rp_iops++] : 0;
    if (v >= n) v %= n;
  } else {
    v = static_cast<uint32_t>(rng_ops.below(n));
  }
  if (shm->nops < kMaxOps) shm->ops[shm->nops++] = v;
  else internal_error("too many choices");
  hash_mix(0xC000000ull + v);
  return v;
}

void reuse_memory(bool on) { heap_reuse = on; }
bool flip(uint32_t num, uint32_t den) { return choose(den) >= den - num; }

static uint32_t rates[F_COUNT];
static uint32_t occs[F_COUNT];
void set_rate(Fault k, uint32_t r) { rates[k] = r; }

bool fault(Fault k, uint32_t nv, uint32_t* variant) {
  if (!live()) return false;
  uint32_t occ = occs[k]++;
  ++shm->offered[k];
  bool hit = false;
  uint32_t var = 0;
  if (replaying) {
    for (int i = 0; i < rp_nfaults; ++i)
      if (rp_faults[i].kind == static_cast<uint32_t>(k) && rp_faults[i].occ == occ) { hit = true; var = rp_faults[i].variant % (nv ? nv : 1); break; }
  } else if (rates[k]) {
    hit = rng_fault.below(65536) < rates[k];
    if (hit && nv > 1) var = static_cast<uint32_t>(rng_fault.below(nv));
  }
  if (hit) {
    if (shm->nfaults >= kMaxFaults) internal_error("too many faults");
    FaultRec& f = shm->faults[shm->nfaults++];
    f.kind = k; f.occ = occ; f.variant = var;
    ++shm->fired[k];
    hash_mix(0xFA000000ull + (static_cast<uint64_t>(k) << 32) + (static_cast<uint64_t>(occ) << 8) + var);
    ihash_mix(0xFA00 + k * 977 + occ);
    char b[80];
    int m = snprintf(b, sizeof b, "  !fault %s #%u variant %u", kFaultNames[k], occ, var);
    text_event(b, m);
  }
  if (variant) *variant = var;
  return hit;
}
void fault_fired(Fault k) { ++shm->fired[k]; hash_mix(0xFB00 + k); }
uint64_t faults_fired(Fault k) { return shm->fired[k]; }
uint64_t faults_fired_total() { uint64_t n = 0; for (int i = 0; i < F_COUNT; ++i) n += shm->fired[i]; return n; }

void violation(const std::string& cls, const std::string& detail) { vio(cls.c_str(), detail.c_str()); }

void event(const std::string& t) {
  Quiet q;
  char b[64];
  int n = snprintf(b, sizeof b, "[%d] ", cur ? cur->id : 0);
  std::string s = std::string(b, n) + t;
  text_event(s.data(), s.size());
}

void probe(const char* name) {
  Quiet q;
  for (int i = 0; i < shm->nprobes; ++i) if (!strncmp(shm->probes[i].name, name, 47)) { ++shm->probes[i].n; return; }
  if (shm->nprobes < 96) { snprintf(shm->probes[shm->nprobes].name, 48, "%s", name); shm->probes[shm->nprobes++].n = 1; }
}
void mark_nontrivial() { shm->nontrivial = 1; }
void mix_state(uint64_t h) { ihash_mix(h); }

AllocFail::AllocFail(uint32_t k, bool more) { cur->af_on = true; cur->af_k = k; cur->af_n = 0; cur->af_more = more; cur->af_fired = false; }
AllocFail::~AllocFail() { cur->af_on = false; }
bool AllocFail::fired() const { return cur->af_fired; }
uint32_t AllocFail::count() const { return cur->af_n; }
long live_blocks() { return live_counted; }
long alloc_serial() { return alloc_no; }
bool addr_live(const void* p) { return in_heap(p) && heap_state[(reinterpret_cast<uintptr_t>(p) - kArena) >> 3] == 1; }
std::string leak_report(long since) {
  Quiet q;
  std::string s;
  int n = 0;
  for (long i = 0; i < nblocks && n < 8; ++i)
    if (blocks[i].live && blocks[i].counted && blocks[i].serial > since) {
      char b[96]; snprintf(b, sizeof b, " [%u bytes allocated at 0x%x]", blocks[i].size, blocks[i].pc - 1);
      s += b; ++n;
    }
  return s;
}
uint64_t now_ns() { return now(); }
uint64_t steps() { return step; }
void set_step_cap(uint64_t n) { step_cap = n; next_event = 0; }
int current_task() { return cur->id; }
int tasks_alive() { return nlive; }
int tasks_started() { return ntasks; }
bool task_done(int id) { return tasks[id].state == DONE; }
void yield_point() { sync_point(K_YIELD, nullptr); }

void sleep_ns(uint64_t ns) {
  if (!live()) return;
  sync_point(K_SLEEP, nullptr);
  block(K_SLEEP, nullptr, now() + (ns ? ns : 1));
}

static void* spawn_main(void* v) {
  auto* f = static_cast<std::function<void()>*>(v);
  (*f)();
  delete f;
  return nullptr;
}
int spawn(std::function<void()> f) {
  sync_point(K_CREATE, nullptr);
  std::function<void()>* h;
  { Quiet q; h = new std::function<void()>(std::move(f)); }
  start_task(nullptr, spawn_main, h);
  int id = ntasks - 1;
  set_next_event();
  sync_point(K_CREATE, nullptr);
  return id;
}
static void join_task(Task* t) {
  sync_point(K_JOIN, nullptr);
  while (t->state != DONE) block(K_JOIN, t, 0);
  vc_join(cur->vc, t->vc);
  t->joined = true;
}
void join(int id) { join_task(&tasks[id]); }

}  // namespace sim

using namespace sim;
using namespace sim::in;

// ------------------------------------------------------------------ interposed libc: threads and time
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!running) {
    if (!real_pthread_create) real_pthread_create = reinterpret_cast<decltype(real_pthread_create)>(real_sym("pthread_create"));
    return real_pthread_create(th, attr, fn, arg);
  }
  sync_point(K_CREATE, nullptr);
  if (fault(F_THREAD)) return EAGAIN;
  start_task(th, fn, arg);
  set_next_event();
  sync_point(K_CREATE, nullptr);
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  if (!running) internal_error("join outside a run");
  Task* t = task_of(th);
  if (t == cur) return EDEADLK;
  join_task(t);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t th) { if (running) task_of(th)->detached = true; return 0; }

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
  if (running) { Mtx* x = mtx(m); x->owner = -1; x->count = 0; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (running) {
    Mtx* x = mtx(m);
    if (live() && x->owner >= 0) vio("mutex-misuse", "a locked mutex was destroyed");
    x->owner = -1; x->count = 0;
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return do_lock(m, recursive(m), 0, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return do_lock(m, recursive(m), 0, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return do_lock(m, recursive(m), abs_deadline(ts), false); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return do_lock(m, recursive(m), abs_deadline(ts), false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return do_unlock(m, true); }

int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset(m, 0, sizeof *m); if (running) { Mtx* x = mtx(m); x->owner = -1; x->count = 0; x->readers = 0; } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return do_lock(m, false, 0, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return do_lock(m, false, 0, true); }
static int rdlock(pthread_rwlock_t* m, bool try_only) {
  if (!running || quiet) return 0;
  sync_point(K_LOCK, m);
  Mtx* x = mtx(m);
  while (x->owner >= 0) {
    if (try_only) return EBUSY;
    block(K_LOCK, m, 0);
  }
  x->readers++;
  acquire(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rdlock(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rdlock(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!running || quiet) return 0;
  Mtx* x = mtx(m);
  if (x->owner == cur->id) return do_unlock(m, true);
  if (x->readers <= 0) vio("mutex-misuse", "a read-write lock that is not held was unlocked");
  release_join(m);
  if (--x->readers == 0) wake_all(K_LOCK, m);
  sync_point(K_UNLOCK, m);
  return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (live())
    for (int i = 0; i < ntasks; ++i)
      if (tasks[i].state == BLOCKED && tasks[i].kind == K_WAIT && tasks[i].obj == c)
        vio("cond-destroyed", "a condition variable was destroyed while a task waits on it");
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return do_cond_wait(c, m, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return do_cond_wait(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return do_cond_wait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!running) return 0;
  if (!quiet) { check_obj(c, "notify"); sync_point(K_SIGNAL, c); }
  wake_one(K_WAIT, c);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!running) return 0;
  if (!quiet) { check_obj(c, "notify"); sync_point(K_SIGNAL, c); }
  wake_all(K_WAIT, c);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!running) {
    if (*o == 2) return 0;
    f();
    *o = 2;
    return 0;
  }
  sync_point(K_ONCE, o);
  if (*o == 2) { acquire(o); return 0; }
  Once* s = once_of(o);
  while (s->state == 1) {
    if (quiet || s->owner == cur->id) internal_error("recursive once");
    block(K_ONCE, o, 0);
  }
  if (*o == 2) { acquire(o); return 0; }
  s->state = 1;
  s->owner = my_id();
  try {
    f();
  } catch (...) {
    s->state = 0;
    wake_all(K_ONCE, o);
    throw;
  }
  s->state = 0;
  *o = 2;
  release_set(o);
  wake_all(K_ONCE, o);
  return 0;
}

int __cxa_guard_acquire(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  if (!running) return *done ? 0 : 1;
  sync_point(K_GUARD, g);
  if (*done) { acquire(g); return 0; }
  while (done[1]) {
    if (quiet) internal_error("quiet code initialises a static under construction");
    if (done[2] == static_cast<char>(cur->id + 1)) vio("recursive-static-init", "a static's initialisation reached itself");
    block(K_GUARD, g, 0);
    if (*done) { acquire(g); return 0; }
  }
  done[1] = 1;
  done[2] = my_id() + 1;
  acquire(g);  // what an initialisation that failed has left behind
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  done[1] = 0;
  done[2] = 0;
  if (running) { release_set(g); }
  *done = 1;
  if (running) { wake_all(K_GUARD, g); sync_point(K_GUARD, g); }
}
void __cxa_guard_abort(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  done[1] = 0;
  done[2] = 0;
  if (running) { release_set(g); wake_all(K_GUARD, g); sync_point(K_GUARD, g); }
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && running) {
    int op = b & 127;
    int* addr = reinterpret_cast<int*>(a);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (quiet) internal_error("quiet code waits on a futex");
      check_obj(addr, "futex wait");
      sync_point(K_FUTEX, addr);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(c)) { errno = EAGAIN; return -1; }
      if (fault(F_SPURIOUS)) { sync_point(K_FUTEX, addr); errno = EINTR; return -1; }
      uint64_t dl = 0;
      if (d) {
        dl = abs_deadline(reinterpret_cast<struct timespec*>(d));
        if (op == FUTEX_WAIT) dl += now();
      }
      block(K_FUTEX, addr, dl);
      if (cur->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sync_point(K_FUTEX, addr);
      int k = 0;
      while (k < static_cast<int>(c) && wake_one(K_FUTEX, addr)) ++k;
      return k;
    }
    internal_error("unsupported futex operation");
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

int sched_yield(void) {
  if (!live()) return 0;
  sync_point(K_YIELD, nullptr);
  if (nlive > 1) { Task* t = default_next(cur); if (t && t != cur) switch_to(t); }
  return 0;
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!running) { long r = raw_syscall(SYS_clock_gettime, id, reinterpret_cast<long>(ts), 0, 0, 0, 0); return r < 0 ? -1 : 0; }
  uint64_t n = now();
  ts->tv_sec = n / 1000000000ull;
  ts->tv_nsec = n % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (!running) { long r = raw_syscall(SYS_gettimeofday, reinterpret_cast<long>(tv), 0, 0, 0, 0, 0); return r < 0 ? -1 : 0; }
  tv->tv_sec = now() / 1000000000ull;
  tv->tv_usec = now() / 1000 % 1000000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec* a, struct timespec*) {
  if (live()) { sim::sleep_ns(a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
  raw_syscall(SYS_nanosleep, reinterpret_cast<long>(a), 0, 0, 0, 0, 0);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) {
  if (live()) {
    uint64_t t = a->tv_sec * 1000000000ull + a->tv_nsec;
    if (flags & TIMER_ABSTIME) t = t > now() ? t - now() : 1;
    sim::sleep_ns(t);
  }
  return 0;
}
int usleep(useconds_t u) { if (live()) sim::sleep_ns(u * 1000ull); return 0; }
int get_nprocs(void) { return 4; }
int get_nprocs_conf(void) { return 4; }

// calls made by instrumented objects (objcopy --redefine-sym)
void* sim_memcpy(void* d, const void* s, size_t n) {
  mem_range(s, n, false, RET);
  mem_range(d, n, true, RET);
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
  mem_range(s, n, false, RET);
  mem_range(d, n, true, RET);
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
  mem_range(d, n, true, RET);
  return memset(d, c, n);
}
void* sim_malloc(size_t n) { if (alloc_should_fail()) { errno = ENOMEM; return nullptr; } return heap_alloc(n ? n : 1, 16, RET); }
void* sim_calloc(size_t a, size_t b) { if (alloc_should_fail()) { errno = ENOMEM; return nullptr; } void* p = heap_alloc(a * b ? a * b : 1, 16, RET); memset(p, 0, a * b); return p; }
void* sim_realloc(void* p, size_t n) {
  if (p && !in_heap(p)) return realloc(p, n);
  if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
  void* q = heap_alloc(n ? n : 1, 16, RET);
  if (p) { Block* b = block_of(p); memcpy(q, p, b && b->size < n ? b->size : n); heap_free(p); }
  return q;
}
void sim_free(void* p) { if (p && !in_heap(p)) free(p); else heap_free(p); }
int sim_posix_memalign(void** out, size_t al, size_t n) { if (alloc_should_fail()) return ENOMEM; *out = heap_alloc(n ? n : 1, al, RET); return 0; }
void* sim_aligned_alloc(size_t al, size_t n) { if (alloc_should_fail()) { errno = ENOMEM; return nullptr; } return heap_alloc(n ? n : 1, al, RET); }

}  // extern "C"

void* operator new(size_t n) { return op_new(n, 16, RET, false); }
void* operator new[](size_t n) { return op_new(n, 16, RET, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, RET, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, RET, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a), RET, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a), RET, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new(n, static_cast<size_t>(a), RET, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return op_new(n, static_cast<size_t>(a), RET, true); }
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, size_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t) noexcept { heap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { heap_free(p); }

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (!live()) return;
  Task* t = cur;
  if (t->depth < 40) t->stack[t->depth] = pc;
  ++t->depth;
  mem_point();
}
void __tsan_func_exit() {
  if (!live()) return;
  if (cur->depth > 0) --cur->depth;
  if (cur->depth < cur->iterator_depth) cur->iterator_depth = -1;
}
#define ACC(name, n, w) \
  void __tsan_##name(void* p) { if (!live()) return; if (cur->iterator_depth >= cur->depth) cur->iterator_depth = -1; mem_point(); access(p, n, w, false, RET); }
ACC(read1, 1, false) ACC(read2, 2, false) ACC(read4, 4, false) ACC(read8, 8, false) ACC(read16, 16, false)
ACC(write1, 1, true) ACC(write2, 2, true) ACC(write4, 4, true) ACC(write8, 8, true) ACC(write16, 16, true)
ACC(unaligned_read2, 2, false) ACC(unaligned_read4, 4, false) ACC(unaligned_read8, 8, false) ACC(unaligned_read16, 16, false)
ACC(unaligned_write2, 2, true) ACC(unaligned_write4, 4, true) ACC(unaligned_write8, 8, true) ACC(unaligned_write16, 16, true)
ACC(volatile_read1, 1, false) ACC(volatile_read2, 2, false) ACC(volatile_read4, 4, false) ACC(volatile_read8, 8, false) ACC(volatile_read16, 16, false)
ACC(volatile_write1, 1, true) ACC(volatile_write2, 2, true) ACC(volatile_write4, 4, true) ACC(volatile_write8, 8, true) ACC(volatile_write16, 16, true)
void __tsan_vptr_read(void** p) { if (!live()) return; mem_point(); access(p, 8, false, false, RET); }
void __tsan_vptr_update(void** p, void* v) { if (!live()) return; mem_point(); access(p, 8, *p != v, false, RET); }
void __tsan_read_range(void* p, size_t n) { mem_range(p, n, false, RET); }
void __tsan_write_range(void* p, size_t n) { mem_range(p, n, true, RET); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(const volatile void* p, unsigned n, int mo, void* pc) {
  if (!live()) return;
  const void* q = const_cast<const void*>(p);
  sync_point(K_ATOMIC, q);
  access(q, n, false, true, pc);
}
// Quiet code still orders: it may drop a reference count or publish a pointer that live code relies on.
static void at_after_load(const volatile void* p, int mo) { if (running && cur && is_acq(mo)) acquire(const_cast<const void*>(p)); }
static inline bool quiet_run() { return running && quiet && cur && ntasks > 1; }
static void at_store(const volatile void* p, unsigned n, int mo, void* pc) {
  if (quiet_run() && is_rel(mo)) release_set(const_cast<const void*>(p));
  if (!live()) return;
  const void* q = const_cast<const void*>(p);
  sync_point(K_ATOMIC, q);
  access(q, n, true, true, pc);
  if (is_rel(mo)) release_set(q);
  else if (ntasks > 1) { SyncVC* s = sync_vc(q, false); if (s) memset(s->vc, 0, sizeof s->vc); }
}
static void at_rmw(const volatile void* p, unsigned n, int mo, void* pc) {
  if (quiet_run()) {
    if (is_acq(mo)) acquire(const_cast<const void*>(p));
    if (is_rel(mo)) release_join(const_cast<const void*>(p));
  }
  if (!live()) return;
  const void* q = const_cast<const void*>(p);
  sync_point(K_ATOMIC, q);
  access(q, n, true, true, pc);
  if (is_acq(mo)) acquire(q);
  if (is_rel(mo)) release_join(q);
}
#define ATOMICS(N, T, B) \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { at_load(a, B, mo, RET); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_after_load(a, mo); return v; } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store(a, B, mo, RET); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { at_rmw(a, B, mo, RET); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    if (live()) sync_point(K_ATOMIC, const_cast<const void*>(static_cast<const volatile void*>(a))); \
    T e = *c; \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (live()) { const void* q = const_cast<const void*>(static_cast<const volatile void*>(a)); access(q, B, ok, true, RET); \
      if (is_acq(ok ? mo : fmo)) acquire(q); if (ok && is_rel(mo)) release_join(q); } \
    else if (quiet_run()) { const void* q = const_cast<const void*>(static_cast<const volatile void*>(a)); \
      if (is_acq(ok ? mo : fmo)) acquire(q); if (ok && is_rel(mo)) release_join(q); } \
    if (!ok) *c = e; \
    return ok; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T e = c; __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMICS(8, uint8_t, 1)
ATOMICS(16, uint16_t, 2)
ATOMICS(32, uint32_t, 4)
ATOMICS(64, uint64_t, 8)
void __tsan_atomic_thread_fence(int mo) {
  if (!live()) return;
  sync_point(K_ATOMIC, &fence_obj);
  acquire(&fence_obj);
  release_join(&fence_obj);
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ------------------------------------------------------------------ zygote
static void on_terminate() {
  ++quiet;
  running = false;
  snprintf(shm->cls, sizeof shm->cls, "terminate");
  std::type_info* t = abi::__cxa_current_exception_type();
  const char* what = "";
  try {
    if (t) throw;
  } catch (const std::exception& e) {
    what = e.what();
  } catch (...) {
  }
  char st[1200]; st[0] = 0;
  if (cur) describe_stack(st, sizeof st, cur);
  snprintf(shm->msg, sizeof shm->msg, "std::terminate in task %d, exception %s: %s; stack%s", cur ? cur->id : -1, t ? t->name() : "none", what, st);
  finish_run(2);
}

static void on_signal(int sig, siginfo_t* si, void*) {
  ++quiet;
  running = false;
  if (sig == SIGXCPU) { snprintf(shm->cls, sizeof shm->cls, "hang"); H = 0; IH = 0; step = 0; clock_base = 1000000000ull; last_clock_step = 0; }
  else snprintf(shm->cls, sizeof shm->cls, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal");
  char st[1200]; st[0] = 0;
  if (cur) describe_stack(st, sizeof st, cur);
  snprintf(shm->msg, sizeof shm->msg, "signal %d in task %d; stack%s", sig, cur ? cur->id : -1, st);
  (void)si;
  finish_run(2);
}

static int cpu_limit = 10;

static void run_child(uint64_t seed, bool replay) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = cpu_limit;
  rl.rlim_max = cpu_limit + 5;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 24ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  H = 1469598103934665603ull;
  IH = 88172645463325252ull;
  replaying = replay;
  uint64_t x = seed;
  uint64_t a = Rng::mix(x), b = Rng::mix(x), c = Rng::mix(x);
  rng_ops.seed(a);
  rng_sched.seed(b);
  rng_fault.seed(c);
  // schedule policy
  uint64_t p = rng_sched.below(100);
  pol_random_block = true;
  if (p < 12) { pol_random_block = rng_sched.below(2); }
  else if (p < 40) { pol_sync_shift = 1 + rng_sched.below(5); }
  else if (p < 62) { static const uint64_t g[] = {8, 30, 100, 300, 1000, 5000}; pol_gap = g[rng_sched.below(6)]; }
  else if (p < 75) { static const uint64_t g[] = {100, 1000, 4000}; pol_gap = g[rng_sched.below(3)]; pol_sync_shift = 2 + rng_sched.below(4); }
  else {
    pol_pct = true;
    pct_n = 1 + rng_sched.below(4);
    uint64_t span = 300ull << rng_sched.below(9);
    for (int i = 0; i < pct_n; ++i) pct_changes[i] = 1 + rng_sched.below(span);
    pct_low = 900;
  }
  if (replaying && !resample_sched) { pol_random_block = false; pol_pct = false; pol_gap = 0; pol_sync_shift = 0; }
  draw_next_preempt();
  real_pthread_create = reinterpret_cast<decltype(real_pthread_create)>(real_sym("pthread_create"));
  pthread_key_create(&exit_key, task_finished);
  stack_t ss;
  ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  static stack_t sss;
  sss = ss;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  fs_init();
  start_task(nullptr, [](void*) -> void* {
    sigaltstack(&sss, nullptr);
    shm->finished = 0;
    running = true;
    quiet = 0;
    set_next_event();
    heap_reuse = choose(4) == 3;
    workload();
    ++quiet;
    running = false;
    finish_run(1);
    return nullptr;
  }, nullptr);
  cur = &tasks[0];
  __atomic_store_n(&tasks[0].go, 1, __ATOMIC_SEQ_CST);
  futex_wake(&tasks[0].go);
  for (;;) { int z = 0; futex_wait(&z, 0); }
}

static void init_memory() {
  auto map = [](uintptr_t at, size_t n, int prot) {
    void* p = mmap(reinterpret_cast<void*>(at), n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != reinterpret_cast<void*>(at))) { fprintf(stderr, "sim: mmap failed\n"); raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0); }
    return p;
  };
  static bool done = false;
  if (done) return;
  done = true;
  map(kArena, kArenaSize, PROT_READ | PROT_WRITE);
  heap_state = static_cast<uint8_t*>(map(0, kHeapSize / 8, PROT_READ | PROT_WRITE));
  blocks = static_cast<Block*>(map(0, kMaxBlocks * sizeof(Block), PROT_READ | PROT_WRITE));
  shadow_arena = static_cast<uint64_t*>(map(0, kArenaSize / 8 * 32, PROT_READ | PROT_WRITE));
  shadow_pc_arena = static_cast<uint32_t*>(map(0, kArenaSize / 8 * 16, PROT_READ | PROT_WRITE));
  shadow_low = static_cast<uint64_t*>(map(0, kLowSize / 8 * 32, PROT_READ | PROT_WRITE));
  shadow_pc_low = static_cast<uint32_t*>(map(0, kLowSize / 8 * 16, PROT_READ | PROT_WRITE));
  sync_tab = static_cast<SyncVC*>(map(0, sizeof(SyncVC) * kSyncSlots, PROT_READ | PROT_WRITE));
  mtx_tab = static_cast<Mtx*>(map(0, sizeof(Mtx) * kMtxSlots, PROT_READ | PROT_WRITE));
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
// Static constructors allocate: the heap must exist before any of them.
__attribute__((constructor(101))) static void early() { mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 28); init_memory(); }

struct Lists {
  uint32_t* ops; int nops;
  SchedRec* sched; int nsched;
  FaultRec* faults; int nfaults;
};

// The kernel may free the memory of ended processes later than it reports their end, and on eight busy cores slower than new ones come:
// wait for it while little memory is available. (No run sees this.)
static void wait_for_memory() {
  static bool in_vain = false;
  for (int i = 0; i < 500 && !in_vain; ++i) {
    FILE* f = fopen("/proc/meminfo", "r");
    if (!f) return;
    long kb = -1, total = 0;
    char line[128];
    while (kb < 0 && fgets(line, sizeof line, f)) { sscanf(line, "MemTotal: %ld kB", &total); sscanf(line, "MemAvailable: %ld kB", &kb); }
    fclose(f);
    if (kb < 0 || kb > total / 20 * 9) return;
    usleep(20000);
  }
  in_vain = true;
}

// Forks one run. Returns false when the run gave no answer.
static bool one_run(uint64_t seed, const Lists* l, bool resample) {
  // reset the result area (arrays need no clearing)
  shm->finished = -1;
  shm->cls[0] = shm->msg[0] = 0;
  shm->hash = shm->ihash = shm->steps = shm->simtime = shm->switches = shm->preemptions = shm->sync_ops = shm->allocs = shm->fs_calls = shm->reused = 0;
  shm->max_tasks = shm->nontrivial = shm->nprobes = shm->nops = shm->nsched = shm->nfaults = shm->ntext = shm->text_truncated = 0;
  memset(shm->offered, 0, sizeof shm->offered);
  memset(shm->fired, 0, sizeof shm->fired);
  shm->text[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) return false;
  if (p == 0) {
    int dn = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY | O_CLOEXEC, 0));
    if (dn >= 0) syscall(SYS_dup2, dn, 1);  // what the code under test prints is dropped
    if (l) {
      rp_ops = l->ops; rp_nops = l->nops;
      rp_sched = l->sched; rp_nsched = l->nsched;
      rp_faults = l->faults; rp_nfaults = l->nfaults;
      resample_sched = resample;
    }
    run_child(seed, l != nullptr);
    _exit(3);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (shm->finished == 1 || shm->finished == 2) return true;
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGXCPU || s == SIGKILL) snprintf(shm->cls, sizeof shm->cls, s == SIGKILL ? "internal:killed" : "hang");
    else snprintf(shm->cls, sizeof shm->cls, "crash:signal%d", s);
    shm->finished = 2;
    shm->hash = 0;
    return true;
  }
  snprintf(shm->cls, sizeof shm->cls, "internal:no result (exit %d)", WEXITSTATUS(st));
  shm->finished = 2;
  return true;
}

static uint64_t run_seed(uint64_t base, uint64_t idx) { uint64_t x = base * 0x9E3779B97F4A7C15ull + idx * 0xD1342543DE82EF95ull + 12345; return Rng::mix(x); }

static void save_lists(Lists* l) {
  l->nops = shm->nops; l->nsched = shm->nsched; l->nfaults = shm->nfaults;
  memcpy(l->ops, shm->ops, sizeof(uint32_t) * l->nops);
  memcpy(l->sched, shm->sched, sizeof(SchedRec) * l->nsched);
  memcpy(l->faults, shm->faults, sizeof(FaultRec) * l->nfaults);
}
static Lists new_lists() {
  Lists l;
  l.ops = static_cast<uint32_t*>(malloc(sizeof(uint32_t) * kMaxOps));
  l.sched = static_cast<SchedRec*>(malloc(sizeof(SchedRec) * kMaxSched));
  l.faults = static_cast<FaultRec*>(malloc(sizeof(FaultRec) * kMaxFaults));
  l.nops = l.nsched = l.nfaults = 0;
  return l;
}
static void copy_lists(Lists* d, const Lists* s) {
  d->nops = s->nops; d->nsched = s->nsched; d->nfaults = s->nfaults;
  memcpy(d->ops, s->ops, sizeof(uint32_t) * s->nops);
  memcpy(d->sched, s->sched, sizeof(SchedRec) * s->nsched);
  memcpy(d->faults, s->faults, sizeof(FaultRec) * s->nfaults);
}

static void print_escaped(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static void write_replay(const char* path, const Lists* l, uint64_t seed, uint64_t idx) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); _exit(3); }
  fprintf(f, "simreplay 1\ncheck %s\nseed %lu\nindex %lu\nclass %s\nhash %016lx\n", kCheckId, static_cast<unsigned long>(seed), static_cast<unsigned long>(idx), shm->cls, static_cast<unsigned long>(shm->hash));
  fprintf(f, "ops");
  for (int i = 0; i < l->nops; ++i) fprintf(f, " %u", l->ops[i]);
  fprintf(f, "\nsched");
  for (int i = 0; i < l->nsched; ++i) fprintf(f, " %lu:%u", static_cast<unsigned long>(l->sched[i].step), l->sched[i].task);
  fprintf(f, "\nfaults");
  for (int i = 0; i < l->nfaults; ++i) fprintf(f, " %u:%u:%u", l->faults[i].kind, l->faults[i].occ, l->faults[i].variant);
  fprintf(f, "\nend\n# --- what happens (information only, not read back) ---\n# violation: %s\n", shm->cls);
  fputs("# ", f);
  for (const char* p = shm->msg; *p; ++p) { fputc(*p, f); if (*p == '\n') fputs("# ", f); }
  fprintf(f, "\n# schedule entries step:task move the token to that task at that step; faults are kind:occurrence:variant\n# ");
  for (const char* p = shm->text; *p; ++p) { fputc(*p, f); if (*p == '\n') fputs("# ", f); }
  fputc('\n', f);
  fclose(f);
}

static bool read_replay(const char* path, Lists* l, char* cls, uint64_t* hash) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  size_t cap = 0;
  char* line = nullptr;
  bool ok = false;
  while (getline(&line, &cap, f) > 0) {
    if (!strncmp(line, "class ", 6)) { snprintf(cls, 160, "%s", line + 6); cls[strcspn(cls, "\n")] = 0; }
    else if (!strncmp(line, "hash ", 5)) *hash = strtoull(line + 5, nullptr, 16);
    else if (!strncmp(line, "check ", 6)) { line[strcspn(line, "\n")] = 0; if (strcmp(line + 6, kCheckId)) return false; }
    else if (!strncmp(line, "ops", 3)) { char* p = line + 3; char* e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; l->ops[l->nops++] = v; p = e; } }
    else if (!strncmp(line, "sched", 5)) {
      char* p = line + 5; char* e;
      for (;;) { unsigned long s = strtoul(p, &e, 10); if (e == p) break; unsigned long t = strtoul(e + 1, &e, 10); l->sched[l->nsched].step = s; l->sched[l->nsched++].task = t; p = e; }
    } else if (!strncmp(line, "faults", 6)) {
      char* p = line + 6; char* e;
      for (;;) { unsigned long k = strtoul(p, &e, 10); if (e == p) break; unsigned long o = strtoul(e + 1, &e, 10); unsigned long v = strtoul(e + 1, &e, 10); FaultRec& r = l->faults[l->nfaults++]; r.kind = k; r.occ = o; r.variant = v; p = e; }
    } else if (!strncmp(line, "end", 3)) { ok = true; break; }
  }
  free(line);
  fclose(f);
  return ok;
}

static double wall() { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, reinterpret_cast<long>(&ts), 0, 0, 0, 0); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// --- minimisation: keep the violation class, drop operations, preemptions and faults
static uint64_t min_seed;
static int min_tries = 0;
static double min_until = 0;
static char min_cls[160];
static uint64_t cost(const Lists* l) { return static_cast<uint64_t>(l->nops) + 3ull * l->nsched + 3ull * l->nfaults; }
static uint64_t weight(const Lists* l) { uint64_t w = 0; for (int i = 0; i < l->nops; ++i) w += l->ops[i]; return w; }
static void strip(Lists* l) { while (l->nops && !l->ops[l->nops - 1]) --l->nops; }
// Runs the candidate; keeps what it consumed when it fails in the same way and is simpler than the best so far.
static bool still_fails(Lists* cand, Lists* best, bool resample) {
  static Lists got = new_lists();
  ++min_tries;
  one_run(min_seed + (resample ? min_tries : 0), cand, resample);
  if (shm->finished != 2 || strcmp(shm->cls, min_cls)) return false;
  save_lists(&got);
  strip(&got);
  uint64_t a = cost(&got), b = cost(best);
  if (a > b || (a == b && weight(&got) >= weight(best))) return false;
  copy_lists(best, &got);
  return true;
}
static bool budget() { return wall() < min_until && min_tries < 3000; }

static void minimise(Lists* best) {
  Lists cand = new_lists();
  bool progress = true;
  int round = 0;
  while (progress && budget() && round++ < 6) {
    progress = false;
    // schedule: drop chunks
    for (int chunk = best->nsched; chunk >= 1 && budget(); chunk = chunk > 1 ? chunk / 2 : 0)
      for (int i = 0; i < best->nsched && budget();) {
        copy_lists(&cand, best);
        int n = chunk < cand.nsched - i ? chunk : cand.nsched - i;
        memmove(cand.sched + i, cand.sched + i + n, sizeof(SchedRec) * (cand.nsched - i - n));
        cand.nsched -= n;
        if (still_fails(&cand, best, false)) progress = true; else i += chunk;
      }
    for (int chunk = best->nfaults; chunk >= 1 && budget(); chunk = chunk > 1 ? chunk / 2 : 0)
      for (int i = 0; i < best->nfaults && budget();) {
        copy_lists(&cand, best);
        int n = chunk < cand.nfaults - i ? chunk : cand.nfaults - i;
        memmove(cand.faults + i, cand.faults + i + n, sizeof(FaultRec) * (cand.nfaults - i - n));
        cand.nfaults -= n;
        if (still_fails(&cand, best, false)) progress = true; else i += chunk;
      }
    // operations: drop chunks, then zero, then halve
    for (int chunk = best->nops / 2; chunk >= 1 && budget(); chunk /= 2)
      for (int i = 0; i < best->nops && budget();) {
        copy_lists(&cand, best);
        int n = chunk < cand.nops - i ? chunk : cand.nops - i;
        memmove(cand.ops + i, cand.ops + i + n, sizeof(uint32_t) * (cand.nops - i - n));
        cand.nops -= n;
        bool ok = still_fails(&cand, best, false);
        for (int k = 0; !ok && k < 6 && best->nsched > 0 && budget(); ++k) {
          copy_lists(&cand, best);
          int m = chunk < cand.nops - i ? chunk : cand.nops - i;
          if (m <= 0) break;
          memmove(cand.ops + i, cand.ops + i + m, sizeof(uint32_t) * (cand.nops - i - m));
          cand.nops -= m;
          ok = still_fails(&cand, best, true);
        }
        if (ok) progress = true; else i += chunk;
      }
    for (int i = 0; i < best->nops && budget(); ++i) {
      if (!best->ops[i]) continue;
      for (uint32_t v : {0u, best->ops[i] / 2, best->ops[i] - 1}) {
        if (i >= best->nops || v >= best->ops[i]) continue;
        copy_lists(&cand, best);
        cand.ops[i] = v;
        if (still_fails(&cand, best, false)) { progress = true; break; }
      }
    }
  }
}

int main(int argc, char** argv) {
  const char* mode = argc > 1 ? argv[1] : "";
  auto opt = [&](const char* n, const char* d) -> const char* {
    for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1];
    return d;
  };
  uint64_t seed = strtoull(opt("--seed", "1"), nullptr, 10);
  int core = atoi(opt("--core", "-1"));
  cpu_limit = atoi(opt("--cpu-limit", "60"));
  if (core >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(core, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  if (!strcmp(mode, "explore")) {
    uint64_t from = strtoull(opt("--from", "0"), nullptr, 10), stride = strtoull(opt("--stride", "1"), nullptr, 10), count = strtoull(opt("--count", "100"), nullptr, 10);
    double tmax = atof(opt("--tmax", "60"));
    int maxviol = atoi(opt("--max-violations", "3"));
    const char* out = opt("--out", "/dev/stdout");
    const char* hout = opt("--hashes", "");
    FILE* hf = *hout ? fopen(hout, "wb") : nullptr;
    double t0 = wall();
    uint64_t runs = 0, nontriv = 0, steps = 0, simt = 0, sw = 0, pre = 0, so = 0, al = 0, fsc = 0, reu = 0, maxst = 0, multi = 0, truncated = 0;
    uint64_t off[F_COUNT] = {}, fir[F_COUNT] = {}, runs_with[F_COUNT] = {};
    struct { char name[48]; uint64_t n; } pr[128];
    int npr = 0;
    uint64_t allhash = 0;
    int nv = 0;
    struct V { uint64_t idx, hash; char cls[160]; char msg[2500]; };
    V* vs = static_cast<V*>(calloc(maxviol + 1, sizeof(V)));
    char* samples[3] = {};
    uint64_t samp_idx[3] = {};
    int nsamp = 0;
    unsigned since_look = 0;
    for (uint64_t i = from; i < count; i += stride) {
      if (wall() - t0 > tmax) break;
      if ((++since_look & 31) == 0) wait_for_memory();
      one_run(run_seed(seed, i), nullptr, false);
      ++runs;
      nontriv += shm->nontrivial;
      steps += shm->steps; simt += shm->simtime; sw += shm->switches; pre += shm->preemptions; so += shm->sync_ops; al += shm->allocs; fsc += shm->fs_calls; reu += shm->reused; maxst = std::max<uint64_t>(maxst, shm->steps);
      multi += shm->max_tasks > 1;
      for (int k = 0; k < F_COUNT; ++k) { off[k] += shm->offered[k]; fir[k] += shm->fired[k]; runs_with[k] += shm->fired[k] > 0; }
      for (int k = 0; k < shm->nprobes; ++k) {
        int j = 0;
        while (j < npr && strcmp(pr[j].name, shm->probes[k].name)) ++j;
        if (j == npr) { if (npr == 128) continue; strcpy(pr[npr].name, shm->probes[k].name); pr[npr].n = 0; ++npr; }
        pr[j].n += shm->probes[k].n;
      }
      uint64_t rec[3] = {i, shm->hash, shm->nontrivial ? shm->ihash : 0};
      if (hf) fwrite(rec, 8, 3, hf);
      allhash = (allhash ^ shm->hash ^ (i * 0x9E3779B97F4A7C15ull)) * 0x100000001B3ull;
      if (nsamp < 2 && shm->nontrivial && runs > 3) {
        samp_idx[nsamp] = i;
        char* b = static_cast<char*>(malloc(2600));
        snprintf(b, 2600, "%.2500s", shm->text);
        samples[nsamp++] = b;
      }
      if (shm->finished == 2 && !strncmp(shm->cls, "internal:too many ", 18)) { ++truncated; continue; }  // a run too long to be recorded decides nothing
      if (shm->finished == 2) {
        V& v = vs[nv++];
        v.idx = i; v.hash = shm->hash;
        snprintf(v.cls, sizeof v.cls, "%s", shm->cls);
        snprintf(v.msg, sizeof v.msg, "%.2400s", shm->msg);
        if (nv >= maxviol) break;
      }
    }
    if (hf) fclose(hf);
    FILE* f = fopen(out, "w");
    if (!f) { perror(out); return 3; }
    fprintf(f, "{\"runs\":%lu,\"nontrivial\":%lu,\"steps\":%lu,\"longest_run_steps\":%lu,\"simtime_ns\":%lu,\"switches\":%lu,\"preemptions\":%lu,\"sync_ops\":%lu,\"allocs\":%lu,\"fs_calls\":%lu,\"reused\":%lu,\"multi_task_runs\":%lu,\"truncated\":%lu,\"wall\":%.3f,\"allhash\":\"%016lx\"", runs, nontriv, steps, maxst, simt, sw, pre, so, al, fsc, reu, multi, truncated, wall() - t0, allhash);
    fprintf(f, ",\"faults\":{");
    for (int k = 0; k < F_COUNT; ++k) fprintf(f, "%s\"%s\":{\"sites\":%lu,\"fired\":%lu,\"runs\":%lu}", k ? "," : "", kFaultNames[k], off[k], fir[k], runs_with[k]);
    fprintf(f, "},\"probes\":{");
    for (int k = 0; k < npr; ++k) fprintf(f, "%s\"%s\":%lu", k ? "," : "", pr[k].name, pr[k].n);
    fprintf(f, "},\"violations\":[");
    for (int k = 0; k < nv; ++k) {
      fprintf(f, "%s{\"index\":%lu,\"hash\":\"%016lx\",\"class\":", k ? "," : "", vs[k].idx, vs[k].hash);
      print_escaped(f, vs[k].cls);
      fprintf(f, ",\"message\":");
      print_escaped(f, vs[k].msg);
      fprintf(f, "}");
    }
    fprintf(f, "],\"samples\":[");
    for (int k = 0; k < nsamp; ++k) { fprintf(f, "%s{\"run\":%lu,\"trace\":", k ? "," : "", samp_idx[k]); print_escaped(f, samples[k]); fprintf(f, "}"); }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
  }
  if (!strcmp(mode, "run") || !strcmp(mode, "minimise")) {
    uint64_t idx = strtoull(opt("--index", "0"), nullptr, 10);
    one_run(run_seed(seed, idx), nullptr, false);
    if (!strcmp(mode, "run")) {
      printf("%s\n--- finished=%d class=%s hash=%016lx steps=%lu ops=%d sched=%d faults=%d tasks=%d\n%s\n", shm->text, shm->finished, shm->cls, shm->hash, shm->steps, shm->nops, shm->nsched, shm->nfaults, shm->max_tasks, shm->msg);
      return 0;
    }
    if (shm->finished != 2) { fprintf(stderr, "no violation at this index\n"); return 3; }
    snprintf(min_cls, sizeof min_cls, "%s", shm->cls);
    min_seed = run_seed(seed, idx);
    min_until = wall() + atof(opt("--tmax", "60"));
    Lists best = new_lists();
    save_lists(&best);
    strip(&best);
    // the recorded lists must reproduce the failure by themselves
    Lists cand = new_lists();
    copy_lists(&cand, &best);
    one_run(min_seed, &cand, false);
    if (shm->finished != 2 || strcmp(shm->cls, min_cls)) { fprintf(stderr, "recorded choices do not reproduce: %s vs %s\n", shm->cls, min_cls); return 3; }
    if (!strcmp(opt("--no-min", "0"), "0")) minimise(&best);
    one_run(min_seed, &best, false);
    if (shm->finished != 2 || strcmp(shm->cls, min_cls)) { fprintf(stderr, "minimised run does not reproduce\n"); return 3; }
    // write what the run consumed, so that the file is in normal form
    write_replay(opt("--out", "/dev/stdout"), &best, seed, idx);
    printf("class=%s hash=%016lx ops=%d sched=%d faults=%d tries=%d\n", shm->cls, shm->hash, best.nops, best.nsched, best.nfaults, min_tries);
    return 0;
  }
  if (!strcmp(mode, "replay")) {
    Lists l = new_lists();
    char cls[160] = "";
    uint64_t hash = 0;
    if (!read_replay(opt("--file", ""), &l, cls, &hash)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
    one_run(0, &l, false);
    bool same = shm->finished == 2 && !strcmp(shm->cls, cls) && shm->hash == hash;
    printf("%s\n--- class=%s hash=%016lx steps=%lu expected class=%s hash=%016lx %s\n%s\n", shm->text, shm->cls, shm->hash, shm->steps, cls, hash, same ? "REPRODUCED" : "DIFFERENT", shm->msg);
    return same ? 0 : 2;
  }
  fprintf(stderr, "usage: %s explore|run|minimise|replay ...\n", argv[0]);
  return 3;
}
