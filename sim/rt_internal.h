// Internals of the simulator runtime, shared by rt.cc, rt_fs.cc and rt_dl.cc.
#pragma once
#include <pthread.h>

#include <cstddef>
#include <cstdint>

#include "rt.h"

namespace sim {
namespace in {

constexpr int kMaxTasks = 32;
constexpr uintptr_t kArena = 0x100000000000ull;
constexpr size_t kHeapSize = 384ull << 20;
constexpr size_t kStackSize = 1ull << 20;
constexpr uintptr_t kStacks = kArena + kHeapSize;
constexpr size_t kArenaSize = kHeapSize + (kMaxTasks + 1) * kStackSize;
constexpr uintptr_t kLow = 0x400000;
constexpr size_t kLowSize = 96ull << 20;

constexpr int kMaxOps = 60000, kMaxSched = 60000, kMaxFaults = 8000, kTraceText = 48 << 10;

struct SchedRec { uint64_t step; uint32_t task; uint32_t pad; };
struct FaultRec { uint32_t kind, occ, variant, pad; };

// Lives in memory shared between the zygote and the run.
struct Shm {
  int finished;  // 1: workload returned, 2: violation
  char cls[160];
  char msg[6000];
  uint64_t hash, ihash, steps, simtime, switches, preemptions, sync_ops, allocs, fs_calls, reused;
  int max_tasks;
  int nontrivial;
  uint64_t offered[F_COUNT], fired[F_COUNT];
  struct { char name[48]; uint64_t n; } probes[96];
  int nprobes;
  int nops, nsched, nfaults;
  uint32_t ops[kMaxOps];
  SchedRec sched[kMaxSched];
  FaultRec faults[kMaxFaults];
  int ntext;
  int text_truncated;
  char text[kTraceText];
};
extern Shm* shm;

extern bool running;      // inside the workload of a run
extern int quiet;         // nesting of quiet sections (starts at 1)
extern uint64_t step;

// libstdc++ advances its directory iterators in noexcept functions that allocate: no allocation of this task fails
// between the readdir call and the next instruction of the function that uses the iterator.
void in_directory_iterator();

inline bool live() { return running && quiet == 0; }

void sync_point(int kind, const void* obj);
void hash_mix(uint64_t v);
void text_event(const char* s, size_t n);
uint64_t rnd_fault();
void mem_range(const void* p, size_t n, bool write, void* pc);
void* real_sym(const char* name);
[[noreturn]] void internal_error(const char* what);
long raw_syscall(long n, long a, long b, long c, long d, long e, long f);
void fs_init();
void tick(uint64_t ns);

enum SyncKind { K_LOCK = 1, K_UNLOCK, K_WAIT, K_SIGNAL, K_CREATE, K_JOIN, K_ATOMIC, K_FUTEX, K_ONCE, K_GUARD, K_YIELD, K_SLEEP, K_IO, K_EXIT, K_START };

}  // namespace in
}  // namespace sim
