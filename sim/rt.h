// Deterministic simulator: interface for workloads. See DESIGN.md.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// Kinds of injected faults. Each has its own occurrence counter; a fault is identified by (kind, occurrence).
enum Fault {
  F_SPURIOUS = 0,   // spurious wake-up of a condition variable or futex
  F_THREAD,         // pthread_create fails with EAGAIN
  F_ALLOC,          // operator new throws bad_alloc
  F_SHORT_READ,     // read returns fewer bytes than asked
  F_EINTR_READ,     // read fails with EINTR
  F_EIO_READ,       // read fails with EIO
  F_SHORT_WRITE,    // write accepts fewer bytes than asked
  F_EINTR_WRITE,    // write fails with EINTR
  F_ENOSPC,         // the disk is full from here on
  F_EIO_WRITE,      // write fails with EIO
  F_OPEN,           // open fails (EMFILE, EACCES, EIO)
  F_CLOSE,          // close fails with EIO and unwritten data is lost
  F_STAT,           // stat fails with EIO/EACCES
  F_MKDIR,          // mkdir/rmdir/unlink fails
  F_READDIR,        // opendir or readdir fails
  F_FSRACE,         // another process changes the directory tree between two system calls
  F_DLOPEN,         // dlopen fails
  F_DLSYM,          // dlsym fails
  F_TASK_THROW,     // the user task / integrand / sink throws
  F_TRUNCATE,       // a stored file was cut off
  F_CORRUPT,        // stored bytes were damaged
  F_COUNT
};
extern const char* const kFaultNames[F_COUNT];

// ---- choices (all logged; 0 is always the simplest) ----
uint32_t choose(uint32_t n);                 // uniform in [0, n)
bool flip(uint32_t num, uint32_t den);       // true with probability num/den; false is simplest
inline double real(double lo, double hi) { return lo + (hi - lo) * (choose(4097) / 4096.0); }
template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[choose(static_cast<uint32_t>(v.size()))]; }

void set_rate(Fault k, uint32_t per64k);     // probability of a fault at each site of this kind
bool fault(Fault k, uint32_t nvariants = 1, uint32_t* variant = nullptr);  // is a fault injected at this site now?
void fault_fired(Fault k);                   // counts a fault the workload injected itself
uint64_t faults_fired(Fault k);
uint64_t faults_fired_total();

void reuse_memory(bool on);                  // whether freed blocks are handed out again at once (decided by chance otherwise)

// ---- observation ----
[[noreturn]] void violation(const std::string& cls, const std::string& detail);
inline void check(bool ok, const char* cls, const std::string& detail) { if (!ok) violation(cls, detail); }
void event(const std::string& text);         // appended to the trace and hashed into it
void probe(const char* name);                // counts that a rare condition was reached
void mark_nontrivial();                      // this run did what its check calls non-trivial
void mix_state(uint64_t h);                  // contributes to the distinctness hash of the run

// No preemption, no fault, no race detection while one of these lives (oracle and bookkeeping code).
struct Quiet {
  Quiet(); ~Quiet();
  Quiet(const Quiet&) = delete;
};
template <class F> auto quietly(F f) -> decltype(f()) { Quiet q; return f(); }

// Fails the k-th (1-based) non-quiet allocation made by this task while it lives; k == 0: none.
// `more`: allocations after the k-th fail too.
struct AllocFail {
  explicit AllocFail(uint32_t k, bool more = false);
  ~AllocFail();
  bool fired() const;
  uint32_t count() const;  // allocations seen
};
long live_blocks();          // live heap blocks allocated by non-quiet code
std::string leak_report(long since_serial);  // sites of live blocks allocated after this serial
long alloc_serial();
bool addr_live(const void* p);  // whether p points into a live heap block

// ---- time and tasks ----
#define SIM_EVENT(e) do { ::sim::Quiet q_; ::sim::event(e); } while (0)
#define SIM_CHECK(c, cls, msg) do { ::sim::Quiet q_; if (!(c)) ::sim::violation(cls, msg); } while (0)
uint64_t now_ns();
void sleep_ns(uint64_t ns);
int spawn(std::function<void()> f);          // starts a simulated thread; returns its id
void join(int id);
int current_task();
int tasks_alive();                           // including the caller
int tasks_started();
bool task_done(int id);
uint64_t steps();
void set_step_cap(uint64_t n);
void yield_point();                          // an explicit scheduling point

// ---- simulated file system (paths under /sim) ----
namespace fs {
struct Node { bool dir = false; std::string data; uint64_t ino = 0; };
void reset();
void mkdirs(const std::string& path);
void put(const std::string& path, const std::string& data);
bool get(const std::string& path, std::string* data);  // durable content
bool exists(const std::string& path);
bool is_dir(const std::string& path);
void remove(const std::string& path);                  // recursively
std::vector<std::string> list();                       // all paths, sorted
int open_fds();
void set_capacity(long bytes);                         // <0: unlimited
uint64_t syscalls();
// Called between system calls when F_FSRACE fires.
void set_racer(std::function<void()> f);
// Every version of the tree is numbered; used to check that an answer held at some instant during a call.
void set_dir_salt(uint32_t salt);                      // order in which directories list their entries
uint64_t version();
bool ever(const std::string& path, char kind, uint64_t from_version);  // kind: 'f','d','-' at some version >= from
struct Mutation { std::string path; char from, to; int by; };  // by: the task, or -1 for another process
std::vector<Mutation> mutations(uint64_t from_version);
char kind_at(const std::string& path, uint64_t version);
void set_stat_junk(bool on);                           // a failed stat leaves junk in the buffer
void set_env(const std::string& name, const std::string& value);
void unset_env(const std::string& name);
extern bool io_error_reported;                         // a non-transient error was returned to the code since reset
std::string last_error_desc();
int errors_on(const std::string& path);                // lasting errors that calls on this path were given
}  // namespace fs

// ---- simulated dynamic linker ----
namespace dl {
struct Lib { std::vector<std::pair<std::string, void*>> symbols; };
void reset();
void define(const std::string& path, const Lib& lib);
int open_count(const std::string& path);               // outstanding references
int opens(const std::string& path);
int closes(const std::string& path);
int bad_closes();
bool sym_after_close();
void set_close_hook(std::function<void(const std::string&)> f);
}  // namespace dl

}  // namespace sim

// Provided by each check.
extern const char* const kCheckId;
void workload();
