// Simulated file system, environment and dynamic linker. While a run is live every path is simulated.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <vector>

#include "rt_internal.h"

using namespace sim;
using namespace sim::in;

namespace {

struct N { bool dir = false; std::string data; uint64_t ino = 0; };
struct Open { std::shared_ptr<N> n; std::string path; size_t off = 0; int flags = 0; bool written = false; bool err = false; };
struct Change { uint64_t ver; std::string path; char kind; int by; };

struct State {
  std::map<std::string, std::shared_ptr<N>> tree;
  std::map<int, Open> fds;
  std::map<std::string, std::string> env;
  std::map<FILE*, int> files;
  std::map<std::string, int> errors;
  std::vector<Change> log;
  uint64_t ver = 0, next_ino = 10, calls = 0;
  long capacity = -1;
  std::function<void()> racer;
  std::string cwd = "/sim/work", last_err;
  uint32_t salt = 0;
  bool stat_junk = false;
};
State* S = nullptr;
constexpr int kFdBase = 2000;

int fail(int e) { errno = e; return -1; }

std::string norm_path(const char* p) {
  std::string in = p, out;
  if (in.empty()) return "";
  if (in[0] != '/') in = S->cwd + "/" + in;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < in.size()) {
    size_t j = in.find('/', i);
    if (j == std::string::npos) j = in.size();
    std::string c = in.substr(i, j - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  for (auto& c : parts) out += "/" + c;
  return out.empty() ? "/" : out;
}
std::string parent(const std::string& p) {
  size_t i = p.rfind('/');
  return i == 0 || i == std::string::npos ? "/" : p.substr(0, i);
}
std::shared_ptr<N> find(const std::string& p) {
  auto it = S->tree.find(p);
  return it == S->tree.end() ? nullptr : it->second;
}
// ENOENT or ENOTDIR for a path whose parent chain is unusable, else 0
int parent_error(const std::string& p) {
  if (p == "/") return 0;
  std::string q = parent(p);
  for (;;) {
    auto n = find(q);
    if (n) return n->dir ? (q == parent(p) ? 0 : ENOENT) : ENOTDIR;
    if (q == "/") return ENOENT;
    q = parent(q);
  }
}
int actor = -1;  // the task whose system call is under way
struct Acting { Acting() { actor = current_task(); } ~Acting() { actor = -1; } };
void change(const std::string& p, char k) { S->log.push_back({++S->ver, p, k, actor}); }
long used() { long n = 0; for (auto& kv : S->tree) n += kv.second->data.size(); return n; }
bool has_children(const std::string& p) {
  std::string pre = p == "/" ? p : p + "/";
  auto it = S->tree.lower_bound(pre);
  while (it != S->tree.end() && it->first == p) ++it;
  return it != S->tree.end() && it->first.compare(0, pre.size(), pre) == 0;
}
void note_error(const char* call, const std::string& path) { fs::io_error_reported = true; S->last_err = std::string(call) + " " + path; ++S->errors[path]; }

// Start of every simulated system call. Returns with the simulator quiet (through the Quiet held by the caller).
void enter(const char* name, const std::string& path) {
  ++S->calls;
  ++shm->fs_calls;
  std::string t = std::string("  sys ") + name + " " + path;
  text_event(t.data(), t.size());
}
// Injected faults are drawn outside quiet mode.
struct Site {
  bool race = false;
  Site() { sync_point(K_IO, nullptr); tick(20000); race = fault(F_FSRACE); }
};
void maybe_race(const Site& s) { if (s.race && S->racer) { Quiet q; S->racer(); } }

void add_node(const std::string& p, bool dir) {
  auto n = std::make_shared<N>();
  n->dir = dir;
  n->ino = S->next_ino++;
  S->tree[p] = n;
  change(p, dir ? 'd' : 'f');
}

int alloc_fd() { int f = kFdBase; while (S->fds.count(f)) ++f; return f; }

void fill_stat(const N& n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = n.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = n.data.size();
  st->st_ino = n.ino;
  st->st_nlink = 1;
  st->st_blksize = 4096;
}

// What the buffer holds after a failed call is unspecified: it is what was on the stack.
void junk(struct stat* st) {
  if (!S->stat_junk) return;
  memset(st, 0xA5, sizeof *st);
  st->st_mode = S->calls % 3 == 0 ? S_IFIFO : S->calls % 3 == 1 ? S_IFDIR : S_IFREG;
}

int sim_stat(const char* path, struct stat* st, const char* name) {
  Site s;
  uint32_t v = 0;
  bool f = fault(F_STAT, 2, &v);
  Quiet q;
  maybe_race(s);
  std::string p = norm_path(path);
  enter(name, p);
  junk(st);
  if (p.empty()) return fail(ENOENT);
  if (f) { note_error(name, p); return fail(v ? EACCES : EIO); }
  int e = parent_error(p);
  if (e) return fail(e);
  auto n = find(p);
  if (!n) return fail(ENOENT);
  fill_stat(*n, st);
  return 0;
}

int sim_open(const char* path, int flags) {
  Site s;
  uint32_t v = 0;
  bool f = fault(F_OPEN, 4, &v);
  Quiet q;
  maybe_race(s);
  std::string p = norm_path(path);
  enter((flags & O_ACCMODE) == O_RDONLY ? "open(r)" : "open(w)", p);
  if (p.empty()) return fail(ENOENT);
  if (f) { note_error("open", p); static const int es[] = {EACCES, EMFILE, EIO, ENFILE}; return fail(es[v]); }
  int e = parent_error(p);
  if (e) return fail(e);
  auto n = find(p);
  if (!n) {
    if (!(flags & O_CREAT)) return fail(ENOENT);
    if (S->capacity >= 0 && used() >= S->capacity && S->capacity == 0) return fail(ENOSPC);
    Acting a;
    add_node(p, false);
    n = find(p);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (n->dir && (flags & O_ACCMODE) != O_RDONLY) return fail(EISDIR);
    if (!n->dir && (flags & O_DIRECTORY)) return fail(ENOTDIR);
  }
  if ((flags & O_TRUNC) && !n->dir && (flags & O_ACCMODE) != O_RDONLY) n->data.clear();
  int fd = alloc_fd();
  Open o;
  o.n = n;
  o.path = p;
  o.flags = flags;
  S->fds[fd] = o;
  return fd;
}

ssize_t sim_read(int fd, void* buf, size_t len) {
  Site s;
  bool f1 = fault(F_EINTR_READ), f2 = !f1 && fault(F_EIO_READ);
  uint32_t v = 0;
  bool f3 = !f1 && !f2 && len > 1 && fault(F_SHORT_READ, 3, &v);
  ssize_t r;
  size_t got = 0;
  {
    Quiet q;
    maybe_race(s);
    auto it = S->fds.find(fd);
    if (it == S->fds.end()) return fail(EBADF);
    Open& o = it->second;
    enter("read", o.path);
    if (f1) return fail(EINTR);
    if (f2) { note_error("read", o.path); return fail(EIO); }
    if (o.n->dir) { note_error("read", o.path); return fail(EISDIR); }
    size_t left = o.off < o.n->data.size() ? o.n->data.size() - o.off : 0;
    got = std::min(left, len);
    if (f3 && got > 1) got = v == 0 ? 1 : v == 1 ? got / 2 : got - 1;
    memcpy(buf, o.n->data.data() + o.off, got);
    o.off += got;
    r = got;
  }
  return r;
}

ssize_t sim_write(int fd, const void* buf, size_t len) {
  Site s;
  bool f1 = fault(F_EINTR_WRITE), f2 = !f1 && fault(F_EIO_WRITE), f3 = !f1 && !f2 && fault(F_ENOSPC);
  uint32_t v = 0;
  bool f4 = !f1 && !f2 && !f3 && len > 1 && fault(F_SHORT_WRITE, 3, &v);
  Quiet q;
  maybe_race(s);
  auto it = S->fds.find(fd);
  if (it == S->fds.end()) return fail(EBADF);
  Open& o = it->second;
  enter("write", o.path);
  if ((o.flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  if (f1) return fail(EINTR);
  if (f2) { note_error("write", o.path); return fail(EIO); }
  if (f3) S->capacity = used() + static_cast<long>(len / 3);
  size_t n = len;
  if (f4) n = v == 0 ? 1 : v == 1 ? len / 2 : len - 1;
  if (S->capacity >= 0) {
    long room = S->capacity - used();
    if (room <= 0 && len > 0) { note_error("write (no space)", o.path); return fail(ENOSPC); }
    if (static_cast<long>(n) > room) n = room;
  }
  if (o.flags & O_APPEND) o.off = o.n->data.size();
  if (o.n->data.size() < o.off + n) o.n->data.resize(o.off + n);
  memcpy(&o.n->data[o.off], buf, n);
  o.off += n;
  o.written = true;
  return n;
}

int sim_close(int fd) {
  sync_point(K_IO, nullptr);
  bool w = false;
  {
    Quiet q;
    auto it = S->fds.find(fd);
    if (it == S->fds.end()) return fail(EBADF);
    w = it->second.written;
  }
  uint32_t v = 0;
  bool f = w && fault(F_CLOSE, 3, &v);
  Quiet q;
  Open o = S->fds[fd];
  S->fds.erase(fd);
  enter("close", o.path);
  if (f) {
    size_t n = o.n->data.size();
    o.n->data.resize(v == 0 ? n - n / 4 : v == 1 ? 0 : n);
    note_error("close", o.path);
    return fail(EIO);
  }
  return 0;
}

off_t sim_lseek(int fd, off_t off, int wh) {
  Quiet q;
  auto it = S->fds.find(fd);
  if (it == S->fds.end()) return fail(EBADF);
  Open& o = it->second;
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.off : o.n->data.size();
  if (b + off < 0) return fail(EINVAL);
  return o.off = b + off;
}

int sim_fstat(int fd, struct stat* st) {
  Quiet q;
  auto it = S->fds.find(fd);
  if (it == S->fds.end()) return fail(EBADF);
  fill_stat(*it->second.n, st);
  return 0;
}

int sim_mkdir(const char* path) {
  Site s;
  uint32_t v = 0;
  bool f = fault(F_MKDIR, 3, &v);
  Quiet q;
  maybe_race(s);
  std::string p = norm_path(path);
  enter("mkdir", p);
  if (p.empty()) return fail(ENOENT);
  if (f) { note_error("mkdir", p); static const int es[] = {EACCES, ENOSPC, EIO}; return fail(es[v]); }
  int e = parent_error(p);
  if (e) return fail(e);
  if (find(p)) return fail(EEXIST);
  Acting a;
  add_node(p, true);
  return 0;
}

int sim_rm(const char* path, bool dirs, bool files, const char* name) {
  Site s;
  uint32_t v = 0;
  bool f = fault(F_MKDIR, 3, &v);
  Quiet q;
  maybe_race(s);
  std::string p = norm_path(path);
  enter(name, p);
  if (f) { note_error(name, p); static const int es[] = {EACCES, EBUSY, EIO}; return fail(es[v]); }
  int e = parent_error(p);
  if (e) return fail(e);
  auto n = find(p);
  if (!n) return fail(ENOENT);
  if (n->dir) {
    if (!dirs) return fail(EISDIR);
    if (has_children(p) || p == "/") return fail(ENOTEMPTY);
  } else if (!files) {
    return fail(ENOTDIR);
  }
  S->tree.erase(p);
  Acting a;
  change(p, '-');
  return 0;
}

struct SimDir { uint64_t magic; std::vector<std::pair<std::string, bool>> names; size_t pos; struct dirent ent; int fd; std::string path; };
constexpr uint64_t kDirMagic = 0x51D1251D12ull;

DIR* make_dir(const std::string& p, int fd) {
  auto* d = new SimDir;
  d->magic = kDirMagic;
  d->pos = 0;
  d->fd = fd;
  d->path = p;
  d->names.push_back({".", true});
  d->names.push_back({"..", true});
  std::string pre = p == "/" ? p : p + "/";
  std::vector<std::pair<uint64_t, std::pair<std::string, bool>>> v;
  for (auto& kv : S->tree) {
    if (kv.first.size() <= pre.size() || kv.first.compare(0, pre.size(), pre)) continue;
    std::string rest = kv.first.substr(pre.size());
    if (rest.find('/') != std::string::npos) continue;
    uint64_t h = S->salt;
    for (char c : rest) h = (h ^ static_cast<unsigned char>(c)) * 0x100000001B3ull;
    v.push_back({S->salt ? h : 0, {rest, kv.second->dir}});
  }
  std::sort(v.begin(), v.end());
  for (auto& x : v) d->names.push_back(x.second);
  in_directory_iterator();
  return reinterpret_cast<DIR*>(d);
}
SimDir* as_dir(DIR* d) { auto* s = reinterpret_cast<SimDir*>(d); return s && s->magic == kDirMagic ? s : nullptr; }
bool is_sim_fd(int fd) { return fd >= kFdBase && S; }

ssize_t ck_read(void* c, char* b, size_t n) { return sim_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); }
ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = sim_write(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); return r < 0 ? 0 : r; }
int ck_seek(void* c, off64_t* o, int w) { off_t r = sim_lseek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return sim_close(static_cast<int>(reinterpret_cast<intptr_t>(c))); }

FILE* make_file(int fd, const char* mode) {
  Quiet q;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
  if (!f) internal_error("fopencookie");
  S->files[f] = fd;
  return f;
}

long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) {
  long r = raw_syscall(n, a, b, c, d, e, 0);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
#define L(x) reinterpret_cast<long>(x)

}  // namespace

namespace sim {
namespace in {
void fs_init() {
  S = new State;
  add_node("/", true);
  add_node("/sim", true);
  add_node("/sim/work", true);
  add_node("/tmp", true);
  fs::io_error_reported = false;
}
}  // namespace in
namespace fs {
bool io_error_reported = false;
void reset() { Quiet q; delete S; fs_init(); }
void mkdirs(const std::string& path) {
  Quiet q;
  std::string p = norm_path(path.c_str());
  for (size_t i = 1; i != std::string::npos && i <= p.size();) {
    size_t j = p.find('/', i);
    std::string c = j == std::string::npos ? p : p.substr(0, j);
    if (!find(c)) add_node(c, true);
    if (j == std::string::npos) break;
    i = j + 1;
  }
}
void put(const std::string& path, const std::string& data) {
  Quiet q;
  std::string p = norm_path(path.c_str());
  mkdirs(parent(p));
  if (!find(p)) add_node(p, false);
  else change(p, 'f');
  find(p)->data = data;
}
bool get(const std::string& path, std::string* data) {
  Quiet q;
  auto n = find(norm_path(path.c_str()));
  if (!n || n->dir) return false;
  *data = n->data;
  return true;
}
bool exists(const std::string& path) { Quiet q; return find(norm_path(path.c_str())) != nullptr; }
bool is_dir(const std::string& path) { Quiet q; auto n = find(norm_path(path.c_str())); return n && n->dir; }
void remove(const std::string& path) {
  Quiet q;
  std::string p = norm_path(path.c_str()), pre = p + "/";
  for (auto it = S->tree.begin(); it != S->tree.end();) {
    if (it->first == p || it->first.compare(0, pre.size(), pre) == 0) { change(it->first, '-'); it = S->tree.erase(it); }
    else ++it;
  }
}
std::vector<std::string> list() {
  Quiet q;
  std::vector<std::string> v;
  for (auto& kv : S->tree) v.push_back(kv.first);
  return v;
}
int open_fds() { return static_cast<int>(S->fds.size()); }
void set_capacity(long b) { S->capacity = b; }
uint64_t syscalls() { return S->calls; }
void set_racer(std::function<void()> f) { Quiet q; S->racer = std::move(f); }
uint64_t version() { return S->ver; }
bool ever(const std::string& path, char kind, uint64_t from) {
  Quiet q;
  std::string p = norm_path(path.c_str());
  char k = '-';
  for (auto& c : S->log) {
    if (c.path != p) continue;
    if (c.ver > from) { if (k == kind) return true; }
    k = c.kind;
  }
  return k == kind;
}
std::vector<Mutation> mutations(uint64_t from) {
  Quiet q;
  std::vector<Mutation> v;
  std::map<std::string, char> kind;
  for (auto& c : S->log) {
    char& k = kind.emplace(c.path, '-').first->second;
    if (c.ver > from) v.push_back({c.path, k, c.kind, c.by});
    k = c.kind;
  }
  return v;
}
char kind_at(const std::string& path, uint64_t ver) {
  Quiet q;
  std::string p = norm_path(path.c_str());
  char k = '-';
  for (auto& c : S->log) { if (c.ver > ver) break; if (c.path == p) k = c.kind; }
  return k;
}
void set_stat_junk(bool on) { S->stat_junk = on; }
void set_env(const std::string& n, const std::string& v) { Quiet q; S->env[n] = v; }
void unset_env(const std::string& n) { Quiet q; S->env.erase(n); }
int errors_on(const std::string& path) { Quiet q; return S->errors[norm_path(path.c_str())]; }
std::string last_error_desc() { Quiet q; return S->last_err; }
void set_dir_salt(uint32_t s) { S->salt = s; }
}  // namespace fs
}  // namespace sim

extern "C" {
int stat(const char* p, struct stat* st) noexcept { return live() ? sim_stat(p, st, "stat") : static_cast<int>(raw(SYS_newfstatat, AT_FDCWD, L(p), L(st), 0)); }
int stat64(const char* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) noexcept { return live() ? sim_stat(p, st, "lstat") : static_cast<int>(raw(SYS_newfstatat, AT_FDCWD, L(p), L(st), AT_SYMLINK_NOFOLLOW)); }
int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat(int fd, struct stat* st) noexcept { return is_sim_fd(fd) ? sim_fstat(fd, st) : static_cast<int>(raw(SYS_newfstatat, fd, L(""), L(st), AT_EMPTY_PATH)); }
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int fstatat(int d, const char* p, struct stat* st, int fl) noexcept {
  if (!live()) return static_cast<int>(raw(SYS_newfstatat, d, L(p), L(st), fl));
  if (*p == 0) return sim_fstat(d, st);
  std::string full = p;
  { Quiet q; if (d != AT_FDCWD && p[0] != '/' && S->fds.count(d)) full = S->fds[d].path + "/" + p; }
  return sim_stat(full.c_str(), st, "fstatat");
}
int fstatat64(int d, const char* p, struct stat64* st, int fl) noexcept { return fstatat(d, p, reinterpret_cast<struct stat*>(st), fl); }
int access(const char* p, int m) noexcept { if (!live()) return static_cast<int>(raw(SYS_access, L(p), m)); struct stat st; return sim_stat(p, &st, "access"); }
int open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  return live() ? sim_open(p, fl) : static_cast<int>(raw(SYS_openat, AT_FDCWD, L(p), fl, mode));
}
int open64(const char* p, int fl, ...) { return open(p, fl, 0666); }
int openat(int d, const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!live()) return static_cast<int>(raw(SYS_openat, d, L(p), fl, mode));
  std::string full;
  { Quiet q; full = p; if (d != AT_FDCWD && p[0] != '/' && S->fds.count(d)) full = S->fds[d].path + "/" + p; }
  int r = sim_open(full.c_str(), fl);
  { Quiet q; std::string().swap(full); }
  return r;
}
int __openat_2(int d, const char* p, int fl) { return openat(d, p, fl, 0); }
int __open_2(const char* p, int fl) { return open(p, fl, 0); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { return is_sim_fd(fd) ? sim_close(fd) : static_cast<int>(raw(SYS_close, fd)); }
ssize_t read(int fd, void* b, size_t n) { return is_sim_fd(fd) ? sim_read(fd, b, n) : raw(SYS_read, fd, L(b), n); }
ssize_t write(int fd, const void* b, size_t n) {
  if (is_sim_fd(fd)) return sim_write(fd, b, n);
  if (live() && (fd == 1 || fd == 2)) { sync_point(K_IO, nullptr); return n; }  // console output of the code under test is dropped
  return raw(SYS_write, fd, L(b), n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!is_sim_fd(fd)) {
    if (live() && (fd == 1 || fd == 2)) { ssize_t t = 0; for (int i = 0; i < n; ++i) t += v[i].iov_len; return t; }
    return raw(SYS_writev, fd, L(v), n);
  }
  std::string all;
  { Quiet q; for (int i = 0; i < n; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
  ssize_t r = sim_write(fd, all.data(), all.size());
  { Quiet q; std::string().swap(all); }
  return r;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!is_sim_fd(fd)) return raw(SYS_pread64, fd, L(b), n, o);
  off_t keep = sim_lseek(fd, 0, SEEK_CUR);
  sim_lseek(fd, o, SEEK_SET);
  ssize_t r = sim_read(fd, b, n);
  sim_lseek(fd, keep, SEEK_SET);
  return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!is_sim_fd(fd)) return raw(SYS_pwrite64, fd, L(b), n, o);
  off_t keep = sim_lseek(fd, 0, SEEK_CUR);
  sim_lseek(fd, o, SEEK_SET);
  ssize_t r = sim_write(fd, b, n);
  sim_lseek(fd, keep, SEEK_SET);
  return r;
}
off_t lseek(int fd, off_t o, int w) noexcept { return is_sim_fd(fd) ? sim_lseek(fd, o, w) : raw(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fsync(int fd) {
  if (!is_sim_fd(fd)) return static_cast<int>(raw(SYS_fsync, fd));
  Site s;
  bool f = fault(F_EIO_WRITE);
  Quiet q;
  enter("fsync", S->fds.count(fd) ? S->fds[fd].path : "?");
  if (f) { note_error("fsync", S->fds[fd].path); return fail(EIO); }
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) noexcept { if (!is_sim_fd(fd)) return static_cast<int>(raw(SYS_ftruncate, fd, n)); Quiet q; S->fds[fd].n->data.resize(n); return 0; }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int ioctl(int fd, unsigned long r, ...) noexcept {
  va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap);
  if (!is_sim_fd(fd)) return static_cast<int>(raw(SYS_ioctl, fd, r, L(a)));
  if (r == FIONREAD) { Quiet q; Open& o = S->fds[fd]; *static_cast<int*>(a) = o.off < o.n->data.size() ? o.n->data.size() - o.off : 0; return 0; }
  return fail(ENOTTY);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && is_sim_fd(p[0].fd)) { p[0].revents = p[0].events; return 1; }
  return static_cast<int>(raw(SYS_poll, L(p), n, t));
}
int mkdir(const char* p, mode_t m) noexcept { return live() ? sim_mkdir(p) : static_cast<int>(raw(SYS_mkdir, L(p), m)); }
int rmdir(const char* p) noexcept { return live() ? sim_rm(p, true, false, "rmdir") : static_cast<int>(raw(SYS_rmdir, L(p))); }
int unlink(const char* p) noexcept { return live() ? sim_rm(p, false, true, "unlink") : static_cast<int>(raw(SYS_unlink, L(p))); }
int remove(const char* p) noexcept {
  if (live()) return sim_rm(p, true, true, "remove");
  int r = static_cast<int>(raw(SYS_unlink, L(p)));
  return r == 0 ? 0 : static_cast<int>(raw(SYS_rmdir, L(p)));
}
int unlinkat(int d, const char* p, int fl) noexcept { if (live()) return fl & AT_REMOVEDIR ? sim_rm(p, true, false, "rmdir") : sim_rm(p, false, true, "unlink"); return static_cast<int>(raw(SYS_unlinkat, d, L(p), fl)); }
int rename(const char* a, const char* b) noexcept {
  if (!live()) return static_cast<int>(raw(SYS_rename, L(a), L(b)));
  Site s;
  uint32_t v = 0;
  bool f = fault(F_MKDIR, 3, &v);
  Quiet q;
  maybe_race(s);
  std::string x = norm_path(a), y = norm_path(b);
  enter("rename", x + " -> " + y);
  if (f) { note_error("rename", x); static const int es[] = {EACCES, ENOSPC, EIO}; return fail(es[v]); }
  auto n = find(x);
  if (!n) return fail(ENOENT);
  int e = parent_error(y);
  if (e) return fail(e);
  auto m = find(y);
  if (m && m->dir && (!n->dir || has_children(y))) return fail(n->dir ? ENOTEMPTY : EISDIR);
  if (n->dir) return fail(ENOSYS);
  S->tree.erase(x);
  S->tree[y] = n;
  Acting acting;
  change(x, '-');
  change(y, 'f');
  return 0;
}
char* getcwd(char* b, size_t n) noexcept {
  if (!live()) {
    static char buf[4096];
    long r = raw(SYS_getcwd, L(b ? b : buf), b ? n : sizeof buf);
    if (r < 0) return nullptr;
    return b ? b : strdup(buf);
  }
  sync_point(K_IO, nullptr);
  bool f = fault(F_STAT);
  Quiet q;
  enter("getcwd", "");
  if (f) { note_error("getcwd", ""); errno = ENOENT; return nullptr; }
  if (!b) return strdup(S->cwd.c_str());
  if (S->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
  return strcpy(b, S->cwd.c_str());
}
int chdir(const char* p) noexcept { if (!live()) return static_cast<int>(raw(SYS_chdir, L(p))); Quiet q; std::string x = norm_path(p); auto n = find(x); if (!n) return fail(ENOENT); if (!n->dir) return fail(ENOTDIR); S->cwd = x; return 0; }
char* realpath(const char* p, char* out) noexcept {
  if (!live()) { static auto f = reinterpret_cast<char* (*)(const char*, char*)>(real_sym("realpath")); return f(p, out); }
  struct stat st;
  if (sim_stat(p, &st, "realpath")) return nullptr;
  Quiet q;
  std::string x = norm_path(p);
  return out ? strcpy(out, x.c_str()) : strdup(x.c_str());
}
int statvfs(const char* p, struct statvfs* v) noexcept { if (!live()) { static auto f = reinterpret_cast<int (*)(const char*, struct statvfs*)>(real_sym("statvfs")); return f(p, v); } return fail(ENOSYS); }
ssize_t readlink(const char* p, char* b, size_t n) noexcept { if (live()) return fail(EINVAL); return raw(SYS_readlink, L(p), L(b), n); }

DIR* opendir(const char* p) {
  if (!live()) { static auto f = reinterpret_cast<DIR* (*)(const char*)>(real_sym("opendir")); return f(p); }
  Site s;
  uint32_t v = 0;
  bool f = fault(F_READDIR, 3, &v);
  Quiet q;
  maybe_race(s);
  std::string x = norm_path(p);
  enter("opendir", x);
  if (x.empty()) { errno = ENOENT; return nullptr; }
  if (f) { note_error("opendir", x); static const int es[] = {EACCES, EMFILE, EIO}; errno = es[v]; return nullptr; }
  int e = parent_error(x);
  if (e) { errno = e; return nullptr; }
  auto n = find(x);
  if (!n) { errno = ENOENT; return nullptr; }
  if (!n->dir) { errno = ENOTDIR; return nullptr; }
  int fd = alloc_fd();
  Open o;
  o.n = n;
  o.path = x;
  S->fds[fd] = o;
  return make_dir(x, fd);
}
DIR* fdopendir(int fd) {
  if (!is_sim_fd(fd)) { static auto f = reinterpret_cast<DIR* (*)(int)>(real_sym("fdopendir")); return f(fd); }
  sync_point(K_IO, nullptr);
  bool f = fault(F_READDIR);
  Quiet q;
  auto it = S->fds.find(fd);
  if (it == S->fds.end()) { errno = EBADF; return nullptr; }
  enter("fdopendir", it->second.path);
  if (f) { note_error("fdopendir", it->second.path); errno = ENOMEM; return nullptr; }
  if (!it->second.n->dir) { errno = ENOTDIR; return nullptr; }
  return make_dir(it->second.path, fd);
}
struct dirent* readdir(DIR* d) {
  SimDir* s = as_dir(d);
  if (!s) { static auto f = reinterpret_cast<struct dirent* (*)(DIR*)>(real_sym("readdir")); return f(d); }
  Site site;
  bool f = fault(F_READDIR);
  Quiet q;
  maybe_race(site);
  enter("readdir", s->path);
  if (f) { note_error("readdir", s->path); errno = EIO; return nullptr; }
  if (s->pos >= s->names.size()) return nullptr;
  memset(&s->ent, 0, sizeof s->ent);
  snprintf(s->ent.d_name, sizeof s->ent.d_name, "%s", s->names[s->pos].first.c_str());
  s->ent.d_type = s->names[s->pos].second ? DT_DIR : DT_REG;
  s->ent.d_ino = 1 + s->pos;
  ++s->pos;
  in_directory_iterator();
  return &s->ent;
}
struct dirent64* readdir64(DIR* d) { return reinterpret_cast<struct dirent64*>(readdir(d)); }
int closedir(DIR* d) {
  SimDir* s = as_dir(d);
  if (!s) { static auto f = reinterpret_cast<int (*)(DIR*)>(real_sym("closedir")); return f(d); }
  Quiet q;
  enter("closedir", s->path);
  S->fds.erase(s->fd);
  s->magic = 0;
  delete s;
  return 0;
}
int dirfd(DIR* d) noexcept { SimDir* s = as_dir(d); if (!s) { static auto f = reinterpret_cast<int (*)(DIR*)>(real_sym("dirfd")); return f(d); } return s->fd; }

FILE* fopen(const char* p, const char* mode) {
  if (!live()) { static auto f = reinterpret_cast<FILE* (*)(const char*, const char*)>(real_sym("fopen")); return f(p, mode); }
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  int fd = sim_open(p, fl);
  if (fd < 0) return nullptr;
  return make_file(fd, mode);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
FILE* fdopen(int fd, const char* mode) noexcept {
  if (!is_sim_fd(fd)) { static auto f = reinterpret_cast<FILE* (*)(int, const char*)>(real_sym("fdopen")); return f(fd, mode); }
  return make_file(fd, mode);
}
int fileno(FILE* f) noexcept {
  if (S) { Quiet q; auto it = S->files.find(f); if (it != S->files.end()) return it->second; }
  static auto r = reinterpret_cast<int (*)(FILE*)>(real_sym("fileno"));
  return r(f);
}
int fclose(FILE* f) {
  if (S) { Quiet q; S->files.erase(f); }
  static auto r = reinterpret_cast<int (*)(FILE*)>(real_sym("fclose"));
  return r(f);
}

char* getenv(const char* n) noexcept {
  if (running && S) {
    Quiet q;
    auto it = S->env.find(n);
    return it == S->env.end() ? nullptr : const_cast<char*>(it->second.c_str());
  }
  size_t k = strlen(n);
  for (char** e = environ; e && *e; ++e) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
  return nullptr;
}
char* secure_getenv(const char* n) noexcept { return getenv(n); }
}  // extern "C"

// ------------------------------------------------------------------ dynamic linker
namespace {
struct DlLib { dl::Lib lib; int opens = 0, closes = 0; };
struct DlState {
  std::map<std::string, DlLib> libs;
  std::map<void*, std::string> handles;
  std::string err[kMaxTasks];
  bool has_err[kMaxTasks] = {};
  int bad_closes = 0;
  bool sym_after_close = false;
  uintptr_t next = 0x7000;
  std::function<void(const std::string&)> hook;
};
DlState* D() { static DlState* d = nullptr; if (!d) { Quiet q; d = new DlState; } return d; }
void dl_err(const std::string& s) { D()->err[current_task()] = s; D()->has_err[current_task()] = true; }
}  // namespace

namespace sim {
namespace dl {
void reset() { Quiet q; *D() = DlState(); }
void define(const std::string& p, const Lib& l) { Quiet q; D()->libs[p].lib = l; }
int open_count(const std::string& p) { Quiet q; auto& l = D()->libs[p]; return l.opens - l.closes; }
int opens(const std::string& p) { Quiet q; return D()->libs[p].opens; }
int closes(const std::string& p) { Quiet q; return D()->libs[p].closes; }
int bad_closes() { return D()->bad_closes; }
bool sym_after_close() { return D()->sym_after_close; }
void set_close_hook(std::function<void(const std::string&)> f) { Quiet q; D()->hook = std::move(f); }
}  // namespace dl
}  // namespace sim

extern "C" {
void* dlopen(const char* p, int fl) noexcept {
  if (!live()) { static auto f = reinterpret_cast<void* (*)(const char*, int)>(real_sym("dlopen")); return f(p, fl); }
  sync_point(K_IO, nullptr);
  tick(1000000);
  bool f = fault(F_DLOPEN);
  Quiet q;
  std::string x = p ? p : "";
  enter("dlopen", x);
  auto it = D()->libs.find(x);
  if (f || it == D()->libs.end()) { dl_err(x + ": cannot open shared object file"); return nullptr; }
  ++it->second.opens;
  // like the real linker: the same handle for the same library
  for (auto& h : D()->handles) if (h.second == x) return h.first;
  void* h = reinterpret_cast<void*>(D()->next += 16);
  D()->handles[h] = x;
  return h;
}
void* dlsym(void* h, const char* n) noexcept {
  if (!live()) {
    using F = void* (*)(void*, const char*);
    static F f = reinterpret_cast<F>(dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5"));
    return f(h, n);
  }
  sync_point(K_IO, nullptr);
  bool f = fault(F_DLSYM);
  Quiet q;
  auto it = D()->handles.find(h);
  enter("dlsym", it == D()->handles.end() ? std::string("(bad handle) ") + n : it->second + " " + n);
  if (it == D()->handles.end()) { D()->sym_after_close = true; dl_err("invalid handle"); return nullptr; }
  if (!f) for (auto& s : D()->libs[it->second].lib.symbols) if (s.first == n) return s.second;
  dl_err(std::string("undefined symbol: ") + n);
  return nullptr;
}
int dlclose(void* h) noexcept {
  if (!live()) {
    // destructors running in a quiet section still close simulated handles
    if (!(running && D()->handles.count(h))) { static auto f = reinterpret_cast<int (*)(void*)>(real_sym("dlclose")); return f(h); }
  } else {
    sync_point(K_IO, nullptr);
  }
  Quiet q;
  auto it = D()->handles.find(h);
  enter("dlclose", it == D()->handles.end() ? "(bad handle)" : it->second);
  if (it == D()->handles.end()) { ++D()->bad_closes; dl_err("invalid handle"); return -1; }
  std::string p = it->second;
  auto& l = D()->libs[p];
  ++l.closes;
  if (l.opens == l.closes) { D()->handles.erase(it); }
  if (D()->hook) D()->hook(p);
  return 0;
}
char* dlerror(void) noexcept {
  if (!live()) { static auto f = reinterpret_cast<char* (*)(void)>(real_sym("dlerror")); return f(); }
  Quiet q;
  int t = current_task();
  if (!D()->has_err[t]) return nullptr;
  D()->has_err[t] = false;
  return const_cast<char*>(D()->err[t].c_str());
}
}  // extern "C"
