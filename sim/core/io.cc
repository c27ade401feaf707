// The storage seam: libc's file calls, interposed in the harness executable.
// Paths under /sim/ live in a simulated file system (shared memory, so it
// survives simulated process deaths); everything else goes to the kernel.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <string>
#include <vector>

#include "internal.h"

namespace sim {
static char* g_arena = nullptr;
void MapShared() {
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_arena = static_cast<char*>(mmap(nullptr, kArenaCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
void ArenaReset() {
  if (sh->arena_pos > (64 << 20)) madvise(g_arena, kArenaCap, MADV_REMOVE);
  sh->arena_pos = 0;
}
char* ArenaAlloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (sh->arena_pos + n > kArenaCap) ArenaFull();
  char* p = g_arena + sh->arena_pos;
  sh->arena_pos += n;
  return p;
}

static const char kPrefix[] = "/sim/";
static bool IsSim(const char* p) { return p && sh && (!strncmp(p, kPrefix, 5) || !strcmp(p, "/sim")); }
static std::string Norm(const char* p) {
  std::string s = p, r;
  for (char c : s) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c;
  size_t k;
  while ((k = r.find("/./")) != std::string::npos) r.erase(k, 2);
  while (r.size() > 1 && r.back() == '/') r.pop_back();
  return r;
}
static SimFile* Lookup(const std::string& p) {
  for (auto& f : sh->files) if (f.used && p == f.name) return &f;
  return nullptr;
}
static SimFile* Create(const std::string& p, bool dir) {
  for (auto& f : sh->files)
    if (!f.used) {
      uint32_t g = f.gen; memset(&f, 0, sizeof f); f.gen = g + 1;
      f.used = true; f.dir = dir; strncpy(f.name, p.c_str(), sizeof f.name - 1);
      return &f;
    }
  Skip("too many simulated files");
}
static bool ParentOk(const std::string& p) {
  size_t k = p.rfind('/');
  std::string d = p.substr(0, k);
  if (d == "/sim" || d.empty()) return true;
  SimFile* f = Lookup(d);
  return f && f->dir;
}
static void Reserve(SimFile* f, uint64_t n) {
  if (n <= f->cap && !f->ro) return;
  uint64_t cap = std::max<uint64_t>(n, std::max<uint64_t>(f->cap * 2, 256));
  char* d = ArenaAlloc(cap);
  if (f->size) memcpy(d, f->data, std::min(f->size, cap));
  f->data = d; f->cap = cap; f->ro = false;
}
uint64_t DiskUsed() { uint64_t n = 0; for (auto& f : sh->files) if (f.used) n += f.size; return n; }
bool Disk::Exists(const std::string& p) { return Lookup(Norm(p.c_str())) != nullptr; }
std::string Disk::Read(const std::string& p) { SimFile* f = Lookup(Norm(p.c_str())); return f ? std::string(f->data ? f->data : "", f->size) : std::string(); }
void Disk::Write(const std::string& p, const std::string& d) {
  SimFile* f = Lookup(p); if (!f) f = Create(p, false);
  if (f->ro) { f->ro = false; f->cap = 0; f->size = 0; }
  f->size = 0; Reserve(f, d.size()); if (!d.empty()) memcpy(f->data, d.data(), d.size()); f->size = d.size();
}
void Disk::WriteConst(const std::string& p, const char* d, size_t n) {
  SimFile* f = Lookup(p); if (!f) f = Create(p, false);
  f->data = const_cast<char*>(d); f->size = n; f->cap = n; f->ro = true;
}
void Disk::Remove(const std::string& p) { SimFile* f = Lookup(p); if (f) { f->used = false; f->gen++; } }
void Disk::Mkdir(const std::string& p) { if (!Lookup(p)) Create(p, true); }
std::vector<std::string> Disk::List() { std::vector<std::string> r; for (auto& f : sh->files) if (f.used) r.push_back(f.name); std::sort(r.begin(), r.end()); return r; }

// ---- fault decisions -------------------------------------------------------
static bool Covered(const char* path) { return sh->plan.filter[0] && !strncmp(path, sh->plan.filter, strlen(sh->plan.filter)); }
static bool Inject(FaultKind k, const char* path) {
  uint32_t d = sh->plan.den[k];
  if (!d || !Covered(path)) return false;
  if (FaultsFired() >= sh->plan.max_faults) return false;
  // 1/d, and even at d = 1 sometimes not, so that a run gets past its first operation.
  bool hit = d == 1 ? Flip(7, 8, kFaultNames[k]) : Flip(1, d, kFaultNames[k]);
  if (hit) { sh->fired[k]++; Note("FAULT %s %s", kFaultNames[k], path); }
  return hit;
}
static void (*g_poller)() = nullptr;
static uint64_t g_poll_gap = 0, g_poll_in = 0;
static bool g_polling = false;
static void PollPoint() {
  if (!g_poller || g_polling || --g_poll_in) return;
  g_polling = true;
  g_poller();
  g_poll_in = Skewed(g_poll_gap, "poll-gap");
  Count("poll.preemptions");
  g_polling = false;
}
void SetPoller(void (*fn)(), uint64_t max_gap) {
  g_poller = nullptr; g_poll_gap = max_gap;
  if (fn) g_poll_in = Skewed(max_gap, "poll-gap");
  g_poller = fn;
}
static void Step(const char* op, const char* path, uint64_t a, uint64_t b) {
  sh->io_steps++;
  sh->now_ns += 2000;
  Note("io %s %s %lu %lu", op, path, (unsigned long)a, (unsigned long)b);
  if (Inject(kSlowIo, path)) sh->now_ns += 1000000ull * (1 + Choose(1000, "slow-ms"));
  if (Inject(kCrash, path)) CrashNow();
  PollPoint();
}

struct Fd { bool used = false; int file; uint32_t gen; uint64_t pos; int flags; char path[200]; };
constexpr int kFdBase = 1000, kFdMax = 64;
static Fd g_fds[kFdMax];
static Fd* GetFd(int fd) { return fd >= kFdBase && fd < kFdBase + kFdMax && g_fds[fd - kFdBase].used ? &g_fds[fd - kFdBase] : nullptr; }
static bool IsSimFd(int fd) { return fd >= kFdBase && fd < kFdBase + kFdMax; }
static SimFile* FileOf(Fd* f) { return &sh->files[f->file]; }

static int SimOpen(const char* rawpath, int flags) {
  std::string p = Norm(rawpath);
  Step("open", p.c_str(), flags & 0xfff, 0);
  if (Inject(kVanish, p.c_str())) { Disk::Remove(p); }
  if (Inject(kOpenFail, p.c_str())) { errno = Choose(2, "open-errno") ? EACCES : EMFILE; return -1; }
  SimFile* f = Lookup(p);
  if (!f) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (!ParentOk(p)) { errno = ENOENT; return -1; }
    f = Create(p, false);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (f->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { f->size = 0; if (f->ro) { f->ro = false; f->cap = 0; f->data = nullptr; } }
  }
  for (int i = 0; i < kFdMax; ++i)
    if (!g_fds[i].used) {
      g_fds[i] = Fd(); g_fds[i].used = true; g_fds[i].file = f - sh->files; g_fds[i].gen = f->gen; g_fds[i].pos = 0; g_fds[i].flags = flags;
      strncpy(g_fds[i].path, p.c_str(), sizeof g_fds[i].path - 1);
      return kFdBase + i;
    }
  errno = EMFILE;
  return -1;
}
static ssize_t SimPread(Fd* d, void* buf, size_t n, uint64_t off, const char* op) {
  SimFile* f = FileOf(d);
  Step(op, d->path, n, off);
  if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (f->dir) { errno = EISDIR; return -1; }
  if (Inject(kReadEio, d->path)) { errno = EIO; return -1; }
  if (off >= f->size) return 0;
  size_t k = std::min<uint64_t>(n, f->size - off);
  if (k > 1 && Inject(kShortRead, d->path)) k = 1 + Choose(k - 1, "short-read-len");
  memcpy(buf, f->data + off, k);
  return k;
}
static ssize_t SimPwrite(Fd* d, const void* buf, size_t n, uint64_t off) {
  SimFile* f = FileOf(d);
  sh->io_steps++; sh->now_ns += 2000;
  Note("io write %s %lu %lu", d->path, (unsigned long)n, (unsigned long)off);
  HashBytes(buf, n);
  if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (Inject(kSlowIo, d->path)) sh->now_ns += 1000000ull * (1 + Choose(1000, "slow-ms"));
  if (Inject(kWriteEio, d->path)) { errno = EIO; return -1; }
  if (Inject(kWriteEnospc, d->path)) { errno = ENOSPC; return -1; }
  size_t k = n;
  bool crash = Inject(kCrash, d->path);
  if (crash) k = Choose(n + 1, "torn-len");
  else if (k > 1 && Inject(kShortWrite, d->path)) k = 1 + Choose(k - 1, "short-write-len");
  uint64_t grow = off + k > f->size ? off + k - f->size : 0;
  if (grow && sh->plan.disk_capacity != UINT64_MAX && Covered(d->path)) {
    uint64_t used = DiskUsed();
    uint64_t room = used < sh->plan.disk_capacity ? sh->plan.disk_capacity - used : 0;
    if (grow > room) {
      sh->fired[kDiskFull]++;
      Note("FAULT disk_full %s", d->path);
      k -= grow - room;
      if (k == 0 && !crash) { errno = ENOSPC; return -1; }
    }
  }
  if (k) {
    Reserve(f, off + k);
    if (off > f->size) memset(f->data + f->size, 0, off - f->size);
    memcpy(f->data + off, buf, k);
    f->size = std::max<uint64_t>(f->size, off + k);
  }
  if (crash) CrashNow();
  return k;
}
static ssize_t SimRead(int fd, void* b, size_t n) {
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  ssize_t r = SimPread(d, b, n, d->pos, "read"); if (r > 0) d->pos += r; return r;
}
static ssize_t SimWrite(int fd, const void* b, size_t n) {
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  if (d->flags & O_APPEND) d->pos = FileOf(d)->size;
  ssize_t r = SimPwrite(d, b, n, d->pos); if (r > 0) d->pos += r; return r;
}
static off64_t SimSeek(int fd, off64_t off, int wh) {
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  if (Inject(kSeekFail, d->path)) { errno = EIO; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)d->pos : (int64_t)FileOf(d)->size;
  if (base + off < 0) { errno = EINVAL; return -1; }
  return d->pos = base + off;
}
static int SimClose(int fd) {
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  Step("close", d->path, d->pos, 0);
  bool wr = (d->flags & O_ACCMODE) != O_RDONLY;
  std::string path = d->path;
  d->used = false;
  if (wr && Inject(kCloseEio, path.c_str())) { errno = EIO; return -1; }
  return 0;
}
// What a process left open is closed for it when it ends, and nobody hears of
// an error: the tail of the file is lost.
void CloseLeftOpen() {
  for (auto& d : g_fds) {
    if (!d.used || (d.flags & O_ACCMODE) == O_RDONLY) continue;
    SimFile* f = &sh->files[d.file];
    if (!f->used || f->gen != d.gen || f->dir || !f->size) continue;
    if (Inject(kCloseEio, d.path)) { f->size = Choose(f->size, "lost-tail"); Count("fault.lost_tail"); }
  }
}
static void FillStat(SimFile* f, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 777; st->st_ino = 1000 + (f - sh->files); st->st_nlink = 1;
  st->st_mode = f->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = f->size; st->st_blksize = 4096; st->st_blocks = (f->size + 511) / 512;
  st->st_mtime = 1700000000;
}
static int SimStat(const char* path, struct stat* st) {
  std::string p = Norm(path);
  Step("stat", p.c_str(), 0, 0);
  if (Inject(kStatFail, p.c_str())) { errno = EIO; return -1; }
  if (p == "/sim") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_ino = 1; return 0; }
  SimFile* f = Lookup(p);
  if (!f) { errno = ENOENT; return -1; }
  FillStat(f, st);
  return 0;
}
static int SimFstat(int fd, struct stat* st) {
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  Step("fstat", d->path, 0, 0);
  if (Inject(kStatFail, d->path)) { errno = EIO; return -1; }
  FillStat(FileOf(d), st);
  return 0;
}

// ---- stdio -----------------------------------------------------------------
// glibc's own FILE machinery over the simulated descriptors.
static std::map<FILE*, int>& Files() { static auto* m = new std::map<FILE*, int>; return *m; }
struct Cookie { int fd; FILE* f; };
static ssize_t CkRead(void* c, char* b, size_t n) { return SimRead(static_cast<Cookie*>(c)->fd, b, n); }
static ssize_t CkWrite(void* c, const char* b, size_t n) {
  // As _IO_new_file_write: keep writing until done or an error.
  size_t o = 0;
  while (o < n) { ssize_t r = SimWrite(static_cast<Cookie*>(c)->fd, b + o, n - o); if (r < 0) return o; o += r; }
  return o;
}
static int CkSeek(void* c, off64_t* off, int wh) {
  off64_t r = SimSeek(static_cast<Cookie*>(c)->fd, *off, wh);
  if (r < 0) return -1;
  *off = r; return 0;
}
static int CkClose(void* c) { Cookie* k = static_cast<Cookie*>(c); int fd = k->fd; Files().erase(k->f); delete k; return SimClose(fd); }
static int ModeFlags(const char* m) {
  bool plus = strchr(m, '+'), x = strchr(m, 'x');
  int f = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : m[0] == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
  return f | (x ? O_EXCL : 0);
}
static FILE* CookieOpen(int fd, const char* mode) {
  Cookie* c = new Cookie{fd, nullptr};
  cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
  FILE* f = fopencookie(c, mode, io);
  c->f = f; Files()[f] = fd;
  return f;
}
static FILE* SimFopen(const char* path, const char* mode) {
  int fd = SimOpen(path, ModeFlags(mode));
  return fd < 0 ? nullptr : CookieOpen(fd, mode);
}
template <typename F> static F Next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static long Ret(long r) { return r; }
}  // namespace sim

using namespace sim;
extern "C" {
int open(const char* p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (IsSim(p)) return SimOpen(p, flags);
  return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open64(const char* p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (IsSim(p)) return SimOpen(p, flags);
  return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int openat(int d, const char* p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (IsSim(p)) return SimOpen(p, flags);
  return syscall(SYS_openat, d, p, flags, m);
}
int openat64(int d, const char* p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (IsSim(p)) return SimOpen(p, flags);
  return syscall(SYS_openat, d, p, flags, m);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n) {
  if (!IsSimFd(fd)) return syscall(SYS_read, fd, b, n);
  if (Fd* d = GetFd(fd); d && Inject(kInterrupt, d->path)) { errno = EINTR; return -1; }
  return SimRead(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) { return IsSimFd(fd) ? SimWrite(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!IsSimFd(fd)) return syscall(SYS_pread64, fd, b, n, o);
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  if (o < 0) { errno = EINVAL; return -1; }
  if (Inject(kInterrupt, d->path)) { errno = EINTR; return -1; }
  return SimPread(d, b, n, o, "pread");
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!IsSimFd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  return SimPwrite(d, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!IsSimFd(fd)) return syscall(SYS_readv, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) { ssize_t r = SimRead(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!IsSimFd(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) { ssize_t r = SimWrite(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
off_t lseek(int fd, off_t o, int w) noexcept { return IsSimFd(fd) ? SimSeek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { return IsSimFd(fd) ? SimClose(fd) : syscall(SYS_close, fd); }
int fsync(int fd) { return IsSimFd(fd) ? 0 : syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return IsSimFd(fd) ? 0 : syscall(SYS_fdatasync, fd); }
int fstat(int fd, struct stat* st) noexcept { return IsSimFd(fd) ? SimFstat(fd, st) : syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int stat(const char* p, struct stat* st) noexcept { return IsSim(p) ? SimStat(p, st) : syscall(SYS_stat, p, st); }
int stat64(const char* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) noexcept { return IsSim(p) ? SimStat(p, st) : syscall(SYS_lstat, p, st); }
int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstatat(int d, const char* p, struct stat* st, int f) noexcept { return IsSim(p) ? SimStat(p, st) : syscall(SYS_newfstatat, d, p, st, f); }
int fstatat64(int d, const char* p, struct stat64* st, int f) noexcept { return fstatat(d, p, reinterpret_cast<struct stat*>(st), f); }
int access(const char* p, int m) noexcept {
  if (!IsSim(p)) return syscall(SYS_access, p, m);
  struct stat st; return SimStat(p, &st);
}
int unlink(const char* p) noexcept {
  if (!IsSim(p)) return syscall(SYS_unlink, p);
  std::string n = Norm(p); Step("unlink", n.c_str(), 0, 0);
  SimFile* f = Lookup(n); if (!f) { errno = ENOENT; return -1; }
  f->used = false; f->gen++; return 0;
}
int remove(const char* p) noexcept { return unlink(p); }
int rename(const char* a, const char* b) noexcept {
  if (!IsSim(a) || !IsSim(b)) return syscall(SYS_rename, a, b);
  std::string x = Norm(a), y = Norm(b); Step("rename", y.c_str(), 0, 0);
  SimFile* f = Lookup(x); if (!f) { errno = ENOENT; return -1; }
  if (x == y) return 0;
  if (Inject(kOpenFail, y.c_str())) { errno = EACCES; return -1; }
  SimFile* g = Lookup(y); if (g) { g->used = false; g->gen++; }
  memset(f->name, 0, sizeof f->name); strncpy(f->name, y.c_str(), sizeof f->name - 1); return 0;
}
int mkdir(const char* p, mode_t m) noexcept {
  if (!IsSim(p)) return syscall(SYS_mkdir, p, m);
  std::string n = Norm(p); Step("mkdir", n.c_str(), 0, 0);
  if (Inject(kOpenFail, n.c_str())) { errno = EACCES; return -1; }
  if (Lookup(n) || n == "/sim") { errno = EEXIST; return -1; }
  if (!ParentOk(n)) { errno = ENOENT; return -1; }
  Create(n, true); return 0;
}
int ftruncate(int fd, off_t n) noexcept {
  if (!IsSimFd(fd)) return syscall(SYS_ftruncate, fd, n);
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; }
  SimFile* f = FileOf(d); Step("ftruncate", d->path, n, 0);
  Reserve(f, n); if ((uint64_t)n > f->size) memset(f->data + f->size, 0, n - f->size); f->size = n; return 0;
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
  if (!IsSimFd(fd) || (flags & MAP_ANONYMOUS)) return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
  Fd* d = GetFd(fd); if (!d) { errno = EBADF; return MAP_FAILED; }
  Step("mmap", d->path, n, off);
  if (n == 0 || off % 4096) { errno = EINVAL; return MAP_FAILED; }
  if (Inject(kMmapFail, d->path)) { errno = ENOMEM; return MAP_FAILED; }
  char* p = reinterpret_cast<char*>(syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (p == MAP_FAILED) return p;
  SimFile* f = FileOf(d);
  if ((uint64_t)off < f->size) memcpy(p, f->data + off, std::min<uint64_t>(n, f->size - off));
  // Pages past the end of the file fault.
  uint64_t ok = (uint64_t)off < f->size ? (f->size - off + 4095) / 4096 * 4096 : 0;
  if (ok < n) syscall(SYS_mprotect, p + ok, n - ok, PROT_NONE);
  return p;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) noexcept { return mmap(a, n, prot, flags, fd, off); }
int isatty(int fd) noexcept { if (IsSimFd(fd)) { errno = ENOTTY; return 0; } static auto f = Next<int (*)(int)>("isatty"); return f(fd); }
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* x = va_arg(ap, void*); va_end(ap);
  if (IsSimFd(fd)) { Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; } return cmd == F_GETFL ? d->flags : 0; }
  return syscall(SYS_fcntl, fd, cmd, x);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* x = va_arg(ap, void*); va_end(ap);
  if (IsSimFd(fd)) { Fd* d = GetFd(fd); if (!d) { errno = EBADF; return -1; } return cmd == F_GETFL ? d->flags : 0; }
  return syscall(SYS_fcntl, fd, cmd, x);
}
int fstatfs(int fd, struct statfs* s) noexcept {
  if (!IsSimFd(fd)) return syscall(SYS_fstatfs, fd, s);
  memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; return 0;
}
char* realpath(const char* p, char* out) noexcept {
  if (!IsSim(p)) { static auto f = Next<char* (*)(const char*, char*)>("realpath"); return f(p, out); }
  std::string n = Norm(p);
  if (!Lookup(n)) { errno = ENOENT; return nullptr; }
  if (!out) out = static_cast<char*>(malloc(4096));
  strcpy(out, n.c_str()); return out;
}
ssize_t readlink(const char* p, char* b, size_t n) noexcept {
  if (!IsSim(p)) return syscall(SYS_readlink, p, b, n);
  errno = EINVAL; return -1;
}
FILE* fopen(const char* p, const char* m) {
  if (IsSim(p)) return SimFopen(p, m);
  static auto f = Next<FILE* (*)(const char*, const char*)>("fopen"); return f(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (IsSim(p)) return SimFopen(p, m);
  static auto f = Next<FILE* (*)(const char*, const char*)>("fopen64"); return f(p, m);
}
FILE* fdopen(int fd, const char* m) noexcept {
  if (IsSimFd(fd)) return CookieOpen(fd, m);
  static auto f = Next<FILE* (*)(int, const char*)>("fdopen"); return f(fd, m);
}
int fileno(FILE* f) noexcept {
  auto it = Files().find(f); if (it != Files().end()) return it->second;
  static auto g = Next<int (*)(FILE*)>("fileno"); return g(f);
}
// ---- clock, identity -------------------------------------------------------
time_t time(time_t* t) noexcept { time_t v = sh ? sh->now_ns / 1000000000ull : 1700000000; if (t) *t = v; return v; }
int clock_gettime(clockid_t, struct timespec* ts) noexcept {
  uint64_t n = sh ? sh->now_ns : 0; ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { uint64_t n = sh ? sh->now_ns : 0; tv->tv_sec = n / 1000000000ull; tv->tv_usec = n / 1000 % 1000000; return 0; }
pid_t getpid() noexcept { return 4242; }
ssize_t getrandom(void* b, size_t n, unsigned) { memset(b, 0x5a, n); return n; }
int getentropy(void* b, size_t n) { memset(b, 0x5a, n); return 0; }
// ---- process end -----------------------------------------------------------
void exit(int c) noexcept { SimExit(c); }
void _exit(int c) { SimExit(c); }
void quick_exit(int c) noexcept { SimExit(c); }
void abort() noexcept { Die("abort()"); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept { Die(Str("assertion %s failed at %s:%u", e, f, l)); }
}

// ---- address-order seam ----------------------------------------------------
// Mode 1: the relative address order of small objects is drawn from the seed
// (two bump arenas growing in opposite directions), never reused.
static constexpr size_t kBump = size_t(256) << 20;
static char *g_base = nullptr, *g_up = nullptr, *g_down = nullptr;
static uint64_t g_allocs = 0;
extern "C" void sim_init_allocator() {
  g_base = reinterpret_cast<char*>(syscall(SYS_mmap, nullptr, 2 * kBump, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_up = g_down = g_base + kBump;
}
static void* Alloc(size_t n) {
  sim::PollPoint();
  if (sim::g_alloc_mode && n <= 4096 && g_base) {
    n = (n + 15) & ~size_t(15);
    bool up = sim::Mix(sim::g_alloc_seed, ++g_allocs) & 1;
    if (up && g_up + n < g_base + 2 * kBump) { void* p = g_up; g_up += n; return p; }
    if (!up && g_down - n > g_base) { g_down -= n; return g_down; }
  }
  return malloc(n ? n : 1);
}
static void Free(void* p) { if (p && !(p >= g_base && p < g_base + 2 * kBump)) free(p); }
void* operator new(size_t n) { void* p = Alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = Alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Free(p); }
