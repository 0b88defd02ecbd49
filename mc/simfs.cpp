#include "simfs.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void mc_quiet(int) __attribute__((weak)); // memory accesses of the simulation itself aren't the program's

namespace simfs {
struct Guard { Guard() { if (mc_quiet) mc_quiet(1); } ~Guard() { if (mc_quiet) mc_quiet(-1); } };
World* world = nullptr;
bool simulate_paths = true;
const char* name(Op o)
{
  static const char* n[] = {"open", "close", "dup", "read", "write", "pread", "pwrite", "fstat", "ftruncate", "lseek", "fchmod", "futimens", "other"};
  return n[(int)o];
}
std::string describe(const Call& c)
{
  char b[256];
  snprintf(b, sizeof b, "%s(fd %d%s%s, %lld bytes at %lld) = %lld%s%s", name(c.op), c.fd, c.path.empty() ? "" : " ", c.path.c_str(), (long long)c.total,
           (long long)c.offset, (long long)c.result, c.err ? " " : "", c.err ? strerrorname_np(c.err) : "");
  return b;
}
World::~World()
{
  for (auto* i : inodes) delete i;
  for (auto* o : ofds) delete o;
}
Inode* World::create(const std::string& path, const std::string& text)
{
  auto* i = new Inode; i->id = (int)inodes.size(); i->set(text); inodes.push_back(i);
  if (!path.empty()) names[path] = i;
  return i;
}
static bool mine(int fd) { return world && fd >= BASE && fd < BASE + MAXFD; }
static Ofd* get(int fd) { return mine(fd) ? world->fds[fd - BASE] : nullptr; }
static int lowest()
{
  for (int i = 0; i < world->nofile; ++i) if (!world->fds[i]) return i;
  return -1;
}
static long enter(Call& c)
{
  if (world->before) world->before(c);
  c.ofd = get(c.fd);
  if (c.ofd) { c.ofd_id = c.ofd->id; c.inode_id = c.ofd->inode->id; }
  if (world->policy) world->policy(c);
  return 0;
}
static long leave(Call& c, long r, int e)
{
  c.result = r; c.err = r < 0 ? e : 0;
  Call copy = c; copy.ofd = nullptr; copy.iov = nullptr;
  world->log.push_back(copy);
  if (world->after) world->after(c);
  if (r < 0) { errno = e; return -1; }
  return r;
}
static long do_io(int fd, const iovec* iov, int n, int64_t off, Op op)
{
  Guard g; Call c; c.op = op; c.fd = fd; c.iov = iov; c.iovcnt = n; c.offset = off;
  if (n < 0 || n > 1024) return leave(c, -1, EINVAL);
  for (int i = 0; i < n; ++i) c.total += (int64_t)iov[i].iov_len;
  enter(c);
  c.at = op == Op::pread || op == Op::pwrite ? off : c.ofd ? c.ofd->pos : -1;
  if (!c.ofd) return leave(c, -1, EBADF);
  if (c.force_errno) return leave(c, -1, c.force_errno);
  bool wr = c.write_like(), pos = op == Op::pread || op == Op::pwrite;
  int acc = c.ofd->flags & O_ACCMODE;
  if (wr ? acc == O_RDONLY : acc == O_WRONLY) return leave(c, -1, EBADF);
  if (pos && off < 0) return leave(c, -1, EINVAL);
  int64_t at = pos ? off : c.ofd->pos, left = c.total, done = 0;
  c.at = at;
  if (c.limit >= 0 && c.limit < left) left = c.limit;
  Inode* ino = c.ofd->inode;
  if (!wr) { int64_t av = ino->size > at ? ino->size - at : 0; if (av < left) left = av; }
  for (int i = 0; i < n && left > 0; ++i) {
    unsigned char* p = (unsigned char*)iov[i].iov_base;
    for (size_t k = 0; k < iov[i].iov_len && left > 0; ++k, --left, ++done) {
      if (wr) ino->bytes[at + done] = p[k];
      else { auto it = ino->bytes.find(at + done); p[k] = it == ino->bytes.end() ? 0 : it->second; }
    }
  }
  if (wr && done && at + done > ino->size) ino->size = at + done;
  if (!pos) c.ofd->pos += done;
  return leave(c, done, 0);
}
static int do_open(const char* path, int flags, mode_t mode)
{
  Guard g; Call c; c.op = Op::open; c.path = path; c.flags = flags; c.mode = (int)mode;
  enter(c);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  // as the kernel does (fs/open.c): O_TMPFILE is only accepted without O_CREAT, and these files don't support it
  if ((flags & O_TMPFILE) == O_TMPFILE) return (int)leave(c, -1, flags & O_CREAT ? EINVAL : EOPNOTSUPP);
  if (flags & (O_TMPFILE & ~O_DIRECTORY)) return (int)leave(c, -1, EINVAL);
  auto it = world->names.find(path);
  Inode* ino = it == world->names.end() ? nullptr : it->second;
  if (!ino && !(flags & O_CREAT)) return (int)leave(c, -1, ENOENT);
  if (ino && (flags & O_CREAT) && (flags & O_EXCL)) return (int)leave(c, -1, EEXIST);
  int k = lowest();
  if (k < 0) return (int)leave(c, -1, EMFILE);
  if (!ino) {
    ino = world->create(path, "");
    mode_t um = umask(0); umask(um);
    ino->mode = S_IFREG | (mode & 07777 & ~um);
  } else if (flags & O_TRUNC) { ino->bytes.clear(); ino->size = 0; }
  auto* o = new Ofd; o->id = (int)world->ofds.size(); world->ofds.push_back(o);
  o->inode = ino; o->flags = flags; o->refs = 1;
  world->fds[k] = o; world->cloexec[k] = flags & O_CLOEXEC;
  c.ofd = o; c.ofd_id = o->id; c.inode_id = ino->id; c.fd = BASE + k;
  return (int)leave(c, BASE + k, 0);
}
static int do_dup(int fd, bool cloexec)
{
  Guard g; Call c; c.op = Op::dup; c.fd = fd;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  int k = lowest();
  if (k < 0) return (int)leave(c, -1, EMFILE);
  world->fds[k] = c.ofd; world->cloexec[k] = cloexec; c.ofd->refs++;
  return (int)leave(c, BASE + k, 0);
}
}
using namespace simfs;

static bool simpath(const char* p) { return world && simulate_paths && p && !strncmp(p, "/sim/", 5); }
extern "C" {
static int real_open(const char* p, int flags, mode_t mode) { return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode); }
#define VMODE mode_t mode = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char* p, int flags, ...) { VMODE return simpath(p) ? do_open(p, flags, mode) : real_open(p, flags, mode); }
int open64(const char* p, int flags, ...) { VMODE return simpath(p) ? do_open(p, flags, mode) : real_open(p, flags, mode); }
int openat(int d, const char* p, int flags, ...) { VMODE return simpath(p) ? do_open(p, flags, mode) : (int)syscall(SYS_openat, d, p, flags, mode); }
int openat64(int d, const char* p, int flags, ...) { VMODE return simpath(p) ? do_open(p, flags, mode) : (int)syscall(SYS_openat, d, p, flags, mode); }
int creat(const char* p, mode_t mode) { int f = O_CREAT | O_WRONLY | O_TRUNC; return simpath(p) ? do_open(p, f, mode) : real_open(p, f, mode); }
int close(int fd)
{
  if (!mine(fd)) return (int)syscall(SYS_close, fd);
  Guard g; Call c; c.op = Op::close; c.fd = fd;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (!c.force_errno || c.effect) { c.ofd->refs--; world->fds[fd - BASE] = nullptr; }
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  return (int)leave(c, 0, 0);
}
int dup(int fd) { return mine(fd) ? do_dup(fd, false) : (int)syscall(SYS_dup, fd); }
int fcntl64(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!mine(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return do_dup(fd, cmd == F_DUPFD_CLOEXEC);
  Ofd* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  if (cmd == F_GETFD) return world->cloexec[fd - BASE] ? FD_CLOEXEC : 0;
  if (cmd == F_SETFD) { world->cloexec[fd - BASE] = arg & FD_CLOEXEC; return 0; }
  if (cmd == F_GETFL) return o->flags & ~(O_CREAT | O_EXCL | O_TRUNC | O_CLOEXEC);
  errno = EINVAL; return -1;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl64(fd, cmd, arg); }
#define IO1(fd, p, n, off, op) iovec v{(void*)p, n}; return do_io(fd, &v, 1, off, op)
ssize_t read(int fd, void* p, size_t n) { if (!mine(fd)) return syscall(SYS_read, fd, p, n); IO1(fd, p, n, 0, Op::read); }
ssize_t write(int fd, const void* p, size_t n) { if (!mine(fd)) return syscall(SYS_write, fd, p, n); IO1(fd, p, n, 0, Op::write); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { if (!mine(fd)) return syscall(SYS_pread64, fd, p, n, o); IO1(fd, p, n, o, Op::pread); }
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { if (!mine(fd)) return syscall(SYS_pread64, fd, p, n, o); IO1(fd, p, n, o, Op::pread); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { if (!mine(fd)) return syscall(SYS_pwrite64, fd, p, n, o); IO1(fd, p, n, o, Op::pwrite); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { if (!mine(fd)) return syscall(SYS_pwrite64, fd, p, n, o); IO1(fd, p, n, o, Op::pwrite); }
ssize_t readv(int fd, const iovec* v, int n) { return mine(fd) ? do_io(fd, v, n, 0, Op::read) : syscall(SYS_readv, fd, v, n); }
ssize_t writev(int fd, const iovec* v, int n) { return mine(fd) ? do_io(fd, v, n, 0, Op::write) : syscall(SYS_writev, fd, v, n); }
ssize_t preadv(int fd, const iovec* v, int n, off_t o) { return mine(fd) ? do_io(fd, v, n, o, Op::pread) : syscall(SYS_preadv, fd, v, n, o, o >> 32); }
ssize_t preadv64(int fd, const iovec* v, int n, off64_t o) { return mine(fd) ? do_io(fd, v, n, o, Op::pread) : syscall(SYS_preadv, fd, v, n, o, o >> 32); }
ssize_t pwritev(int fd, const iovec* v, int n, off_t o) { return mine(fd) ? do_io(fd, v, n, o, Op::pwrite) : syscall(SYS_pwritev, fd, v, n, o, o >> 32); }
ssize_t pwritev64(int fd, const iovec* v, int n, off64_t o) { return mine(fd) ? do_io(fd, v, n, o, Op::pwrite) : syscall(SYS_pwritev, fd, v, n, o, o >> 32); }

// flags (RWF_*) other than 0 aren't supported, an offset of -1 means the file position
static ssize_t io2(int fd, const iovec* v, int n, int64_t o, int fl, Op p, Op s) { if (fl) { errno = EOPNOTSUPP; return -1; } return o == -1 ? do_io(fd, v, n, 0, s) : do_io(fd, v, n, o, p); }
ssize_t preadv2(int fd, const iovec* v, int n, off_t o, int fl) { return mine(fd) ? io2(fd, v, n, o, fl, Op::pread, Op::read) : syscall(SYS_preadv2, fd, v, n, o, o >> 32, fl); }
ssize_t pwritev2(int fd, const iovec* v, int n, off_t o, int fl) { return mine(fd) ? io2(fd, v, n, o, fl, Op::pwrite, Op::write) : syscall(SYS_pwritev2, fd, v, n, o, o >> 32, fl); }
ssize_t preadv64v2(int fd, const iovec* v, int n, off64_t o, int fl) { return preadv2(fd, v, n, o, fl); }
ssize_t pwritev64v2(int fd, const iovec* v, int n, off64_t o, int fl) { return pwritev2(fd, v, n, o, fl); }
static int do_sync(int fd)
{
  Guard g; Call c; c.op = Op::other; c.fd = fd;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  return (int)leave(c, 0, 0);
}
int fsync(int fd) { return mine(fd) ? do_sync(fd) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return mine(fd) ? do_sync(fd) : (int)syscall(SYS_fdatasync, fd); }

static int do_fstat(int fd, struct stat* st)
{
  Guard g; Call c; c.op = Op::fstat; c.fd = fd;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  memset(st, 0, sizeof *st);
  Inode* i = c.ofd->inode;
  st->st_mode = i->mode; st->st_size = i->size; st->st_atim = i->at; st->st_mtim = i->mt; st->st_nlink = 1; st->st_blksize = 4096;
  return (int)leave(c, 0, 0);
}
int fstat(int fd, struct stat* st) { return mine(fd) ? do_fstat(fd, st) : (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) { return mine(fd) ? do_fstat(fd, (struct stat*)st) : (int)syscall(SYS_fstat, fd, st); }
int fstatat(int d, const char* p, struct stat* st, int fl) { return mine(d) && (!p || !*p) && (fl & AT_EMPTY_PATH) ? do_fstat(d, st) : (int)syscall(SYS_newfstatat, d, p, st, fl); }
int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, (struct stat*)st, fl); }
static int do_trunc(int fd, int64_t n)
{
  Guard g; Call c; c.op = Op::ftruncate; c.fd = fd; c.offset = n;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  if (n < 0 || (c.ofd->flags & O_ACCMODE) == O_RDONLY) return (int)leave(c, -1, EINVAL);
  Inode* i = c.ofd->inode;
  i->bytes.erase(i->bytes.lower_bound(n), i->bytes.end()); i->size = n;
  return (int)leave(c, 0, 0);
}
int ftruncate(int fd, off_t n) { return mine(fd) ? do_trunc(fd, n) : (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return mine(fd) ? do_trunc(fd, n) : (int)syscall(SYS_ftruncate, fd, n); }
static off_t do_lseek(int fd, off_t o, int w)
{
  Guard g; Call c; c.op = Op::lseek; c.fd = fd; c.offset = o; c.whence = w;
  enter(c);
  if (!c.ofd) return leave(c, -1, EBADF);
  if (c.force_errno) return leave(c, -1, c.force_errno);
  int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? c.ofd->pos : w == SEEK_END ? c.ofd->inode->size : -1, r;
  if (b < 0) return leave(c, -1, EINVAL);
  if (__builtin_add_overflow(b, (int64_t)o, &r)) return leave(c, -1, EOVERFLOW); // not reachable: o is an off_t and b is non-negative, positive overflow only
  if (r < 0) return leave(c, -1, EINVAL);
  c.ofd->pos = r;
  return leave(c, r, 0);
}
off_t lseek(int fd, off_t o, int w) { return mine(fd) ? do_lseek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return mine(fd) ? do_lseek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
int fchmod(int fd, mode_t m)
{
  if (!mine(fd)) return (int)syscall(SYS_fchmod, fd, m);
  Guard g; Call c; c.op = Op::fchmod; c.fd = fd; c.mode = (int)m;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  c.ofd->inode->mode = S_IFREG | (m & 07777);
  return (int)leave(c, 0, 0);
}
static int do_utimens(int fd, const timespec ts[2])
{
  Guard g; Call c; c.op = Op::futimens; c.fd = fd;
  enter(c);
  if (!c.ofd) return (int)leave(c, -1, EBADF);
  if (c.force_errno) return (int)leave(c, -1, c.force_errno);
  for (int i = 0; i < 2; ++i) {
    if (ts[i].tv_nsec == UTIME_OMIT || ts[i].tv_nsec == UTIME_NOW) continue;
    if ( ts[i].tv_nsec < 0 || ts[i].tv_nsec > 999999999) return (int)leave(c, -1, EINVAL);
  }
  for (int i = 0; i < 2; ++i)
    if (ts[i].tv_nsec != UTIME_OMIT) (i ? c.ofd->inode->mt : c.ofd->inode->at) = ts[i].tv_nsec == UTIME_NOW ? timespec{1777777777, 7} : ts[i];
  return (int)leave(c, 0, 0);
}
int futimens(int fd, const timespec ts[2])
{
  static const timespec now[2] = {{0, UTIME_NOW}, {0, UTIME_NOW}};
  return mine(fd) ? do_utimens(fd, ts ? ts : now) : (int)syscall(SYS_utimensat, fd, nullptr, ts, 0);
}
int utimensat(int d, const char* p, const timespec ts[2], int fl) { return mine(d) && !p ? futimens(d, ts) : (int)syscall(SYS_utimensat, d, p, ts, fl); }
int futimes(int fd, const timeval tv[2])
{
  if (!tv) return futimens(fd, nullptr);
  timespec ts[2];
  for (int i = 0; i < 2; ++i) {
    if (tv[i].tv_usec < 0 || tv[i].tv_usec > 999999) { errno = EINVAL; return -1; }
    ts[i] = {tv[i].tv_sec, tv[i].tv_usec * 1000};
  }
  return futimens(fd, ts);
}
}
