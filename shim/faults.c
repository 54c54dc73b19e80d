/* Interposes the libc calls which change files below a watched directory.
 * Every such call is recorded in shared memory; the call with a chosen number is interrupted. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { M_NONE, M_KILL, M_PARTIAL_KILL, M_ERR_ONCE, M_ERR_FROM, M_PARTIAL_ERR, M_SIGINT, M_KILL_AFTER };
enum { K_OPEN = 1, K_WRITE, K_SYNC, K_CLOSE, K_RENAME, K_UNLINK, K_TRUNC, K_LINK, K_MKDIR };

#define LOGMAX 4096
struct shared { int n; int hit; int kind[LOGMAX]; long size[LOGMAX]; };
static struct shared *sh;
static int armed, target, mode, err;
static long param;
static char prefix[4096];
static char tracked[65536];

__attribute__((constructor)) static void init(void) {
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void fault_arm(const char *p, int t, int m, long par, int e) {
  strncpy(prefix, p, sizeof prefix - 1);
  memset(tracked, 0, sizeof tracked);
  sh->n = 0; sh->hit = 0; target = t; mode = m; param = par; err = e; armed = 1;
}
void fault_disarm(void) { armed = 0; }
/* a private result area, so that a forked child reports to exactly its parent */
void fault_private(void) { init(); }
int fault_count(void) { return sh->n; }
int fault_hit(void) { return sh->hit; }
int fault_kind(int i) { return sh->kind[i]; }
long fault_size(int i) { return sh->size[i]; }

static int below(int dirfd, const char *path) {
  if (!armed || !path) return 0;
  size_t l = strlen(prefix);
  if (path[0] == '/') return !strncmp(path, prefix, l);
  char cwd[4096];
  if (dirfd != AT_FDCWD || !getcwd(cwd, sizeof cwd)) return 0;
  return !strncmp(cwd, prefix, l);
}
static int fd_tracked(int fd) { return armed && fd >= 0 && fd < 65536 && tracked[fd]; }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* -1: fail with errno set; >= 0: allowed number of bytes of a write (or any for others) */
static long step(int kind, long size) {
  int i = sh->n;
  if (i < LOGMAX) { sh->kind[i] = kind; sh->size[i] = size; }
  sh->n = i + 1;
  int here = (i + 1 == target);
  if (!here && !(i + 1 > target && target > 0 && (mode == M_ERR_FROM || mode == M_PARTIAL_ERR)
                 && kind == K_WRITE)) return size; /* a full disk still opens and truncates files */
  sh->hit = 1;
  switch (mode) {
    case M_KILL: die();
    case M_PARTIAL_KILL: if (kind != K_WRITE) die(); return param < size ? param : size;
    case M_ERR_ONCE: case M_ERR_FROM: errno = err; return -1;
    case M_PARTIAL_ERR:
      if (here && kind == K_WRITE && param > 0) return param < size ? param : size;
      errno = err; return -1;
    case M_SIGINT: raise(SIGINT); return size;
  }
  return size;
}
static void after(void) {
  if (sh->n == target && (mode == M_PARTIAL_KILL || mode == M_KILL_AFTER)) die();
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

#define OPENLIKE(NAME, REALNAME) \
int NAME(const char *path, int flags, ...) { \
  mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } \
  int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && below(AT_FDCWD, path); \
  if (w && step(K_OPEN, flags & O_TRUNC ? 1 : 0) < 0) return -1; \
  int fd = REAL(REALNAME)(path, flags, m); \
  if (fd >= 0 && fd < 65536) tracked[fd] = w; \
  if (w) after(); \
  return fd; }
OPENLIKE(open, open)
OPENLIKE(open64, open64)
#define OPENATLIKE(NAME) \
int NAME(int d, const char *path, int flags, ...) { \
  mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } \
  int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && below(d, path); \
  if (w && step(K_OPEN, flags & O_TRUNC ? 1 : 0) < 0) return -1; \
  int fd = REAL(NAME)(d, path, flags, m); \
  if (fd >= 0 && fd < 65536) tracked[fd] = w; \
  if (w) after(); \
  return fd; }
OPENATLIKE(openat)
OPENATLIKE(openat64)

#define WRITELIKE(DECL, CALLFULL, CALLSHORT, FD, N) \
DECL { \
  if (!fd_tracked(FD)) return CALLFULL; \
  long k = step(K_WRITE, N); \
  if (k < 0) return -1; \
  ssize_t r; \
  if (k == (long)(N)) r = CALLFULL; else if (k == 0) r = 0; else r = CALLSHORT; \
  after(); \
  if (k == 0 && (N) > 0) { errno = ENOSPC; return -1; } \
  return r; }
WRITELIKE(ssize_t write(int fd, const void *b, size_t n), REAL(write)(fd, b, n), REAL(write)(fd, b, k), fd, n)
WRITELIKE(ssize_t pwrite(int fd, const void *b, size_t n, off_t o), REAL(pwrite)(fd, b, n, o), REAL(pwrite)(fd, b, k, o), fd, n)
WRITELIKE(ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o), REAL(pwrite64)(fd, b, n, o), REAL(pwrite64)(fd, b, k, o), fd, n)
WRITELIKE(ssize_t sendfile(int fd, int in, off_t *o, size_t n), REAL(sendfile)(fd, in, o, n), REAL(sendfile)(fd, in, o, k), fd, n)
WRITELIKE(ssize_t sendfile64(int fd, int in, off64_t *o, size_t n), REAL(sendfile64)(fd, in, o, n), REAL(sendfile64)(fd, in, o, k), fd, n)
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!fd_tracked(fd)) return REAL(writev)(fd, v, c);
  long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  long k = step(K_WRITE, n);
  if (k < 0) return -1;
  ssize_t r;
  if (k == n) r = REAL(writev)(fd, v, c); else r = REAL(write)(fd, v[0].iov_base, k < (long)v[0].iov_len ? k : (long)v[0].iov_len);
  after();
  return r;
}
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) {
  if (!fd_tracked(fd)) return REAL(copy_file_range)(in, oi, fd, oo, n, f);
  long k = step(K_WRITE, n);
  if (k < 0) return -1;
  ssize_t r = REAL(copy_file_range)(in, oi, fd, oo, k, f);
  after();
  return r;
}
#define FDOP(DECL, CALL, FD, KIND) DECL { if (fd_tracked(FD)) { if (step(KIND, 0) < 0) return -1; int r = CALL; after(); return r; } return CALL; }
FDOP(int fsync(int fd), REAL(fsync)(fd), fd, K_SYNC)
FDOP(int fdatasync(int fd), REAL(fdatasync)(fd), fd, K_SYNC)
FDOP(int ftruncate(int fd, off_t l), REAL(ftruncate)(fd, l), fd, K_TRUNC)
FDOP(int ftruncate64(int fd, off64_t l), REAL(ftruncate64)(fd, l), fd, K_TRUNC)
int close(int fd) {
  if (fd_tracked(fd)) {
    long k = step(K_CLOSE, 0);
    int e = errno;
    tracked[fd] = 0;
    int r = REAL(close)(fd);
    after();
    if (k < 0) { errno = e; return -1; }
    return r;
  }
  return REAL(close)(fd);
}
#define PATHOP(DECL, CALL, COND, KIND) DECL { if (COND) { if (step(KIND, 0) < 0) return -1; int r = CALL; after(); return r; } return CALL; }
PATHOP(int rename(const char *a, const char *b), REAL(rename)(a, b), below(AT_FDCWD, b) || below(AT_FDCWD, a), K_RENAME)
PATHOP(int renameat(int d, const char *a, int e, const char *b), REAL(renameat)(d, a, e, b), below(e, b) || below(d, a), K_RENAME)
PATHOP(int renameat2(int d, const char *a, int e, const char *b, unsigned f), REAL(renameat2)(d, a, e, b, f), below(e, b) || below(d, a), K_RENAME)
PATHOP(int unlink(const char *a), REAL(unlink)(a), below(AT_FDCWD, a), K_UNLINK)
PATHOP(int unlinkat(int d, const char *a, int f), REAL(unlinkat)(d, a, f), below(d, a), K_UNLINK)
PATHOP(int remove(const char *a), REAL(remove)(a), below(AT_FDCWD, a), K_UNLINK)
PATHOP(int truncate(const char *a, off_t l), REAL(truncate)(a, l), below(AT_FDCWD, a), K_TRUNC)
PATHOP(int truncate64(const char *a, off64_t l), REAL(truncate64)(a, l), below(AT_FDCWD, a), K_TRUNC)
PATHOP(int link(const char *a, const char *b), REAL(link)(a, b), below(AT_FDCWD, b), K_LINK)
PATHOP(int linkat(int d, const char *a, int e, const char *b, int f), REAL(linkat)(d, a, e, b, f), below(e, b), K_LINK)
PATHOP(int symlink(const char *a, const char *b), REAL(symlink)(a, b), below(AT_FDCWD, b), K_LINK)
PATHOP(int mkdir(const char *a, mode_t m), REAL(mkdir)(a, m), below(AT_FDCWD, a), K_MKDIR)
