/*
 * LD_PRELOAD fork server and I/O controller for the real c8s binary.
 *
 * The dynamic loader binds the program's __libc_start_main to ours. Instead of starting the program once,
 * we serve requests on a pipe: each request forks a child that continues into the real start-up with the
 * argument vector, environment, working directory, hash seed and fault script of that request. The I/O calls
 * the program makes through libc are numbered, recorded in shared memory, and made to fail as scripted.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

enum { FD_OUT = 195, FD_ERR = 196, FD_SHM = 197, FD_REQ = 198, FD_RSP = 199 };
enum { C_OPEN = 1, C_READ, C_WRITE, C_CLOSE, C_RENAME, C_UNLINK, C_TRUNC, C_SYNC, C_OTHER };
enum { A_NONE = 0, A_ERRNO = 1, A_SHORT = 2, A_ZERO = 3 };
#define MAXCALLS 4096
#define MAXFAULTS 16

struct call { uint32_t kind; int32_t fd; uint64_t want; int64_t got; uint32_t action; uint32_t flags; char path[96]; };
struct shm { uint32_t ncalls; uint32_t pad; struct call calls[MAXCALLS]; };

static struct shm *S;
static int active;               /* set in the child only */
static int seeded; static uint64_t seed;
static uint32_t nfaults; static struct { uint32_t idx, action; int32_t arg; } faults[MAXFAULTS];

static int (*r_open)(const char *, int, ...), (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...), (*r_openat64)(int, const char *, int, ...);
static int (*r_creat)(const char *, mode_t);
static ssize_t (*r_read)(int, void *, size_t), (*r_write)(int, const void *, size_t);
static ssize_t (*r_readv)(int, const struct iovec *, int), (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_pread)(int, void *, size_t, off_t), (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_close)(int);
static int (*r_rename)(const char *, const char *), (*r_unlink)(const char *);
static int (*r_ftruncate)(int, off_t), (*r_fsync)(int), (*r_fdatasync)(int);
static ssize_t (*r_getrandom)(void *, size_t, unsigned);
static void *(*r_mmap)(void *, size_t, int, int, int, off_t);

#define RESOLVE(n) r_##n = dlsym(RTLD_NEXT, #n)
static void resolve(void) {
  RESOLVE(open); RESOLVE(open64); RESOLVE(openat); RESOLVE(openat64); RESOLVE(creat); RESOLVE(read); RESOLVE(write);
  RESOLVE(readv); RESOLVE(writev); RESOLVE(pread); RESOLVE(pwrite); RESOLVE(close); RESOLVE(rename); RESOLVE(unlink);
  RESOLVE(ftruncate); RESOLVE(fsync); RESOLVE(fdatasync); RESOLVE(getrandom); RESOLVE(mmap);
}
static int fixed; static uint64_t fixed_seed;   /* C8S_SEED: a fixed hash seed for a program run without the fork server */
__attribute__((constructor)) static void ctor(void) {
  if (!r_open) resolve();
  const char *e = getenv("C8S_SEED"); if (e) { fixed = 1; fixed_seed = strtoull(e, 0, 10); }
}

/* Numbers a call; returns its record (never NULL) and the scripted action. */
static struct call scratch_call;
static struct call *begin(uint32_t kind, int fd, uint64_t want, const char *path, uint32_t *action, int32_t *arg) {
  *action = A_NONE; *arg = 0;
  if (!active || !S) return &scratch_call;
  uint32_t i = S->ncalls++;
  if (i >= MAXCALLS) return &scratch_call;
  struct call *c = &S->calls[i];
  memset(c, 0, sizeof *c);
  c->kind = kind; c->fd = fd; c->want = want;
  if (path) { strncpy(c->path, path, sizeof c->path - 1); }
  for (uint32_t k = 0; k < nfaults; k++) if (faults[k].idx == i) { *action = faults[k].action; *arg = faults[k].arg; }
  c->action = *action;
  return c;
}
#define FAIL_IF_ERRNO(c) do { if (action == A_ERRNO) { (c)->got = -arg; errno = arg; return -1; } } while (0)
#define DONE(c, v) do { (c)->got = (v) < 0 ? -errno : (v); } while (0)

/* One path of the program's choosing can be made to lead into the scratch directory. */
static const char *redir_from, *redir_to;
static const char *led(const char *path) { return active && redir_from && path && !strcmp(path, redir_from) ? redir_to : path; }
#define OPENBODY(callexpr) \
  uint32_t action; int32_t arg; struct call *c = begin(C_OPEN, -1, 0, path, &action, &arg); c->flags = flags; \
  FAIL_IF_ERRNO(c); path = led(path); int r = callexpr; int e = errno; DONE(c, r); errno = e; return r;
#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE if (!r_open) resolve(); OPENBODY(r_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { MODE if (!r_open64) resolve(); OPENBODY(r_open64(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { MODE if (!r_openat) resolve(); OPENBODY(r_openat(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { MODE if (!r_openat64) resolve(); OPENBODY(r_openat64(d, path, flags, mode)) }
int creat(const char *path, mode_t mode) { int flags = O_CREAT | O_WRONLY | O_TRUNC; if (!r_creat) resolve(); OPENBODY(r_creat(path, mode)) }

#define IOBODY(KIND, callshort, callfull) \
  uint32_t action; int32_t arg; struct call *c = begin(KIND, fd, n, 0, &action, &arg); \
  FAIL_IF_ERRNO(c); if (action == A_ZERO) { c->got = 0; return 0; } \
  ssize_t r; if (action == A_SHORT && (size_t)arg < n) r = callshort; else r = callfull; \
  int e = errno; DONE(c, r); errno = e; return r;
ssize_t read(int fd, void *b, size_t n) { if (!r_read) resolve(); IOBODY(C_READ, r_read(fd, b, arg), r_read(fd, b, n)) }
ssize_t write(int fd, const void *b, size_t n) { if (!r_write) resolve(); IOBODY(C_WRITE, r_write(fd, b, arg), r_write(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!r_pread) resolve(); IOBODY(C_READ, r_pread(fd, b, arg, o), r_pread(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!r_pwrite) resolve(); IOBODY(C_WRITE, r_pwrite(fd, b, arg, o), r_pwrite(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
static size_t iovlen(const struct iovec *v, int k) { size_t n = 0; for (int i = 0; i < k; i++) n += v[i].iov_len; return n; }
/* A short vectored transfer is delivered through the first non-empty element. */
static const struct iovec *first(const struct iovec *v, int k) { for (int i = 0; i < k; i++) if (v[i].iov_len) return &v[i]; return v; }
ssize_t readv(int fd, const struct iovec *v, int k) { if (!r_readv) resolve(); size_t n = iovlen(v, k); const struct iovec *f = first(v, k);
  IOBODY(C_READ, r_read(fd, f->iov_base, (size_t)arg < f->iov_len ? (size_t)arg : f->iov_len), r_readv(fd, v, k)) }
ssize_t writev(int fd, const struct iovec *v, int k) { if (!r_writev) resolve(); size_t n = iovlen(v, k); const struct iovec *f = first(v, k);
  IOBODY(C_WRITE, r_write(fd, f->iov_base, (size_t)arg < f->iov_len ? (size_t)arg : f->iov_len), r_writev(fd, v, k)) }

int close(int fd) { if (!r_close) resolve(); uint32_t action; int32_t arg; struct call *c = begin(C_CLOSE, fd, 0, 0, &action, &arg);
  int r = r_close(fd); int e = errno; if (action == A_ERRNO) { c->got = -arg; errno = arg; return -1; } DONE(c, r); errno = e; return r; }
int rename(const char *a, const char *path) { if (!r_rename) resolve(); uint32_t action; int32_t arg; struct call *c = begin(C_RENAME, -1, 0, path, &action, &arg);
  FAIL_IF_ERRNO(c); int r = r_rename(a, path); int e = errno; DONE(c, r); errno = e; return r; }
int unlink(const char *path) { if (!r_unlink) resolve(); uint32_t action; int32_t arg; struct call *c = begin(C_UNLINK, -1, 0, path, &action, &arg);
  FAIL_IF_ERRNO(c); int r = r_unlink(path); int e = errno; DONE(c, r); errno = e; return r; }
int ftruncate(int fd, off_t n) { if (!r_ftruncate) resolve(); uint32_t action; int32_t arg; struct call *c = begin(C_TRUNC, fd, n, 0, &action, &arg);
  FAIL_IF_ERRNO(c); int r = r_ftruncate(fd, n); int e = errno; DONE(c, r); errno = e; return r; }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fsync(int fd) { if (!r_fsync) resolve(); uint32_t action; int32_t arg; struct call *c = begin(C_SYNC, fd, 0, 0, &action, &arg);
  FAIL_IF_ERRNO(c); int r = r_fsync(fd); int e = errno; DONE(c, r); errno = e; return r; }
int fdatasync(int fd) { if (!r_fdatasync) resolve(); uint32_t action; int32_t arg; struct call *c = begin(C_SYNC, fd, 0, 0, &action, &arg);
  FAIL_IF_ERRNO(c); int r = r_fdatasync(fd); int e = errno; DONE(c, r); errno = e; return r; }

/* Environment variables the program asks for are recorded by name (never made to fail). */
char *getenv(const char *name) {
  static char *(*r_getenv)(const char *);
  if (!r_getenv) r_getenv = dlsym(RTLD_NEXT, "getenv");
  if (active && S) { uint32_t a; int32_t g; begin(C_OTHER, -1, 0, name, &a, &g); }
  return r_getenv ? r_getenv(name) : 0;
}

ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!r_getrandom) resolve();
  if (fixed && !active) { seeded = 1; seed = fixed_seed++; }
  else if (!active || !seeded) return r_getrandom ? r_getrandom(buf, n, fl) : syscall(SYS_getrandom, buf, n, fl);
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) { seed += 0x9E3779B97F4A7C15ull; }
    uint64_t z = seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    p[i] = (unsigned char)(z >> (8 * (i % 8)));
  }
  return (ssize_t)n;
}

/* ---- the world around the program: clock, process, terminal, other files ---- */
static struct { uint32_t time_set, pid, tty, cpus, uid; int64_t time; } world;
static void asks(const char *prefix, const char *path) {
  if (!active || !S) return;
  char b[96]; snprintf(b, sizeof b, "%s%s", prefix, path ? path : "");
  uint32_t a; int32_t g; begin(C_OTHER, -1, 0, b, &a, &g);
}
#define NEXT(ret, name, args) static ret (*real) args; if (!real) real = dlsym(RTLD_NEXT, #name)
int clock_gettime(clockid_t id, struct timespec *t) {
  NEXT(int, clock_gettime, (clockid_t, struct timespec *));
  if (active) { asks("@clock", 0); if (world.time_set && t) { t->tv_sec = world.time; t->tv_nsec = (long)(world.time & 0xFFFF) * 1000; return 0; } }
  return real(id, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  NEXT(int, gettimeofday, (struct timeval *, void *));
  if (active) { asks("@clock", 0); if (world.time_set && t) { t->tv_sec = world.time; t->tv_usec = 1; return 0; } }
  return real(t, z);
}
time_t time(time_t *t) {
  NEXT(time_t, time, (time_t *));
  if (active) { asks("@clock", 0); if (world.time_set) { if (t) *t = world.time; return world.time; } }
  return real(t);
}
pid_t getpid(void) { NEXT(pid_t, getpid, (void)); if (active) { asks("@pid", 0); if (world.pid) return (pid_t)world.pid; } return real(); }
pid_t getppid(void) { NEXT(pid_t, getppid, (void)); if (active) { asks("@pid", 0); if (world.pid) return (pid_t)world.pid + 1; } return real(); }
uid_t getuid(void) { NEXT(uid_t, getuid, (void)); if (active) { asks("@uid", 0); if (world.uid) return world.uid - 1; } return real(); }
uid_t geteuid(void) { NEXT(uid_t, geteuid, (void)); if (active) { asks("@uid", 0); if (world.uid) return world.uid - 1; } return real(); }
int isatty(int fd) { NEXT(int, isatty, (int)); if (active) { asks("@tty", 0); if (world.tty) return world.tty == 1; } return real(fd); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  NEXT(int, sched_getaffinity, (pid_t, size_t, cpu_set_t *));
  if (active) { asks("@cpus", 0); if (world.cpus) { memset(m, 0, n); for (uint32_t i = 0; i < world.cpus && i < 8 * n; i++) CPU_SET_S(i, n, m); return 0; } }
  return real(p, n, m);
}
int access(const char *path, int m) { NEXT(int, access, (const char *, int)); asks("?", path); return real(led(path), m); }
int stat(const char *restrict path, struct stat *restrict b) { NEXT(int, stat, (const char *, struct stat *)); asks("?", path); return real(led(path), b); }
int stat64(const char *restrict path, struct stat64 *restrict b) { NEXT(int, stat64, (const char *, struct stat64 *)); asks("?", path); return real(led(path), b); }
int lstat(const char *restrict path, struct stat *restrict b) { NEXT(int, lstat, (const char *, struct stat *)); asks("?", path); return real(led(path), b); }
int lstat64(const char *restrict path, struct stat64 *restrict b) { NEXT(int, lstat64, (const char *, struct stat64 *)); asks("?", path); return real(led(path), b); }
int statx(int d, const char *restrict path, int f, unsigned m, struct statx *restrict b) {
  NEXT(int, statx, (int, const char *, int, unsigned, struct statx *)); if (path && *path) asks("?", path); return real(d, led(path), f, m, b); }
ssize_t readlink(const char *restrict path, char *restrict b, size_t n) { NEXT(ssize_t, readlink, (const char *, char *, size_t)); asks("?", path); return real(led(path), b, n); }
char *realpath(const char *restrict path, char *restrict b) { NEXT(char *, realpath, (const char *, char *)); asks("?", path); return real(led(path), b); }

/* ---- fork server ---- */
static int readall(int fd, void *b, size_t n) { char *p = b; while (n) { ssize_t r = r_read(fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return -1; p += r; n -= r; } return 0; }
static int writeall(int fd, const void *b, size_t n) { const char *p = b; while (n) { ssize_t r = r_write(fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return -1; p += r; n -= r; } return 0; }
static uint32_t u32(char **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }
static char *str(char **p) { uint32_t n = u32(p); char *s = *p; *p += n + 1; return s; } /* NUL included after the bytes */

typedef int (*main_t)(int, char **, char **);
typedef int (*lsm_t)(main_t, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

int __libc_start_main(main_t m, int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rf)(void), void *se) {
  lsm_t real = (lsm_t)dlsym(RTLD_NEXT, "__libc_start_main");
  if (!getenv("C8S_FORKSERVER")) return real(m, argc, argv, init, fini, rf, se);
  resolve();
  int dev = open("/dev/null", O_RDONLY); if (dev != 0) { dup2(dev, 0); }
  S = r_mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, FD_SHM, 0);
  if (S == MAP_FAILED) _exit(90);
  if (geteuid() == 0) { if (setgroups(0, 0)) {} if (setgid(65534)) {} if (setuid(65534)) {} }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    uint32_t len; if (readall(FD_REQ, &len, 4)) _exit(0);
    char *buf = malloc(len + 1); if (!buf || readall(FD_REQ, buf, len)) _exit(0);
    char *p = buf;
    uint32_t flags = u32(&p); uint64_t sd; memcpy(&sd, p, 8); p += 8;
    uint32_t cpu = u32(&p), asmb = u32(&p), tmo = u32(&p);
    world.time_set = u32(&p); memcpy(&world.time, p, 8); p += 8; world.pid = u32(&p); world.tty = u32(&p); world.cpus = u32(&p); world.uid = u32(&p);
    nfaults = u32(&p); if (nfaults > MAXFAULTS) _exit(91);
    for (uint32_t i = 0; i < nfaults; i++) { faults[i].idx = u32(&p); faults[i].action = u32(&p); faults[i].arg = (int32_t)u32(&p); }
    redir_from = str(&p); redir_to = str(&p); if (!*redir_from) redir_from = 0;
    char *cwd = str(&p);
    uint32_t ac = u32(&p); char **vec = calloc(ac + 1 + 1024, sizeof *vec); uint32_t k = 0;
    for (uint32_t i = 0; i < ac; i++) vec[k++] = str(&p);
    vec[k++] = 0;
    uint32_t ec = u32(&p); if (ec > 1000) _exit(92);
    for (uint32_t i = 0; i < ec; i++) vec[k++] = str(&p);
    vec[k++] = 0;
    S->ncalls = 0;
    pid_t pid = fork();
    if (pid < 0) { int32_t rsp[3] = { -1, 2, 0 }; if (writeall(FD_RSP, rsp, sizeof rsp)) _exit(0); free(vec); free(buf); continue; }
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGPIPE, SIG_DFL);
      if (chdir(cwd)) _exit(93);
      if ((flags & 2) && rmdir(cwd)) _exit(94);
      struct rlimit rl;
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = cpu; rl.rlim_max = cpu + 2; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = (rlim_t)asmb << 20; setrlimit(RLIMIT_AS, &rl);
      rl.rlim_cur = rl.rlim_max = (rlim_t)1 << 30; setrlimit(RLIMIT_FSIZE, &rl);
      dup2(FD_OUT, 1); dup2(FD_ERR, 2);
      for (int f = FD_OUT; f <= FD_RSP; f++) r_close(f);
      environ = vec + ac + 1; /* the dynamic loader has set it already and start-up would keep the server's own */
      seeded = flags & 1; seed = sd; active = 1;
      return real(m, (int)ac, vec, init, fini, rf, se);
    }
    int st = 0, timed = 0;
    int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
    if (pfd >= 0) {
      struct pollfd pf = { pfd, POLLIN, 0 }; int r;
      do r = poll(&pf, 1, (int)tmo); while (r < 0 && errno == EINTR);
      if (r == 0) { kill(pid, SIGKILL); timed = 1; }
      r_close(pfd);
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    int32_t rsp[3] = { st, timed, (int32_t)S->ncalls };
    free(vec); free(buf);
    if (writeall(FD_RSP, rsp, sizeof rsp)) _exit(0);
  }
}
