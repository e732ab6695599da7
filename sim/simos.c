/* simos: the operating-system seam of the simulator.
 *
 * LD_PRELOADed into every simulated process.  It interposes the libc calls
 * through which CPython, libhdf5 (h5py and PyTables) and h5features reach the
 * file system, the clock and the entropy pool.  Only paths below the run's
 * scratch root are simulated; everything else passes straight through.
 *
 * Every simulated call is one "event": it advances the simulated clock, is
 * folded in a 64-bit event hash, may be hit by a fault rule, and, when the
 * process is gated, first hands control to the scheduler.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN, OP_CLOSE, OP_READ, OP_WRITE, OP_TRUNC, OP_FLOCK, OP_FSYNC,
       OP_UNLINK, OP_RENAME, OP_MKDIR, OP_RMDIR, NOPS };
enum { K_ERR = 1, K_SHORT = 2, K_CRASH = 3, K_TORN = 4, K_SIGINT = 5,
       K_CLOCK = 6, K_CRASH_AFTER = 7, K_LIE = 8 };

#define MAXFD 4096
#define MAXRULE 64
#define PATHLEN 256

typedef struct {
  int kind;            /* K_*                                            */
  unsigned opmask;     /* which operations are eligible                  */
  int wronly;          /* only files opened for writing                  */
  long nth;            /* hit the nth eligible event (0-based); -1: use p */
  long count;          /* how many consecutive eligible events to hit;
                          -1: all from then on                           */
  uint32_t p;          /* probability / 2^32 when nth < 0                */
  long arg;            /* errno, per-mille of the length, seconds        */
  char path[PATHLEN];  /* substring of the relative path, or ""          */
  long seen, hits;
} rule_t;

static int on = 0;
static char root[PATHLEN];
static size_t rootlen = 0;
static char cwd_rel_ok = 0;       /* the process' cwd is root */
static char *fdpath[MAXFD];       /* relative path, or NULL  */
static char fdw[MAXFD];
static rule_t rules[MAXRULE];
static int nrules = 0;
static uint64_t prng_s = 1, rand_s = 1;
static uint64_t evhash = 1469598103934665603ULL;
static long nev = 0, counts[NOPS], wevents = 0;
static int64_t clk_ns = 0, clk_jump = 0;
static int simclock = 0, simrand = 0;
static int gate_in = -1, gate_out = -1, gate_pid = -1;
static unsigned gate_mask = 0xffffffffu;
static int logfd = -1;

static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_close)(int);
static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_ftruncate)(int, off_t);
static int (*r_flock)(int, int);
static int (*r_fsync)(int);
static int (*r_unlink)(const char *);
static int (*r_unlinkat)(int, const char *, int);
static int (*r_rename)(const char *, const char *);
static int (*r_renameat)(int, const char *, int, const char *);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_rmdir)(const char *);
static int (*r_clock_gettime)(clockid_t, struct timespec *);
static ssize_t (*r_getrandom)(void *, size_t, unsigned);
static int (*r_dup2)(int, int);

#define LOAD(v, n) do { if (!(v)) v = dlsym(RTLD_NEXT, n); } while (0)
static void init(void) __attribute__((constructor));
static void init(void) {
  LOAD(r_read, "read"); LOAD(r_write, "write");
  LOAD(r_pread, "pread64"); LOAD(r_pwrite, "pwrite64");
  LOAD(r_close, "close"); LOAD(r_open, "open64"); LOAD(r_openat, "openat64");
  LOAD(r_ftruncate, "ftruncate64"); LOAD(r_flock, "flock");
  LOAD(r_fsync, "fsync"); LOAD(r_unlink, "unlink");
  LOAD(r_unlinkat, "unlinkat"); LOAD(r_rename, "rename");
  LOAD(r_renameat, "renameat"); LOAD(r_mkdir, "mkdir");
  LOAD(r_rmdir, "rmdir"); LOAD(r_clock_gettime, "clock_gettime");
  LOAD(r_getrandom, "getrandom"); LOAD(r_dup2, "dup2");
}

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static void fold(const void *p, size_t n) {
  const unsigned char *c = p;
  while (n--) { evhash ^= *c++; evhash *= 1099511628211ULL; }
}

/* relative path below the scratch root, or NULL */
static const char *rel(const char *p, char *buf) {
  if (!on || !p) return NULL;
  if (p[0] == '/') {
    if (strncmp(p, root, rootlen) || p[rootlen] != '/') return NULL;
    p += rootlen + 1;
  } else if (!cwd_rel_ok) return NULL;
  while (p[0] == '.' && p[1] == '/') p += 2;
  strncpy(buf, p, PATHLEN - 1); buf[PATHLEN - 1] = 0;
  return buf;
}

static const char *opname[NOPS] = {"open", "close", "read", "write", "trunc",
  "flock", "fsync", "unlink", "rename", "mkdir", "rmdir"};

static void yield_gate(int op, const char *path, int w) {
  if (gate_out < 0 || gate_pid != (int)syscall(SYS_getpid)) return;
  if (!(gate_mask & (1u << op))) return;
  char b[8] = {'Y', (char)op, (char)w, 0, 0, 0, 0, 0};
  (void)path;
  int e = errno;
  if (r_write(gate_out, b, 8) != 8) syscall(SYS_exit_group, 99);
  char c;
  ssize_t n;
  do n = r_read(gate_in, &c, 1); while (n < 0 && errno == EINTR);
  if (n != 1) syscall(SYS_exit_group, 99);
  errno = e;
}

/* one event.  Returns the rule that hits it, or NULL. */
static rule_t *event(int op, const char *path, int w, int64_t len, int64_t off) {
  yield_gate(op, path, w);
  nev++; counts[op]++;
  if (w && op == OP_WRITE) wevents++;
  clk_ns += 1000 * (1 + (op == OP_WRITE || op == OP_READ ? 20 : 5)) + len / 4;
  unsigned char o = op; fold(&o, 1); fold(path, strlen(path) + 1);
  fold(&len, 8); fold(&off, 8);
  rule_t *hit = NULL;
  for (int i = 0; i < nrules; i++) {
    rule_t *r = &rules[i];
    if (!(r->opmask & (1u << op))) continue;
    if (r->wronly && !w) continue;
    if (r->path[0] && !strstr(path, r->path)) continue;
    long k = r->seen++;
    int go;
    if (r->nth >= 0) go = k >= r->nth && (r->count < 0 || k < r->nth + r->count);
    else go = (uint32_t)(splitmix(&prng_s) >> 32) < r->p &&
              (r->count < 0 || r->hits < r->count);
    if (go && !hit) hit = r;
  }
  if (hit) { hit->hits++; unsigned char k = 128 + hit->kind; fold(&k, 1); }
  if (logfd >= 0) {
    char b[PATHLEN + 96];
    int n = snprintf(b, sizeof b, "%ld %s %s len=%ld off=%ld%s%s\n", nev - 1,
                     opname[op], path, (long)len, (long)off,
                     hit ? " FAULT=" : "", hit ? (hit->kind == K_ERR ? "err" :
                     hit->kind == K_SHORT ? "short" : hit->kind == K_CRASH ?
                     "crash" : hit->kind == K_TORN ? "torn" :
                     hit->kind == K_SIGINT ? "sigint" : hit->kind == K_CLOCK ?
                     "clock" : hit->kind == K_LIE ? "lie" : "crash-after") : "");
    (void)!r_write(logfd, b, n);
  }
  if (!hit) return NULL;
  switch (hit->kind) {
    case K_CRASH: syscall(SYS_exit_group, 137); break;
    case K_SIGINT: syscall(SYS_kill, (int)syscall(SYS_getpid), SIGINT); return NULL;
    case K_CLOCK: clk_jump += hit->arg * 1000000000LL; return NULL;
  }
  return hit;
}

static void die(void) { syscall(SYS_exit_group, 137); }

/* ---- interposed calls -------------------------------------------------- */
static int track_open(int fd, const char *rp, int flags) {
  if (fd >= 0 && fd < MAXFD) {
    free(fdpath[fd]);
    fdpath[fd] = strdup(rp);
    fdw[fd] = (flags & O_ACCMODE) != O_RDONLY;
  }
  return fd;
}

static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
  char b[PATHLEN]; const char *rp = NULL;
  init();
  if (dirfd == AT_FDCWD || (p && p[0] == '/')) rp = rel(p, b);
  if (!rp || (flags & O_DIRECTORY))
    return dirfd == AT_FDCWD ? r_open(p, flags, mode) : r_openat(dirfd, p, flags, mode);
  int w = (flags & O_ACCMODE) != O_RDONLY;
  rule_t *h = event(OP_OPEN, rp, w, flags & (O_CREAT | O_EXCL | O_TRUNC | O_ACCMODE), 0);
  if (h && h->kind == K_ERR) { errno = h->arg; return -1; }
  int fd = r_open(p, flags, mode);
  track_open(fd, rp, flags);
  if (h && h->kind == K_CRASH_AFTER) die();
  return fd;
}
#define OPENBODY(AT) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  return do_open(AT, p, flags, m)
int open(const char *p, int flags, ...) { OPENBODY(AT_FDCWD); }
int open64(const char *p, int flags, ...) { OPENBODY(AT_FDCWD); }
int openat(int d, const char *p, int flags, ...) { OPENBODY(d); }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(d); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }

int close(int fd) {
  init();
  if (on && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    char b[PATHLEN]; strncpy(b, fdpath[fd], PATHLEN); b[PATHLEN - 1] = 0;
    rule_t *h = event(OP_CLOSE, b, fdw[fd], 0, 0);
    free(fdpath[fd]); fdpath[fd] = NULL;
    int r = r_close(fd);
    if (h && h->kind == K_CRASH_AFTER) die();
    if (h && h->kind == K_ERR) { errno = h->arg; return -1; }
    return r;
  }
  return r_close(fd);
}

static ssize_t do_rw(int op, int fd, void *buf, size_t n, off_t off, int pos) {
  init();
  if (on && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    rule_t *h = event(op, fdpath[fd], fdw[fd], n, pos ? off : -1);
    if (h) {
      if (h->kind == K_ERR) { errno = h->arg; return -1; }
      if (h->kind == K_SHORT && n > 1) {
        size_t m = n * (h->arg % 1000) / 1000; if (m == 0) m = 1; if (m >= n) m = n - 1;
        n = m;
      }
      if (h->kind == K_LIE && op == OP_WRITE) return n; /* lost write */
      if (h->kind == K_TORN) {
        if (op == OP_WRITE) {
          size_t m = n * (h->arg % 1000) / 1000;
          if (m) { if (pos) (void)!r_pwrite(fd, buf, m, off); else (void)!r_write(fd, buf, m); }
        }
        die();
      }
    }
    ssize_t r = op == OP_READ ? (pos ? r_pread(fd, buf, n, off) : r_read(fd, buf, n))
                              : (pos ? r_pwrite(fd, buf, n, off) : r_write(fd, buf, n));
    if (h && h->kind == K_CRASH_AFTER) die();
    return r;
  }
  return op == OP_READ ? (pos ? r_pread(fd, buf, n, off) : r_read(fd, buf, n))
                       : (pos ? r_pwrite(fd, buf, n, off) : r_write(fd, buf, n));
}
ssize_t read(int fd, void *b, size_t n) { return do_rw(OP_READ, fd, b, n, 0, 0); }
ssize_t write(int fd, const void *b, size_t n) { return do_rw(OP_WRITE, fd, (void *)b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_rw(OP_READ, fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_rw(OP_READ, fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_rw(OP_WRITE, fd, (void *)b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_rw(OP_WRITE, fd, (void *)b, n, o, 1); }

static int do_trunc(int fd, off_t n) {
  init();
  if (on && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    rule_t *h = event(OP_TRUNC, fdpath[fd], 1, n, 0);
    if (h && h->kind == K_ERR) { errno = h->arg; return -1; }
    int r = r_ftruncate(fd, n);
    if (h && h->kind == K_CRASH_AFTER) die();
    return r;
  }
  return r_ftruncate(fd, n);
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }

int flock(int fd, int op) {
  init();
  if (on && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    rule_t *h = event(OP_FLOCK, fdpath[fd], fdw[fd], op, 0);
    if (h && h->kind == K_ERR) { errno = h->arg; return -1; }
    int r = r_flock(fd, op);
    if (h && h->kind == K_CRASH_AFTER) die();
    return r;
  }
  return r_flock(fd, op);
}

int fsync(int fd) {
  init();
  if (on && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    rule_t *h = event(OP_FSYNC, fdpath[fd], fdw[fd], 0, 0);
    if (h && h->kind == K_ERR) { errno = h->arg; return -1; }
    return r_fsync(fd);
  }
  return r_fsync(fd);
}

#define PATHOP(op, call, real) do { \
  char b_[PATHLEN]; init(); \
  const char *rp_ = rel(call, b_); \
  if (!rp_) return real; \
  rule_t *h_ = event(op, rp_, 1, 0, 0); \
  if (h_ && h_->kind == K_ERR) { errno = h_->arg; return -1; } \
  int r_ = real; \
  if (h_ && h_->kind == K_CRASH_AFTER) die(); \
  return r_; } while (0)

int unlink(const char *p) { PATHOP(OP_UNLINK, p, r_unlink(p)); }
int unlinkat(int d, const char *p, int f) {
  init();
  if (d != AT_FDCWD && p[0] != '/') return r_unlinkat(d, p, f);
  PATHOP(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, p, r_unlinkat(d, p, f));
}
int rename(const char *a, const char *b) { PATHOP(OP_RENAME, b, r_rename(a, b)); }
int renameat(int d, const char *a, int e, const char *b) { PATHOP(OP_RENAME, b, r_renameat(d, a, e, b)); }
int mkdir(const char *p, mode_t m) { PATHOP(OP_MKDIR, p, r_mkdir(p, m)); }
int rmdir(const char *p) { PATHOP(OP_RMDIR, p, r_rmdir(p)); }

int clock_gettime(clockid_t c, struct timespec *t) {
  init();
  if (!simclock || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC &&
                    c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE))
    return r_clock_gettime(c, t);
  clk_ns += 100;
  int64_t v = clk_ns;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
    v += 1500000000LL * 1000000000LL + clk_jump;
  if (v < 0) v = 0;
  t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec t; (void)tz;
  int r = clock_gettime(CLOCK_REALTIME, &t);
  { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  return r;
}
time_t time(time_t *o) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  init();
  if (!simrand) return r_getrandom(b, n, f);
  unsigned char *c = b;
  for (size_t i = 0; i < n; i++) c[i] = splitmix(&rand_s) >> 56;
  return n;
}

/* ---- control interface ------------------------------------------------- */
int sim_present(void) { return 1; }
void sim_start(const char *r, int cwd_is_root, uint64_t seed) {
  strncpy(root, r, PATHLEN - 1); rootlen = strlen(root);
  cwd_rel_ok = cwd_is_root; prng_s = seed; rand_s = seed ^ 0xabcdef;
  nev = 0; wevents = 0; evhash = 1469598103934665603ULL; memset(counts, 0, sizeof counts);
  nrules = 0; clk_ns = 0; clk_jump = 0; on = 1;
}
void sim_stop(void) { on = 0; }
void sim_resume(void) { on = 1; }
void sim_flags(int clock, int rnd) { simclock = clock; simrand = rnd; }
void sim_log(int fd) { logfd = fd; }
int sim_rule(int kind, unsigned opmask, int wronly, long nth, long count,
             double p, long arg, const char *path) {
  if (nrules >= MAXRULE) return -1;
  rule_t *r = &rules[nrules];
  memset(r, 0, sizeof *r);
  r->kind = kind; r->opmask = opmask; r->wronly = wronly; r->nth = nth;
  r->count = count; r->p = p >= 1.0 ? 0xffffffffu : (uint32_t)(p * 4294967296.0);
  r->arg = arg;
  strncpy(r->path, path ? path : "", PATHLEN - 1);
  return nrules++;
}
void sim_clear_rules(void) { nrules = 0; }
long sim_rule_hits(int i) { return i < nrules ? rules[i].hits : -1; }
long sim_rule_seen(int i) { return i < nrules ? rules[i].seen : -1; }
long sim_events(void) { return nev; }
long sim_count(int op) { return counts[op]; }
uint64_t sim_hash(void) { return evhash; }
int64_t sim_clock_ns(void) { return clk_ns; }
void sim_gate(int in, int out, unsigned mask) {
  gate_in = in; gate_out = out; gate_mask = mask; gate_pid = getpid();
}
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fdpath[i] != NULL; return n; }
const char *sim_fd_path(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }
void sim_reseed(uint64_t seed) { prng_s = seed; rand_s = seed ^ 0xabcdef; }
