/* Simulated disk and clock seam (LD_PRELOAD).
 *
 * Every libc call that the interpreter and libhdf5 use for file I/O on paths
 * under the armed prefix goes through here, is numbered, recorded and - if the
 * fault plan says so - fails, is cut short, interrupted, or ends the process.
 * Off (pure pass-through) until fi_arm() is called.  Single-threaded use: the
 * simulator runs one thread of the system at a time.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_CLOSE = 8, OP_FSYNC = 16,
       OP_TRUNC = 32, OP_UNLINK = 64, OP_RENAME = 128, OP_MKDIR = 256,
       OP_COPY = 512, OP_CREAT = 1024 };
enum { A_ERR = 1, A_SHORT = 2, A_KILL = 3, A_TORN = 4, A_STICKY = 5, A_QUOTA = 6, A_CHUNK = 7 };

#define MAXFD 4096
#define MAXRULE 16
#define LOGSZ (1 << 20)
typedef struct {
  unsigned mask; char sub[200]; long nth; long count; int action; int err; long arg;
  long seen; long hits; long used;
} Rule;

static int armed = 0;
static char prefix[1024]; static size_t prefix_len = 0;
static char *fdpath[MAXFD];
static Rule rules[MAXRULE]; static int nrules = 0;
static long opseq = 0, oplimit = 0;
static long opcount[16];
static char *logbuf = 0; static long loglen = 0;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0
#define LOAD(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); } while (0)

static const char *opname(unsigned op) {
  switch (op) { case OP_OPEN: return "open"; case OP_CREAT: return "creat"; case OP_READ: return "read";
    case OP_WRITE: return "write"; case OP_CLOSE: return "close"; case OP_FSYNC: return "fsync";
    case OP_TRUNC: return "trunc"; case OP_UNLINK: return "unlink"; case OP_RENAME: return "rename";
    case OP_MKDIR: return "mkdir"; case OP_COPY: return "copy"; }
  return "?";
}
static int opidx(unsigned op) { int i = 0; while (op >>= 1) i++; return i; }

static void logline(const char *fmt, ...) {
  if (!logbuf || loglen > LOGSZ - 600) return;
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(logbuf + loglen, 590, fmt, ap); va_end(ap);
  if (n > 0) loglen += n < 590 ? n : 589;
}

/* public control interface ------------------------------------------------ */
void fi_reset(void) { nrules = 0; opseq = 0; memset(opcount, 0, sizeof opcount); loglen = 0; }
void fi_arm(const char *pfx) {
  if (!logbuf) logbuf = malloc(LOGSZ);
  snprintf(prefix, sizeof prefix, "%s", pfx); prefix_len = strlen(prefix); armed = 1;
}
void fi_disarm(void) { armed = 0; }
void fi_limit(long n) { oplimit = n; }
int fi_rule(unsigned mask, const char *sub, long nth, long count, int action, int err, long arg) {
  if (nrules >= MAXRULE) return -1;
  Rule *r = &rules[nrules++]; memset(r, 0, sizeof *r);
  r->mask = mask; snprintf(r->sub, sizeof r->sub, "%s", sub); r->nth = nth; r->count = count;
  r->action = action; r->err = err; r->arg = arg; return nrules - 1;
}
void fi_clear_rules(void) { nrules = 0; }
long fi_hits(int i) { return i < nrules ? rules[i].hits : -1; }
long fi_seen(int i) { return i < nrules ? rules[i].seen : -1; }
long fi_opcount(int i) { return opcount[i & 15]; }
long fi_opseq(void) { return opseq; }
const char *fi_log(void) { if (logbuf) logbuf[loglen] = 0; return logbuf ? logbuf : ""; }

/* path tracking ----------------------------------------------------------- */
static const char *match_path(const char *p) {
  static char buf[2048];
  if (!armed || !p) return 0;
  if (p[0] != '/') {
    char cwd[1024];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(buf, sizeof buf, "%s/%s", cwd, p); p = buf;
  }
  if (strncmp(p, prefix, prefix_len) == 0) { return p + prefix_len; }
  return 0;
}
static const char *match_fd(int fd) {
  if (!armed || fd < 0 || fd >= MAXFD) return 0;
  return fdpath[fd];
}
static void track(int fd, const char *rel) {
  if (fd < 0 || fd >= MAXFD) return;
  if (fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
  if (rel) fdpath[fd] = strdup(rel);
}

static void die(int code) { fflush(NULL); _exit(code); }

/* returns 0: proceed with *count bytes; -1: fail with errno set.  torn: caller must do the write then die */
static int step(unsigned op, const char *rel, size_t *count, int *torn) {
  *torn = 0;
  opseq++; opcount[opidx(op)]++;
  if (oplimit && opseq > oplimit) die(78);
  for (int i = 0; i < nrules; i++) {
    Rule *r = &rules[i];
    if (!(r->mask & op)) continue;
    if (r->sub[0] && !strstr(rel, r->sub)) continue;
    r->seen++;
    if (r->action == A_QUOTA) {
      if (op != OP_WRITE && op != OP_COPY) continue;
      long room = r->arg - r->used;
      if (room <= 0) { r->hits++; logline("%ld %s %s QUOTA-ENOSPC\n", opseq, opname(op), rel); errno = r->err; return -1; }
      if (count && (long)*count > room) { *count = room; r->hits++; logline("%ld %s %s QUOTA-SHORT %ld\n", opseq, opname(op), rel, room); }
      if (count) r->used += *count;
      continue;
    }
    int fire = r->action == A_STICKY ? r->seen >= r->nth : (r->seen >= r->nth && r->seen < r->nth + r->count);
    if (!fire) continue;
    switch (r->action) {
      case A_CHUNK: /* never more than so many bytes at once */
        if (count && (long)*count > r->arg) { *count = r->arg; r->hits++; }
        break;
      case A_ERR: case A_STICKY:
        r->hits++; logline("%ld %s %s FAULT errno=%d\n", opseq, opname(op), rel, r->err); errno = r->err; return -1;
      case A_SHORT:
        if (count && *count > 1) { size_t n = *count * (size_t)r->arg / 100; if (n < 1) n = 1;
          if (n < *count) { *count = n; r->hits++; logline("%ld %s %s FAULT short %zu\n", opseq, opname(op), rel, n); } }
        break;
      case A_KILL:
        r->hits++; logline("%ld %s %s FAULT kill\n", opseq, opname(op), rel); die(r->err);
      case A_TORN:
        r->hits++;
        if (count && *count > 1) { size_t n = *count * (size_t)r->arg / 100; if (n < 1) n = 1; *count = n; *torn = r->err; }
        else die(r->err);
        break;
    }
  }
  return 0;
}

/* open family ------------------------------------------------------------- */
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
static int do_open(const char *path, int flags, mode_t mode) {
  LOAD(open64);
  const char *rel = match_path(path); int torn;
  char relc[1024];
  if (rel) {
    snprintf(relc, sizeof relc, "%s", rel);
    unsigned op = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? OP_CREAT : OP_OPEN;
    if (flags & O_DIRECTORY) op = OP_OPEN;
    if (step(op, relc, 0, &torn)) return -1;
  }
  int fd = real_open64(path, flags, mode);
  if (rel) { int e = errno; track(fd, relc); logline("%ld open %s %x -> %s\n", opseq, relc, flags & 0x3ff, fd >= 0 ? "ok" : "err"); errno = e; }
  else if (fd >= 0) track(fd, 0);
  return fd;
}
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, flags, m); }
int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, flags, m); }
int __open64_2(const char *p, int flags) { return do_open(p, flags, 0); }
static int do_openat(int dfd, const char *p, int flags, mode_t m) {
  LOAD(openat64);
  if (p[0] == '/' || dfd == AT_FDCWD) return do_open(p, flags, m);
  int fd = real_openat64(dfd, p, flags, m); if (fd >= 0) track(fd, 0); return fd;
}
int openat64(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_openat(d, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_openat(d, p, flags, m); }

REAL(int, close, int);
int close(int fd) {
  LOAD(close); const char *rel = match_fd(fd); int torn;
  if (rel) {
    int bad = step(OP_CLOSE, rel, 0, &torn); int e = errno;
    char *old = fdpath[fd]; fdpath[fd] = 0; int r = real_close(fd); free(old);
    if (bad) { errno = e; return -1; }   /* descriptor is released, the error is reported: Linux semantics */
    return r;
  }
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
  return real_close(fd);
}

/* data ---------------------------------------------------------------- */
REAL(ssize_t, read, int, void *, size_t);
ssize_t read(int fd, void *b, size_t n) {
  LOAD(read); const char *rel = match_fd(fd); int torn;
  if (rel && step(OP_READ, rel, &n, &torn)) return -1;
  return real_read(fd, b, n);
}
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  LOAD(pread64); const char *rel = match_fd(fd); int torn;
  if (rel && step(OP_READ, rel, &n, &torn)) return -1;
  return real_pread64(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
REAL(ssize_t, write, int, const void *, size_t);
ssize_t write(int fd, const void *b, size_t n) {
  LOAD(write); const char *rel = match_fd(fd); int torn = 0;
  if (rel && step(OP_WRITE, rel, &n, &torn)) return -1;
  ssize_t r = real_write(fd, b, n);
  if (rel) logline("%ld write %s %zd\n", opseq, rel, r);
  if (torn) die(torn);
  return r;
}
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  LOAD(pwrite64); const char *rel = match_fd(fd); int torn = 0;
  if (rel && step(OP_WRITE, rel, &n, &torn)) return -1;
  ssize_t r = real_pwrite64(fd, b, n, o);
  if (rel) logline("%ld pwrite %s @%ld %zd\n", opseq, rel, (long)o, r);
  if (torn) die(torn);
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *iov, int c) {
  LOAD(writev); const char *rel = match_fd(fd); int torn = 0; size_t n = 0;
  if (rel && c > 0) { n = iov[0].iov_len; if (step(OP_WRITE, rel, &n, &torn)) return -1;
    if (n < iov[0].iov_len) { ssize_t r = write(fd, iov[0].iov_base, n); if (torn) die(torn); return r; } }
  return real_writev(fd, iov, c);
}
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  LOAD(sendfile64); const char *rel = match_fd(out); int torn = 0;
  if (rel && step(OP_COPY, rel, &n, &torn)) return -1;
  ssize_t r = real_sendfile64(out, in, o, n); if (torn) die(torn); return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, (off64_t *)o, n); }
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  LOAD(copy_file_range); const char *rel = match_fd(out); int torn = 0;
  if (rel && step(OP_COPY, rel, &n, &torn)) return -1;
  ssize_t r = real_copy_file_range(in, oi, out, oo, n, f); if (torn) die(torn); return r;
}
REAL(int, fsync, int); REAL(int, fdatasync, int); REAL(int, ftruncate64, int, off64_t);
int fsync(int fd) { LOAD(fsync); const char *rel = match_fd(fd); int t; if (rel && step(OP_FSYNC, rel, 0, &t)) return -1; return rel ? 0 : real_fsync(fd); }
int fdatasync(int fd) { LOAD(fdatasync); const char *rel = match_fd(fd); int t; if (rel && step(OP_FSYNC, rel, 0, &t)) return -1; return rel ? 0 : real_fdatasync(fd); }
int ftruncate64(int fd, off64_t l) { LOAD(ftruncate64); const char *rel = match_fd(fd); int t; if (rel && step(OP_TRUNC, rel, 0, &t)) return -1; if (rel) logline("%ld ftruncate %s %ld\n", opseq, rel, (long)l); return real_ftruncate64(fd, l); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }

/* names --------------------------------------------------------------- */
REAL(int, unlink, const char *);
int unlink(const char *p) { LOAD(unlink); const char *rel = match_path(p); int t; if (rel) { logline("%ld unlink %s\n", opseq + 1, rel); if (step(OP_UNLINK, rel, 0, &t)) return -1; } return real_unlink(p); }
REAL(int, rename, const char *, const char *);
int rename(const char *a, const char *b) { LOAD(rename); const char *rel = match_path(b); int t; if (rel) { logline("%ld rename -> %s\n", opseq + 1, rel); if (step(OP_RENAME, rel, 0, &t)) return -1; } return real_rename(a, b); }
REAL(int, mkdir, const char *, mode_t);
int mkdir(const char *p, mode_t m) { LOAD(mkdir); const char *rel = match_path(p); int t; if (rel) { logline("%ld mkdir %s\n", opseq + 1, rel); if (step(OP_MKDIR, rel, 0, &t)) return -1; } return real_mkdir(p, m); }

/* stdio opens (used by C readers) ------------------------------------------ */
REAL(FILE *, fopen64, const char *, const char *);
FILE *fopen64(const char *p, const char *m) { LOAD(fopen64); const char *rel = match_path(p); int t; if (rel && step(m[0] == 'r' && !strchr(m, '+') ? OP_OPEN : OP_CREAT, rel, 0, &t)) return 0; return real_fopen64(p, m); }
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }

/* simulated clock ----------------------------------------------------------
 * wall = base + drift; every reading advances it by step_ns; sleeps jump it. */
static int vclock = 0; static int64_t v_wall = 0, v_mono_off = 0, v_step = 0, v_total = 0; static long v_reads = 0;
REAL(int, clock_gettime, clockid_t, struct timespec *);
void ft_enable(int64_t wall_ns, int64_t step_ns) { vclock = 1; v_wall = wall_ns; v_step = step_ns; v_total = 0; v_reads = 0; }
void ft_disable(void) { vclock = 0; }
void ft_jump(int64_t ns) { v_wall += ns; }
int64_t ft_elapsed(void) { return v_total; }
long ft_reads(void) { return v_reads; }
static uint64_t v_rng = 0; static long v_every = 0, v_jumps = 0;
/* about one reading out of every jumps the clock, by up to +-three days */
void ft_jumps(uint64_t seed, long every) { v_rng = seed | 1; v_every = every; v_jumps = 0; }
long ft_jumped(void) { return v_jumps; }
static int64_t v_now(void) {
  if (v_every) {
    v_rng ^= v_rng << 13; v_rng ^= v_rng >> 7; v_rng ^= v_rng << 17;
    if (v_rng % v_every == 0) { v_jumps++; v_wall += (int64_t)((v_rng >> 20) % 518400) * 1000000000 - 259200000000000LL; if (v_wall < 0) v_wall = 0; }
  }
  v_reads++; v_wall += v_step; v_total += v_step < 0 ? -v_step : v_step; return v_wall; }
static void v_sleep(int64_t ns) { v_wall += ns; v_total += ns; v_mono_off += ns; }
int clock_gettime(clockid_t c, struct timespec *t) {
  LOAD(clock_gettime);
  if (vclock && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { int64_t n = v_now(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
  int r = real_clock_gettime(c, t);
  if (vclock && r == 0 && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
    int64_t n = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec + v_mono_off; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; }
  return r;
}
REAL(int, gettimeofday, struct timeval *, void *);
int gettimeofday(struct timeval *tv, void *tz) { LOAD(gettimeofday); if (vclock) { int64_t n = v_now(); tv->tv_sec = n / 1000000000; tv->tv_usec = (n % 1000000000) / 1000; return 0; } return real_gettimeofday(tv, tz); }
REAL(time_t, time, time_t *);
time_t time(time_t *t) { LOAD(time); if (vclock) { time_t s = v_now() / 1000000000; if (t) *t = s; return s; } return real_time(t); }
REAL(int, nanosleep, const struct timespec *, struct timespec *);
int nanosleep(const struct timespec *a, struct timespec *b) { LOAD(nanosleep); if (vclock) { v_sleep((int64_t)a->tv_sec * 1000000000 + a->tv_nsec); return 0; } return real_nanosleep(a, b); }
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  LOAD(clock_nanosleep);
  if (vclock) { int64_t ns = (int64_t)a->tv_sec * 1000000000 + a->tv_nsec;
    if (fl & TIMER_ABSTIME) { struct timespec n; clock_gettime(c, &n); ns -= (int64_t)n.tv_sec * 1000000000 + n.tv_nsec; }
    if (ns > 0) v_sleep(ns); return 0; }
  return real_clock_nanosleep(c, fl, a, b);
}
