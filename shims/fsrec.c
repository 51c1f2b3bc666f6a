/* Recorder of file operations (LD_PRELOAD).
 * Every operation on a regular file below the working directory that can change it is performed and
 * appended to FSREC_LOG under one lock, so that the log is the order in which the file system saw them.
 *   FSREC_CRASH=n      die immediately before the n-th such operation (1-based)
 *   FSREC_CRASHNEAR=s:n  ... before the n-th operation on a file whose name contains s
 *   FSREC_PARTIAL=1    ... if it is a write, after writing half of it
 *   FSREC_DELAY=s:ms,. every write to a file whose name contains s is delayed
 *   FSREC_START=k:ms,. the k-th thread created starts only after ms (k = 0: every thread, random up to ms)
 *   FSREC_JITTER=us    random pause before every recorded operation
 *   FSREC_SEED=n       seed of the random pauses
 * Nothing is redirected: the caller's working directory must be a scratch directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NFD 8192
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char *path_of[NFD];
static int logfd = -1;
static long nops, crash_at, partial, jitter;
static unsigned long seed = 88172645463325252UL;
static int nthreads;
static char cwd[4096];
static char near_name[256];
static long near_at, near_ops;

static unsigned long rnd(void) {
  unsigned long x = __sync_add_and_fetch(&seed, 0x9E3779B97F4A7C15UL);
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9UL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBUL;
  return x ^ (x >> 31);
}
static void pause_us(long us) {
  if (us <= 0) return;
  struct timespec t = { us / 1000000, (us % 1000000) * 1000 };
  nanosleep(&t, 0);
}
static long num(const char *k) { const char *s = getenv(k); return s ? atol(s) : 0; }

__attribute__((constructor)) static void init(void) {
  const char *l = getenv("FSREC_LOG");
  if (!l) return;
  int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
  if (logfd < 0) logfd = fd; else syscall(SYS_close, fd);
  crash_at = num("FSREC_CRASH"); partial = num("FSREC_PARTIAL"); jitter = num("FSREC_JITTER");
  const char *nn = getenv("FSREC_CRASHNEAR");
  if (nn && strrchr(nn, ':')) {
    near_at = atol(strrchr(nn, ':') + 1);
    snprintf(near_name, sizeof near_name, "%.*s", (int)(strrchr(nn, ':') - nn), nn);
  }
  seed ^= (unsigned long)num("FSREC_SEED") * 0x2545F4914F6CDD1DUL;
  if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
}

static void emit(const char *op, const char *a, const char *b, const void *data, size_t n, long x) {
  if (logfd < 0) return;
  size_t cap = 2 * n + 2 * 4096 + 200;
  char *o = malloc(cap);
  int k = snprintf(o, cap, "%ld %ld %s %ld %s %s ", nops, (long)syscall(SYS_gettid), op, x, a, b ? b : "-");
  const unsigned char *d = data;
  for (size_t i = 0; i < n; i++) { o[k++] = "0123456789abcdef"[d[i] >> 4]; o[k++] = "0123456789abcdef"[d[i] & 15]; }
  o[k++] = '\n';
  syscall(SYS_write, logfd, o, k);
  free(o);
}
/* name relative to the working directory, or 0 */
static const char *rel(const char *p) {
  if (p[0] != '/') { while (p[0] == '.' && p[1] == '/') p += 2; return p; }
  size_t n = strlen(cwd);
  if (n && !strncmp(p, cwd, n) && p[n] == '/') return p + n + 1;
  return 0;
}
static void delay(const char *name) {
  const char *s = getenv("FSREC_DELAY");
  char buf[1024];
  if (s && name) {
    strncpy(buf, s, sizeof buf - 1); buf[sizeof buf - 1] = 0;
    for (char *q, *t = strtok_r(buf, ",", &q); t; t = strtok_r(0, ",", &q)) {
      char *c = strrchr(t, ':');
      if (!c) continue;
      *c = 0;
      if (strstr(name, t)) pause_us(1000 * atol(c + 1));
    }
  }
  if (jitter) pause_us(rnd() % (jitter + 1));
}
/* counts the operation; is it the one not to be performed any more? */
static int fatal(const char *a, const char *b) {
  nops++;
  if (near_at && ((a && strstr(a, near_name)) || (b && strstr(b, near_name))) && ++near_ops == near_at) return 1;
  return crash_at && nops == crash_at;
}
static void maybe_die(const char *a, const char *b) { if (fatal(a, b)) syscall(SYS_exit_group, 137); }

static int do_open(int dir, const char *p, int flags, int mode) {
  const char *r = rel(p);
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  struct stat st;
  int old = r && stat(p, &st) == 0;
  if (logfd < 0 || !r || !wr || (old && !S_ISREG(st.st_mode)) || (flags & (O_DIRECTORY | O_PATH)))
    return syscall(SYS_openat, dir, p, flags, mode);
  delay(0);
  pthread_mutex_lock(&mu);
  maybe_die(r, 0);
  int fd = syscall(SYS_openat, dir, p, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < NFD) { free(path_of[fd]); path_of[fd] = strdup(r); }
  emit("open", r, (flags & O_TRUNC) ? "trunc" : (flags & O_APPEND) ? "append" : "keep", 0, 0, fd < 0 ? -1 : old);
  pthread_mutex_unlock(&mu);
  errno = e;
  return fd;
}
#define OPENER(name) int name(const char *p, int flags, ...) { int m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } \
  return do_open(AT_FDCWD, p, flags, m); }
OPENER(open)
OPENER(open64)
#define OPENERAT(name) int name(int d, const char *p, int flags, ...) { int m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } \
  return do_open(d, p, flags, m); }
OPENERAT(openat)
OPENERAT(openat64)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }

static const char *tracked(int fd) { return fd >= 0 && fd < NFD && logfd >= 0 ? path_of[fd] : 0; }

static ssize_t do_write(int fd, const void *b, size_t n, off_t at, int pos) {
  const char *p = tracked(fd);
  if (!p) return pos ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
  delay(p);
  pthread_mutex_lock(&mu);
  if (fatal(p, 0)) {
    if (partial && n > 1) {
      syscall(SYS_write, fd, b, n / 2);
      emit("write", p, pos ? "at" : "-", b, n / 2, n / 2);
    }
    syscall(SYS_exit_group, 137);
  }
  ssize_t r = pos ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
  int e = errno;
  emit("write", p, pos ? "at" : "-", b, r > 0 ? r : 0, pos ? (long)at : (long)r);
  pthread_mutex_unlock(&mu);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
int close(int fd) {
  if (tracked(fd)) {
    pthread_mutex_lock(&mu);
    free(path_of[fd]); path_of[fd] = 0;
    pthread_mutex_unlock(&mu);
  }
  return syscall(SYS_close, fd);
}
static int two(const char *op, const char *a, const char *b, long sys) {
  const char *ra = rel(a), *rb = rel(b);
  if (logfd < 0 || (!ra && !rb)) return syscall(sys, AT_FDCWD, a, AT_FDCWD, b, 0);
  delay(0);
  pthread_mutex_lock(&mu);
  maybe_die(a, b);
  int r = syscall(sys, AT_FDCWD, a, AT_FDCWD, b, 0);
  int e = errno;
  emit(op, ra ? ra : a, rb ? rb : b, 0, 0, r);
  pthread_mutex_unlock(&mu);
  errno = e;
  return r;
}
int rename(const char *a, const char *b) { return two("rename", a, b, SYS_renameat2); }
int link(const char *a, const char *b) { return two("link", a, b, SYS_linkat); }
int renameat(int d, const char *a, int f, const char *b) { (void)d; (void)f; return two("rename", a, b, SYS_renameat2); }
static int one(const char *op, const char *a, long x) {
  const char *r = rel(a);
  int wat = !strcmp(op, "unlink");
  if (logfd < 0 || !r) return wat ? syscall(SYS_unlinkat, AT_FDCWD, a, 0) : syscall(SYS_truncate, a, x);
  delay(0);
  pthread_mutex_lock(&mu);
  maybe_die(r, 0);
  int k = wat ? syscall(SYS_unlinkat, AT_FDCWD, a, 0) : syscall(SYS_truncate, a, x);
  int e = errno;
  emit(op, r, "-", 0, 0, wat ? k : x);
  pthread_mutex_unlock(&mu);
  errno = e;
  return k;
}
int unlink(const char *a) { return one("unlink", a, 0); }
int truncate(const char *a, off_t n) { return one("truncate", a, n); }
int truncate64(const char *a, off64_t n) { return one("truncate", a, n); }
static int ftr(int fd, off_t n) {
  const char *p = tracked(fd);
  if (!p) return syscall(SYS_ftruncate, fd, n);
  delay(p);
  pthread_mutex_lock(&mu);
  maybe_die(p, 0);
  int r = syscall(SYS_ftruncate, fd, n);
  int e = errno;
  emit("truncate", p, "-", 0, 0, n);
  pthread_mutex_unlock(&mu);
  errno = e;
  return r;
}
int ftruncate(int fd, off_t n) { return ftr(fd, n); }
int ftruncate64(int fd, off64_t n) { return ftr(fd, n); }

/* late thread starts */
struct start { void *(*f)(void *); void *a; long us; };
static void *starter(void *x) {
  struct start s = *(struct start *)x;
  free(x);
  pause_us(s.us);
  return s.f(s.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  const char *s = getenv("FSREC_START");
  if (!s) return real(t, at, f, a);
  int k = __sync_add_and_fetch(&nthreads, 1);
  long us = 0;
  char buf[512];
  strncpy(buf, s, sizeof buf - 1); buf[sizeof buf - 1] = 0;
  for (char *q, *w = strtok_r(buf, ",", &q); w; w = strtok_r(0, ",", &q)) {
    char *c = strchr(w, ':');
    if (!c) continue;
    long ms = atol(c + 1);
    if (atoi(w) == k) us = 1000 * ms;
    else if (atoi(w) == 0) us = (long)(rnd() % (1000 * (unsigned long)ms + 1));
  }
  struct start *st = malloc(sizeof *st);
  st->f = f; st->a = a; st->us = us;
  return real(t, at, starter, st);
}
