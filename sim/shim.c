/* libftsim: the simulator's clock and disk seam, loaded with LD_PRELOAD.
 *
 * Clock: clock_gettime(CLOCK_REALTIME)/gettimeofday/time return simulated time once
 * ftsim_clock_on(); every read is counted and scripted jumps happen at chosen reads.
 * sleep calls advance simulated time and return at once.
 *
 * Disk: file operations below one root directory are offered to a callback before they
 * happen; the callback decides: go on, fail with an errno, do only part, or die here.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPENW = 1, OP_OPENR, OP_WRITE, OP_READ, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_MKDIR,
       OP_UNLINK, OP_RMDIR, OP_TRUNC, OP_LINK };

typedef long (*ft_cb_t)(int op, const char *path, const char *path2, long size);

#define ACT_EXIT (1L << 40)   /* ACT_EXIT + n : perform n bytes, then _exit(99) */

static volatile int disk_on = 0;
static char root[PATH_MAX];
static size_t root_len = 0;
static ft_cb_t cb = NULL;
static __thread int in_cb = 0;
#define MAXFD 4096
static char *fdpath[MAXFD];

static volatile int clock_on = 0;
static volatile int64_t sim_ns = 0;
static volatile int64_t tick_ns = 0;
static volatile int64_t reads = 0;
#define MAXJ 64
static int njump = 0;
static int64_t jump_at[MAXJ], jump_by[MAXJ];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = NULL; \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name);

/* ---------------------------------------------------------------- control */
void ftsim_clock_on(int on) { clock_on = on; }
void ftsim_clock_set(int64_t ns) { sim_ns = ns; }
int64_t ftsim_clock_get(void) { return sim_ns; }
void ftsim_clock_tick(int64_t ns) { tick_ns = ns; }
int64_t ftsim_clock_reads(void) { return reads; }
void ftsim_clock_reads_reset(void) { reads = 0; njump = 0; }
int ftsim_clock_jump(int64_t at, int64_t by) { if (njump >= MAXJ) return -1; jump_at[njump] = at; jump_by[njump] = by; njump++; return 0; }
void ftsim_disk_root(const char *r) { strncpy(root, r, PATH_MAX - 1); root_len = strlen(root); }
void ftsim_disk_cb(ft_cb_t f) { cb = f; }
void ftsim_disk_on(int on) { disk_on = on; }
int ftsim_present(void) { return 1; }

/* ---------------------------------------------------------------- clock */
static int64_t read_clock(void) {
  int64_t n = __atomic_add_fetch(&reads, 1, __ATOMIC_SEQ_CST);
  for (int i = 0; i < njump; i++) if (jump_at[i] == n) sim_ns += jump_by[i];
  sim_ns += tick_ns;
  return sim_ns;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec *)
  if (clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    int64_t n = read_clock(); ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL; return 0;
  }
  return real_clock_gettime(id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  REAL(int, gettimeofday, struct timeval *, void *)
  if (clock_on) { int64_t n = read_clock(); tv->tv_sec = n / 1000000000LL; tv->tv_usec = (n % 1000000000LL) / 1000; return 0; }
  return real_gettimeofday(tv, tz);
}
time_t time(time_t *t) {
  REAL(time_t, time, time_t *)
  if (clock_on) { time_t r = (time_t)(read_clock() / 1000000000LL); if (t) *t = r; return r; }
  return real_time(t);
}
static void adv(const struct timespec *ts) { sim_ns += (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
int nanosleep(const struct timespec *req, struct timespec *rem) {
  REAL(int, nanosleep, const struct timespec *, struct timespec *)
  if (clock_on) { adv(req); return 0; }
  return real_nanosleep(req, rem);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
  if (clock_on) {
    if (!(flags & TIMER_ABSTIME)) adv(req);
    else { struct timespec now; REAL(int, clock_gettime, clockid_t, struct timespec *)
      if (id == CLOCK_REALTIME) { int64_t t = (int64_t)req->tv_sec * 1000000000LL + req->tv_nsec; if (t > sim_ns) sim_ns = t; }
      else { real_clock_gettime(id, &now);
        int64_t d = ((int64_t)req->tv_sec - now.tv_sec) * 1000000000LL + (req->tv_nsec - now.tv_nsec);
        d = ((d + 500000) / 1000000) * 1000000; if (d > 0) sim_ns += d; } }
    return 0;
  }
  return real_clock_nanosleep(id, flags, req, rem);
}

/* ---------------------------------------------------------------- disk */
static int under_root(const char *abs) {
  return root_len && strncmp(abs, root, root_len) == 0 && (abs[root_len] == '/' || abs[root_len] == 0);
}
static const char *absolute(int dirfd, const char *path, char *buf) {
  if (!path) return NULL;
  if (path[0] == '/') return path;
  char base[PATH_MAX];
  if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return NULL; }
  else {
    char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(lk, base, sizeof base - 1); if (n < 0) return NULL; base[n] = 0;
  }
  if (snprintf(buf, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return NULL;
  return buf;
}
static long ask(int op, const char *p, const char *p2, long size) {
  if (!cb || in_cb) return 0;
  in_cb = 1;
  int e = errno;
  long r = cb(op, p, p2 ? p2 : "", size);
  errno = e;
  in_cb = 0;
  if (r >= ACT_EXIT && op != OP_WRITE) _exit(99);
  return r;
}
#define WATCH(abs) (disk_on && !in_cb && (abs) && under_root(abs))

static void track(int fd, const char *abs) {
  if (fd < 0 || fd >= MAXFD) return;
  char *o = fdpath[fd]; fdpath[fd] = strdup(abs); free(o);
}

static int do_openat(int dirfd, const char *path, int flags, mode_t mode) {
  REAL(int, openat, int, const char *, int, ...)
  char buf[PATH_MAX];
  const char *a = (disk_on && !in_cb) ? absolute(dirfd, path, buf) : NULL;
  if (!WATCH(a)) {
    int fd = real_openat(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
    return fd;
  }
  int w = (flags & O_ACCMODE) != O_RDONLY;
  long r = ask(w ? OP_OPENW : OP_OPENR, a, NULL, flags);
  if (r < 0) { errno = (int)-r; return -1; }
  int fd = real_openat(dirfd, path, flags, mode);
  if (fd >= 0) track(fd, a);
  return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_openat(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_openat(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dirfd, const char *path, int flags, ...) { GETMODE return do_openat(dirfd, path, flags, mode); }
int openat64(int dirfd, const char *path, int flags, ...) { GETMODE return do_openat(dirfd, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static const char *fdp(int fd) { return (disk_on && !in_cb && fd >= 0 && fd < MAXFD) ? fdpath[fd] : NULL; }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t)
  const char *p = fdp(fd);
  if (!p) return real_write(fd, b, n);
  long r = ask(OP_WRITE, p, NULL, (long)n);
  if (r < 0) { errno = (int)-r; return -1; }
  if (r >= ACT_EXIT) { long k = r - ACT_EXIT; if (k > (long)n) k = n; if (k) real_write(fd, b, k); _exit(99); }
  if (r > 0 && (size_t)r < n) n = r;
  return real_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
  const char *p = fdp(fd);
  if (!p) return real_pwrite(fd, b, n, o);
  long r = ask(OP_WRITE, p, NULL, (long)n);
  if (r < 0) { errno = (int)-r; return -1; }
  if (r >= ACT_EXIT) { long k = r - ACT_EXIT; if (k > (long)n) k = n; if (k) real_pwrite(fd, b, k, o); _exit(99); }
  if (r > 0 && (size_t)r < n) n = r;
  return real_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int)
  const char *p = fdp(fd);
  if (!p) return real_writev(fd, v, c);
  long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  long r = ask(OP_WRITE, p, NULL, n);
  if (r < 0) { errno = (int)-r; return -1; }
  if (r >= ACT_EXIT) _exit(99);
  return real_writev(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t)
  const char *p = fdp(fd);
  if (!p) return real_read(fd, b, n);
  long r = ask(OP_READ, p, NULL, (long)n);
  if (r < 0) { errno = (int)-r; return -1; }
  if (r > 0 && (size_t)r < n) n = r;
  return real_read(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  REAL(ssize_t, pread, int, void *, size_t, off_t)
  const char *p = fdp(fd);
  if (!p) return real_pread(fd, b, n, o);
  long r = ask(OP_READ, p, NULL, (long)n);
  if (r < 0) { errno = (int)-r; return -1; }
  return real_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t)
  const char *p = fdp(out);
  if (p) { long r = ask(OP_WRITE, p, NULL, (long)n); if (r < 0) { errno = (int)-r; return -1; } if (r >= ACT_EXIT) _exit(99); }
  return real_sendfile(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
int close(int fd) {
  REAL(int, close, int)
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
    const char *p = fdp(fd);
    long r = p ? ask(OP_CLOSE, p, NULL, 0) : 0;
    free(fdpath[fd]); fdpath[fd] = NULL;
    int k = real_close(fd);
    if (r < 0) { errno = (int)-r; return -1; }
    return k;
  }
  return real_close(fd);
}
int fsync(int fd) {
  REAL(int, fsync, int)
  const char *p = fdp(fd);
  if (p) { long r = ask(OP_FSYNC, p, NULL, 0); if (r < 0) { errno = (int)-r; return -1; } }
  return real_fsync(fd);
}
int fdatasync(int fd) {
  REAL(int, fdatasync, int)
  const char *p = fdp(fd);
  if (p) { long r = ask(OP_FSYNC, p, NULL, 0); if (r < 0) { errno = (int)-r; return -1; } }
  return real_fdatasync(fd);
}
#define TWO(name, op, ARGS, A, B, CALL) int name ARGS { \
  char b1[PATH_MAX], b2[PATH_MAX]; \
  const char *a = (disk_on && !in_cb) ? A : NULL; const char *z = a ? B : NULL; (void)b1; (void)b2; \
  if (WATCH(a) || (z && WATCH(z))) { long r = ask(op, a, z, 0); if (r < 0) { errno = (int)-r; return -1; } } \
  CALL }
TWO(rename, OP_RENAME, (const char *o, const char *n), absolute(AT_FDCWD, o, b1), absolute(AT_FDCWD, n, b2),
    REAL(int, rename, const char *, const char *) return real_rename(o, n);)
TWO(renameat, OP_RENAME, (int d1, const char *o, int d2, const char *n), absolute(d1, o, b1), absolute(d2, n, b2),
    REAL(int, renameat, int, const char *, int, const char *) return real_renameat(d1, o, d2, n);)
TWO(renameat2, OP_RENAME, (int d1, const char *o, int d2, const char *n, unsigned int f), absolute(d1, o, b1), absolute(d2, n, b2),
    REAL(int, renameat2, int, const char *, int, const char *, unsigned int) return real_renameat2(d1, o, d2, n, f);)
TWO(link, OP_LINK, (const char *o, const char *n), absolute(AT_FDCWD, o, b1), absolute(AT_FDCWD, n, b2),
    REAL(int, link, const char *, const char *) return real_link(o, n);)
TWO(mkdir, OP_MKDIR, (const char *o, mode_t m), absolute(AT_FDCWD, o, b1), NULL,
    REAL(int, mkdir, const char *, mode_t) return real_mkdir(o, m);)
TWO(mkdirat, OP_MKDIR, (int d, const char *o, mode_t m), absolute(d, o, b1), NULL,
    REAL(int, mkdirat, int, const char *, mode_t) return real_mkdirat(d, o, m);)
TWO(unlink, OP_UNLINK, (const char *o), absolute(AT_FDCWD, o, b1), NULL,
    REAL(int, unlink, const char *) return real_unlink(o);)
TWO(unlinkat, OP_UNLINK, (int d, const char *o, int f), absolute(d, o, b1), NULL,
    REAL(int, unlinkat, int, const char *, int) return real_unlinkat(d, o, f);)
TWO(rmdir, OP_RMDIR, (const char *o), absolute(AT_FDCWD, o, b1), NULL,
    REAL(int, rmdir, const char *) return real_rmdir(o);)
TWO(truncate, OP_TRUNC, (const char *o, off_t l), absolute(AT_FDCWD, o, b1), NULL,
    REAL(int, truncate, const char *, off_t) return real_truncate(o, l);)
int ftruncate(int fd, off_t l) {
  REAL(int, ftruncate, int, off_t)
  const char *p = fdp(fd);
  if (p) { long r = ask(OP_TRUNC, p, NULL, l); if (r < 0) { errno = (int)-r; return -1; } }
  return real_ftruncate(fd, l);
}
