/* LD_PRELOAD library: records, in the order in which they happen, the changes that
 * the process makes to the files below the directory CRASHLOG_DIR, in the file
 * CRASHLOG_OUT.  harness/src/crash.rs rebuilds from it what a disk can contain after
 * a crash at any moment.
 *
 * Records: a tag, then 64-bit numbers and strings (length, bytes):
 *   O ino path    a file was created        T ino len       truncated
 *   W ino off data                          S ino           fsync, fdatasync
 *   D path        fsync of a directory      R from to       renamed
 *   U path        removed                   L from to       hard link
 *   M path        directory made            X path          directory removed
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int out = -1;
static char dir[PATH_MAX];
static size_t dirlen;
static int kind[65536]; /* of a descriptor: 1 file, 2 directory, below the directory */

static int (*r_open)(const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_fsync)(int), (*r_fdatasync)(int), (*r_close)(int);
static int (*r_rename)(const char *, const char *), (*r_link)(const char *, const char *);
static int (*r_unlink)(const char *), (*r_rmdir)(const char *);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_ftruncate)(int, off_t);

static void init(void) {
  if (r_open) return;
  r_write = dlsym(RTLD_NEXT, "write");
  r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
  r_writev = dlsym(RTLD_NEXT, "writev");
  r_fsync = dlsym(RTLD_NEXT, "fsync");
  r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
  r_close = dlsym(RTLD_NEXT, "close");
  r_rename = dlsym(RTLD_NEXT, "rename");
  r_link = dlsym(RTLD_NEXT, "link");
  r_unlink = dlsym(RTLD_NEXT, "unlink");
  r_rmdir = dlsym(RTLD_NEXT, "rmdir");
  r_mkdir = dlsym(RTLD_NEXT, "mkdir");
  r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
  r_open = dlsym(RTLD_NEXT, "open64");
  const char *d = getenv("CRASHLOG_DIR"), *o = getenv("CRASHLOG_OUT");
  if (d && o) {
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    out = r_open(o, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  }
}
__attribute__((constructor)) static void start(void) { init(); }

static int inside(const char *p) {
  return out >= 0 && p && strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0);
}
static void put(char *b, size_t *n, const void *p, size_t l) { memcpy(b + *n, p, l); *n += l; }
static void num(char *b, size_t *n, uint64_t v) { put(b, n, &v, 8); }
static void emit(char tag, int nn, uint64_t a, uint64_t c, const void *s1, size_t l1, const void *s2, size_t l2) {
  size_t n = 0;
  char *b = malloc(64 + l1 + l2);
  b[n++] = tag;
  if (nn > 0) num(b, &n, a);
  if (nn > 1) num(b, &n, c);
  if (s1) { num(b, &n, l1); put(b, &n, s1, l1); }
  if (s2) { num(b, &n, l2); put(b, &n, s2, l2); }
  for (size_t k = 0; k < n;) {
    ssize_t w = r_write(out, b + k, n - k);
    if (w <= 0) break;
    k += w;
  }
  free(b);
}
static uint64_t ino(int fd) { struct stat s; return fstat(fd, &s) ? 0 : s.st_ino; }
#define IN(fd) ((fd) >= 0 && (fd) < 65536 && kind[fd])
#define LOCKED(...) do { int e_; pthread_mutex_lock(&lock); __VA_ARGS__; e_ = errno; pthread_mutex_unlock(&lock); errno = e_; } while (0)

static int do_open(const char *p, int flags, mode_t mode) {
  init();
  if (!inside(p)) return r_open(p, flags, mode);
  int fd;
  LOCKED({
    struct stat s;
    int had = stat(p, &s) == 0;
    fd = r_open(p, flags, mode);
    if (fd >= 0 && fd < 65536) {
      fstat(fd, &s);
      kind[fd] = S_ISDIR(s.st_mode) ? 2 : 1;
      if (!had) emit('O', 1, s.st_ino, 0, p, strlen(p), NULL, 0);
      else if (flags & O_TRUNC) emit('T', 2, s.st_ino, 0, NULL, 0, NULL, 0);
    }
  });
  return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(p, flags, m); }
int openat(int d, const char *p, int flags, ...) {
  MODE
  static int (*r)(int, const char *, int, ...);
  if (!r) r = dlsym(RTLD_NEXT, "openat");
  if (p[0] == '/') return do_open(p, flags, m);
  return r(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  MODE
  static int (*r)(int, const char *, int, ...);
  if (!r) r = dlsym(RTLD_NEXT, "openat64");
  if (p[0] == '/') return do_open(p, flags, m);
  return r(d, p, flags, m);
}
int close(int fd) {
  init();
  if (fd >= 0 && fd < 65536) kind[fd] = 0;
  return r_close(fd);
}
static off_t where(int fd) {
  if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat s; fstat(fd, &s); return s.st_size; }
  return lseek(fd, 0, SEEK_CUR);
}
ssize_t write(int fd, const void *b, size_t n) {
  init();
  if (!IN(fd)) return r_write(fd, b, n);
  ssize_t r;
  LOCKED({ off_t o = where(fd); r = r_write(fd, b, n); if (r > 0) emit('W', 2, ino(fd), o, b, r, NULL, 0); });
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  init();
  if (!IN(fd)) return r_writev(fd, v, n);
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
  init();
  if (!IN(fd)) return r_pwrite(fd, b, n, o);
  ssize_t r;
  LOCKED({ r = r_pwrite(fd, b, n, o); if (r > 0) emit('W', 2, ino(fd), o, b, r, NULL, 0); });
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
static int do_sync(int fd, int (*f)(int)) {
  if (!IN(fd)) return f(fd);
  int r;
  LOCKED({
    r = f(fd);
    if (r == 0) {
      if (kind[fd] == 1) emit('S', 1, ino(fd), 0, NULL, 0, NULL, 0);
      else {
        char l[64], p[PATH_MAX];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t k = readlink(l, p, sizeof p - 1);
        if (k > 0) emit('D', 0, 0, 0, p, k, NULL, 0);
      }
    }
  });
  return r;
}
int fsync(int fd) { init(); return do_sync(fd, r_fsync); }
int fdatasync(int fd) { init(); return do_sync(fd, r_fdatasync); }
static int do_trunc(int fd, off_t n) {
  init();
  if (!IN(fd)) return r_ftruncate(fd, n);
  int r;
  LOCKED({ r = r_ftruncate(fd, n); if (r == 0) emit('T', 2, ino(fd), n, NULL, 0, NULL, 0); });
  return r;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
int rename(const char *a, const char *b) {
  init();
  if (!inside(a) && !inside(b)) return r_rename(a, b);
  int r;
  LOCKED({ r = r_rename(a, b); if (r == 0) emit('R', 0, 0, 0, a, strlen(a), b, strlen(b)); });
  return r;
}
int link(const char *a, const char *b) {
  init();
  if (!inside(a) && !inside(b)) return r_link(a, b);
  int r;
  LOCKED({ r = r_link(a, b); if (r == 0) emit('L', 0, 0, 0, a, strlen(a), b, strlen(b)); });
  return r;
}
#define ONE(name, tag) \
  int name(const char *p) { \
    init(); \
    if (!inside(p)) return r_##name(p); \
    int r; \
    LOCKED({ r = r_##name(p); if (r == 0) emit(tag, 0, 0, 0, p, strlen(p), NULL, 0); }); \
    return r; \
  }
ONE(unlink, 'U')
ONE(rmdir, 'X')
int mkdir(const char *p, mode_t m) {
  init();
  if (!inside(p)) return r_mkdir(p, m);
  int r;
  LOCKED({ r = r_mkdir(p, m); if (r == 0) emit('M', 0, 0, 0, p, strlen(p), NULL, 0); });
  return r;
}
/* the library's own log file is written with stdio and of no importance */
