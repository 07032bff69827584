/* LD_PRELOAD interposer: after every mutating libc call it appends an image of
 * a directory tree to a log, so that each call boundary becomes a crash point.
 *
 * Record: 'S' <u32 len> <op and path> then entries: 'D' <u32 n><path>,
 * 'F' <u32 n><path><u64 n><bytes>, 'L' like F, closed by 'E';
 * or 'M' <i64 mark>.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile int active;
static char root[PATH_MAX];
static size_t root_len;
static int log_fd = -1;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static __thread int depth;

static char *buf;
static size_t buf_n, buf_cap;

static void put(const void *p, size_t n) {
  if (buf_n + n > buf_cap) {
    buf_cap = (buf_n + n) * 2 + 4096;
    buf = realloc(buf, buf_cap);
  }
  memcpy(buf + buf_n, p, n);
  buf_n += n;
}
static void put_str(const char *s) {
  uint32_t n = strlen(s);
  put(&n, 4);
  put(s, n);
}

static void walk(const char *dir) {
  DIR *d = opendir(dir);
  if (!d) return;
  struct dirent *e;
  while ((e = readdir(d))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[PATH_MAX];
    snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    struct stat st;
    if (lstat(p, &st)) continue;
    const char *rel = p + root_len + 1;
    if (S_ISDIR(st.st_mode)) {
      put("D", 1);
      put_str(rel);
      walk(p);
    } else if (S_ISREG(st.st_mode)) {
      put("F", 1);
      put_str(rel);
      uint64_t n = 0;
      size_t at = buf_n;
      put(&n, 8);
      int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY);
      if (fd >= 0) {
        char b[65536];
        ssize_t r;
        while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) {
          put(b, r);
          n += r;
        }
        syscall(SYS_close, fd);
      }
      memcpy(buf + at, &n, 8);
    }
  }
  closedir(d);
}

static void emit(void) {
  size_t o = 0;
  while (o < buf_n) {
    ssize_t r = syscall(SYS_write, log_fd, buf + o, buf_n - o);
    if (r <= 0) break;
    o += r;
  }
}

static void snap(const char *op, const char *path) {
  char what[PATH_MAX + 64];
  snprintf(what, sizeof what, "%s %s", op, path ? path : "");
  buf_n = 0;
  put("S", 1);
  put_str(what);
  walk(root);
  put("E", 1);
  emit();
}

int crashfs_start(const char *r, const char *log) {
  pthread_mutex_lock(&mu);
  snprintf(root, sizeof root, "%s", r);
  root_len = strlen(root);
  log_fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  depth++;
  snap("start", "");
  depth--;
  active = 1;
  pthread_mutex_unlock(&mu);
  return log_fd;
}
void crashfs_mark(int64_t m) {
  pthread_mutex_lock(&mu);
  if (active) {
    buf_n = 0;
    put("M", 1);
    put(&m, 8);
    emit();
  }
  pthread_mutex_unlock(&mu);
}
void crashfs_stop(void) {
  pthread_mutex_lock(&mu);
  active = 0;
  if (log_fd >= 0) syscall(SYS_close, log_fd);
  log_fd = -1;
  pthread_mutex_unlock(&mu);
}

static int in_root(const char *p) {
  if (!p) return 0;
  if (p[0] != '/') return 1; /* relative: look */
  return !strncmp(p, root, root_len);
}
static int fd_in_root(int fd, char *out) {
  char l[64];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  if (n <= 0) return 0;
  out[n] = 0;
  return !strncmp(out, root, root_len);
}

#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define GUARD(cond, call, op, path) \
  if (!active || depth || !(cond)) return call; \
  pthread_mutex_lock(&mu); \
  depth++; \
  __typeof__(call) r = call; \
  int e = errno; \
  if (active) snap(op, path); \
  errno = e; \
  depth--; \
  pthread_mutex_unlock(&mu); \
  return r;

#define PATH1(name, decl, args, path) \
  int name decl { REAL(name); GUARD(in_root(path), real args, #name, path) }

PATH1(rename, (const char *a, const char *b), (a, b), a)
PATH1(renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), a)
PATH1(renameat2, (int x, const char *a, int y, const char *b, unsigned f), (x, a, y, b, f), a)
PATH1(unlink, (const char *a), (a), a)
PATH1(unlinkat, (int d, const char *a, int f), (d, a, f), a)
PATH1(remove, (const char *a), (a), a)
PATH1(rmdir, (const char *a), (a), a)
PATH1(mkdir, (const char *a, mode_t m), (a, m), a)
PATH1(mkdirat, (int d, const char *a, mode_t m), (d, a, m), a)
PATH1(link, (const char *a, const char *b), (a, b), b)
PATH1(symlink, (const char *a, const char *b), (a, b), b)
PATH1(truncate, (const char *a, off_t n), (a, n), a)
PATH1(truncate64, (const char *a, off64_t n), (a, n), a)
PATH1(creat, (const char *a, mode_t m), (a, m), a)

#define OPENBODY(name, pathcond, ...) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); \
  } \
  REAL(name); \
  GUARD((flags & (O_CREAT | O_TRUNC)) && in_root(pathcond), real(__VA_ARGS__, flags, m), "open", pathcond)

int open(const char *p, int flags, ...) { OPENBODY(open, p, p) }
int open64(const char *p, int flags, ...) { OPENBODY(open64, p, p) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(openat, p, d, p) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(openat64, p, d, p) }

FILE *fopen(const char *p, const char *mode) {
  REAL(fopen);
  GUARD(mode[0] != 'r' && in_root(p), real(p, mode), "fopen", p)
}
FILE *fopen64(const char *p, const char *mode) {
  REAL(fopen64);
  GUARD(mode[0] != 'r' && in_root(p), real(p, mode), "fopen", p)
}

#define FD1(name, ret, decl, args) \
  ret name decl { \
    REAL(name); \
    char p[PATH_MAX]; p[0] = 0; \
    GUARD(fd_in_root(fd, p), real args, #name, p) \
  }
FD1(write, ssize_t, (int fd, const void *b, size_t n), (fd, b, n))
FD1(pwrite, ssize_t, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o))
FD1(pwrite64, ssize_t, (int fd, const void *b, size_t n, off64_t o), (fd, b, n, o))
FD1(writev, ssize_t, (int fd, const struct iovec *v, int n), (fd, v, n))
FD1(pwritev, ssize_t, (int fd, const struct iovec *v, int n, off_t o), (fd, v, n, o))
FD1(pwritev64, ssize_t, (int fd, const struct iovec *v, int n, off64_t o), (fd, v, n, o))
FD1(ftruncate, int, (int fd, off_t n), (fd, n))
FD1(ftruncate64, int, (int fd, off64_t n), (fd, n))

#define FP1(name, ret, decl, args) \
  ret name decl { \
    REAL(name); \
    char p[PATH_MAX]; p[0] = 0; \
    GUARD(fp && fd_in_root(fileno(fp), p), real args, #name, p) \
  }
FP1(fwrite, size_t, (const void *b, size_t s, size_t n, FILE *fp), (b, s, n, fp))
FP1(fflush, int, (FILE *fp), (fp))
FP1(fclose, int, (FILE *fp), (fp))
FP1(fputs, int, (const char *s, FILE *fp), (s, fp))
