/* Faults below a process's own file operations (LD_PRELOAD).

   Watches files under one directory and the standard output, numbers their
   operations, and applies the planned faults.  Does nothing until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN, READ, WRITE, CLOSE, SYNC, RENAME, UNLINK, TRUNCATE, COPY };
enum { ERR = 1, SHORT, KILL_BEFORE, KILL_AFTER, KILL_TORN, INT, STALL };
enum { NONE, INPUT, OUTPUT, STDOUT, OTHER };

#define MAXFD 4096
#define MAXOPS 20000
static int armed;
static char prefix[512];
static size_t prefix_len;
static unsigned char cls[MAXFD];
static int ops;
static int log_type[MAXOPS], log_cls[MAXOPS];
static long log_size[MAXOPS];
struct fault { int at, type, kind, n, done; long arg; };
static struct fault faults[64];
static int nfaults;

#define REAL(ret, name, args) \
  static ret(*real_##name) args; \
  if (!real_##name) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

void sim_reset(const char *dir) {
  armed = 0; ops = 0; nfaults = 0;
  snprintf(prefix, sizeof prefix, "%s/", dir);
  prefix_len = strlen(prefix);
  memset(cls, 0, sizeof cls);
  cls[1] = STDOUT;
}
void sim_fault(int at, int type, int kind, long arg, int n) {
  if (nfaults < 64) faults[nfaults++] = (struct fault){at, type, kind, n, 0, arg};
}
void sim_arm(int on) { armed = on; }
int sim_ops(void) { return ops; }
int sim_type(int i) { return i < MAXOPS ? log_type[i] : -1; }
int sim_cls(int i) { return i < MAXOPS ? log_cls[i] : -1; }
long sim_size(int i) { return i < MAXOPS ? log_size[i] : -1; }
int sim_fired(int i) { return faults[i].done; }
int sim_faults(void) { return nfaults; }

static int relative;
void sim_relative(int on) { relative = on; }

static int path_cls(const char *path) {
  const char *base;
  if (!path) return NONE;
  if (!strncmp(path, prefix, prefix_len)) base = path + prefix_len;
  else if (relative && path[0] == '.' && path[1] == '/') base = path + 2;
  else if (relative && path[0] != '/') base = path;
  else return NONE;
  if (strrchr(base, '/')) base = strrchr(base, '/') + 1;
  if (!strncmp(base, "in", 2)) return INPUT;
  if (!strncmp(base, "out", 3)) return OUTPUT;
  return OTHER;
}

/* Where to announce an operation and wait until it may go on. */
static int meet_out = -1, meet_in = -1;
void sim_meet(int out, int in) { meet_out = out; meet_in = in; }
static void meet(void) {
  int e = errno;
  char b = '.';
  if (write(meet_out, &b, 1) == 1)
    while (read(meet_in, &b, 1) < 0 && errno == EINTR)
      ;
  errno = e;
}

/* The fault that strikes this operation, or 0. */
static struct fault *next(int type, int c, long size) {
  if (meet_out >= 0) meet();
  int i = ops++;
  if (i < MAXOPS) { log_type[i] = type; log_cls[i] = c; log_size[i] = size; }
  for (int k = 0; k < nfaults; k++) {
    struct fault *f = &faults[k];
    if (f->at <= i && f->type == type && f->done < f->n) {
      f->done++;
      if (f->kind == KILL_BEFORE) { kill(getpid(), SIGKILL); _exit(137); }
      return f;
    }
  }
  return 0;
}
static void after(struct fault *f) {
  int e = errno;
  if (f && f->kind == KILL_AFTER) { kill(getpid(), SIGKILL); _exit(137); }
  if (f && f->kind == INT) raise(SIGINT);
  errno = e;
}
static int watched(int fd) { return armed && fd >= 0 && fd < MAXFD && cls[fd]; }

static int opened(int fd, int c) {
  if (fd >= 0 && fd < MAXFD) cls[fd] = c;
  return fd;
}
#define OPENER(name, params, argspre, call) \
  int name params { \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, argspre); \
    int c = armed ? path_cls(path) : NONE; \
    if (!c) { int fd = call; if (armed) opened(fd, NONE); return fd; } \
    struct fault *f = next(OPEN, c, flags); \
    if (f && f->kind == ERR) { errno = (int)f->arg; return -1; } \
    int fd = opened(call, c); \
    after(f); \
    return fd; \
  }
OPENER(open, (const char *path, int flags, ...), (const char *, int, ...), real_open(path, flags, mode))
OPENER(open64, (const char *path, int flags, ...), (const char *, int, ...), real_open64(path, flags, mode))
OPENER(openat, (int dir, const char *path, int flags, ...), (int, const char *, int, ...), real_openat(dir, path, flags, mode))
OPENER(openat64, (int dir, const char *path, int flags, ...), (int, const char *, int, ...), real_openat64(dir, path, flags, mode))

#define READER(name, params, types, fdv, count, call, shortcall) \
  ssize_t name params { \
    REAL(ssize_t, name, types); \
    if (!watched(fdv) || cls[fdv] == STDOUT) return call; \
    struct fault *f = next(READ, cls[fdv], (long)(count)); \
    if (f && f->kind == ERR) { errno = (int)f->arg; return -1; } \
    ssize_t r; \
    if (f && f->kind == SHORT && (size_t)f->arg < (size_t)(count)) r = shortcall; else r = call; \
    after(f); \
    return r; \
  }
READER(read, (int fd, void *b, size_t n), (int, void *, size_t), fd, n, real_read(fd, b, n), real_read(fd, b, (size_t)f->arg))
READER(pread64, (int fd, void *b, size_t n, off64_t o), (int, void *, size_t, off64_t), fd, n, real_pread64(fd, b, n, o), real_pread64(fd, b, (size_t)f->arg, o))

#define WRITER(name, params, types, fdv, count, call, shortcall) \
  ssize_t name params { \
    REAL(ssize_t, name, types); \
    if (!watched(fdv)) return call; \
    struct fault *f = next(WRITE, cls[fdv], (long)(count)); \
    if (f && f->kind == ERR) { errno = (int)f->arg; return -1; } \
    ssize_t r; \
    if (f && (f->kind == SHORT || f->kind == KILL_TORN) && (size_t)f->arg < (size_t)(count)) r = shortcall; else r = call; \
    if (f && f->kind == KILL_TORN) { kill(getpid(), SIGKILL); _exit(137); } \
    after(f); \
    return r; \
  }
WRITER(write, (int fd, const void *b, size_t n), (int, const void *, size_t), fd, n, real_write(fd, b, n), real_write(fd, b, (size_t)f->arg))
WRITER(pwrite64, (int fd, const void *b, size_t n, off64_t o), (int, const void *, size_t, off64_t), fd, n, real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, (size_t)f->arg, o))

ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, writev, (int, const struct iovec *, int));
  if (!watched(fd)) return real_writev(fd, v, n);
  struct fault *f = next(WRITE, cls[fd], n);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  ssize_t r = real_writev(fd, v, f && f->kind == SHORT && n > 1 ? 1 : n);
  after(f);
  return r;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, readv, (int, const struct iovec *, int));
  if (!watched(fd)) return real_readv(fd, v, n);
  struct fault *f = next(READ, cls[fd], n);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  ssize_t r = real_readv(fd, v, f && f->kind == SHORT && n > 1 ? 1 : n);
  after(f);
  return r;
}
int close(int fd) {
  REAL(int, close, (int));
  if (!watched(fd)) { return real_close(fd); }
  int c = cls[fd];
  cls[fd] = NONE;
  struct fault *f = next(CLOSE, c, 0);
  int r = real_close(fd);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  after(f);
  return r;
}
#define SYNCER(name) \
  int name(int fd) { \
    REAL(int, name, (int)); \
    if (!watched(fd)) return real_##name(fd); \
    struct fault *f = next(SYNC, cls[fd], 0); \
    if (f && f->kind == ERR) { errno = (int)f->arg; return -1; } \
    int r = real_##name(fd); \
    after(f); \
    return r; \
  }
SYNCER(fsync)
SYNCER(fdatasync)
int ftruncate64(int fd, off64_t n) {
  REAL(int, ftruncate64, (int, off64_t));
  if (!watched(fd)) return real_ftruncate64(fd, n);
  struct fault *f = next(TRUNCATE, cls[fd], (long)n);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  int r = real_ftruncate64(fd, n);
  after(f);
  return r;
}
int rename(const char *a, const char *b) {
  REAL(int, rename, (const char *, const char *));
  int c = armed ? path_cls(b) : NONE;
  if (!c) return real_rename(a, b);
  struct fault *f = next(RENAME, c, 0);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  int r = real_rename(a, b);
  after(f);
  return r;
}
int unlink(const char *a) {
  REAL(int, unlink, (const char *));
  int c = armed ? path_cls(a) : NONE;
  if (!c) return real_unlink(a);
  struct fault *f = next(UNLINK, c, 0);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  int r = real_unlink(a);
  after(f);
  return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t));
  if (!watched(o) && !watched(i)) return real_sendfile64(o, i, off, n);
  struct fault *f = next(COPY, watched(o) ? cls[o] : cls[i], (long)n);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  if (f && f->kind == SHORT && (size_t)f->arg < n) n = (size_t)f->arg;
  ssize_t r = real_sendfile64(o, i, off, n);
  after(f);
  return r;
}

ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned flags) {
  REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
  if (!watched(o) && !watched(i)) return real_copy_file_range(i, io, o, oo, n, flags);
  struct fault *f = next(COPY, watched(o) ? cls[o] : cls[i], (long)n);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  if (f && f->kind == SHORT && (size_t)f->arg < n) n = (size_t)f->arg;
  ssize_t r = real_copy_file_range(i, io, o, oo, n, flags);
  after(f);
  return r;
}
int renameat(int da, const char *a, int db, const char *b) {
  REAL(int, renameat, (int, const char *, int, const char *));
  int c = armed ? path_cls(b) : NONE;
  if (!c) return real_renameat(da, a, db, b);
  struct fault *f = next(RENAME, c, 0);
  if (f && f->kind == ERR) { errno = (int)f->arg; return -1; }
  int r = real_renameat(da, a, db, b);
  after(f);
  return r;
}
int dup(int fd) {
  REAL(int, dup, (int));
  return armed && fd >= 0 && fd < MAXFD ? opened(real_dup(fd), cls[fd]) : real_dup(fd);
}
int dup2(int a, int b) {
  REAL(int, dup2, (int, int));
  int r = real_dup2(a, b);
  if (armed && r >= 0 && a >= 0 && a < MAXFD) opened(b, cls[a]);
  return r;
}
