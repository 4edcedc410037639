/* LD_PRELOAD shim: observes file operations below one directory and injects a
 * crash, a torn write, an I/O error or a pause at the n-th of them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, KILL_BEFORE = 1, TORN = 2, ENOSPC_ONCE = 3, ENOSPC_ALL = 4, PAUSE = 5, DELAY = 6 };
static char prefix[2048];
static char pausefile[2048];
static int target = -1, mode = OFF, count = 0, full = 0;
static unsigned char tracked[4096];

void shim_arm(const char *p, int t, int m, const char *pf) {
  strncpy(prefix, p, sizeof prefix - 1);
  strncpy(pausefile, pf, sizeof pausefile - 1);
  target = t; mode = m; count = 0; full = 0;
}
int shim_count(void) { return count; }
void shim_disarm(void) { target = -1; mode = OFF; full = 0; prefix[0] = 0; }

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int under(const char *path) {
  return prefix[0] && path && strncmp(path, prefix, strlen(prefix)) == 0;
}
static void wait_for_go(void) {
  char buf[2100];
  snprintf(buf, sizeof buf, "%s.at", pausefile);
  static int (*o)(const char *, int, ...);
  if (!o) o = dlsym(RTLD_NEXT, "open");
  int fd = o(buf, O_CREAT | O_WRONLY, 0600);
  if (fd >= 0) { static int (*c)(int); if (!c) c = dlsym(RTLD_NEXT, "close"); c(fd); }
  snprintf(buf, sizeof buf, "%s.go", pausefile);
  struct stat st;
  for (int i = 0; i < 60000 && stat(buf, &st) != 0; i++) usleep(1000);
}
/* Returns 0 proceed, 1 fail with ENOSPC, 2 do half then die. */
static int event(int is_write) {
  count++;
  if (mode == DELAY) { usleep(200 + (unsigned)(count * 7919 + getpid()) % 2000); return 0; }
  if (full && is_write) return 1;
  if (count != target) return 0;
  switch (mode) {
    case KILL_BEFORE: kill(getpid(), SIGKILL); pause(); return 0;
    case TORN: return 2;
    case ENOSPC_ONCE: return 1;
    case ENOSPC_ALL: full = 1; return 1;
    case PAUSE: wait_for_go(); return 0;
  }
  return 0;
}
static void die(void) { kill(getpid(), SIGKILL); pause(); }

#define OPENBODY(NAME, CALL) \
  mode_t md = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); } \
  int w = (flags & O_ACCMODE) != O_RDONLY && under(path); \
  int v = w ? event(1) : 0; \
  if (v == 1) { errno = ENOSPC; return -1; } \
  int fd = CALL; \
  if (v == 2) die(); \
  if (w && fd >= 0 && fd < 4096) tracked[fd] = 1; \
  return fd;

int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); OPENBODY(open, real_open(path, flags, md)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); OPENBODY(open64, real_open64(path, flags, md)) }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); OPENBODY(openat, real_openat(d, path, flags, md)) }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); OPENBODY(openat64, real_openat64(d, path, flags, md)) }

ssize_t write(int fd, const void *buf, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    int v = event(1);
    if (v == 1) { errno = ENOSPC; return -1; }
    if (v == 2) { real_write(fd, buf, n / 2); die(); }
  }
  return real_write(fd, buf, n);
}
int close(int fd) {
  REAL(int, close, int);
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    tracked[fd] = 0;
    int v = event(0);
    int r = real_close(fd);
    if (v == 2) die();
    if (v == 1) { errno = ENOSPC; return -1; }
    return r;
  }
  return real_close(fd);
}
int fsync(int fd) {
  REAL(int, fsync, int);
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    int v = event(0);
    if (v == 1) { errno = ENOSPC; return -1; }
    if (v == 2) die();
  }
  return real_fsync(fd);
}
int ftruncate(int fd, off_t n) {
  REAL(int, ftruncate, int, off_t);
  if (fd >= 0 && fd < 4096 && tracked[fd]) {
    int v = event(1);
    if (v == 1) { errno = ENOSPC; return -1; }
    int r = real_ftruncate(fd, n);
    if (v == 2) die();
    return r;
  }
  return real_ftruncate(fd, n);
}
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  if (under(b)) {
    int v = event(0);
    if (v == 1) { errno = ENOSPC; return -1; }
    int r = real_rename(a, b);
    if (v == 2) die();
    return r;
  }
  return real_rename(a, b);
}
int unlink(const char *a) {
  REAL(int, unlink, const char *);
  if (under(a)) {
    int v = event(0);
    if (v == 1) { errno = ENOSPC; return -1; }
    int r = real_unlink(a);
    if (v == 2) die();
    return r;
  }
  return real_unlink(a);
}
