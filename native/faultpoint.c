/* LD_PRELOAD shim: numbers every file-system mutation under a prefix and, at a
 * chosen one, kills the process (before it, after it, or half-way through a
 * write) or makes it fail with ENOSPC.  Inert until vf_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/uio.h>

static int armed = 0;
static long counter = 0, target = -1;
static int mode = 0; /* 0 kill before, 1 kill after, 2 torn write then kill, 3 ENOSPC */
static long span = 1;
static char prefix[4096];
static unsigned char tracked[4096];
static long counts[8];

void vf_arm(long t, int m, long sp, const char *p) {
  counter = 0; target = t; mode = m; span = sp;
  strncpy(prefix, p, sizeof(prefix) - 1);
  memset(tracked, 0, sizeof(tracked));
  memset(counts, 0, sizeof(counts));
  armed = 1;
}
long vf_disarm(void) { armed = 0; return counter; }
long vf_count(int kind) { return counts[kind]; }

static int under(const char *path) {
  return armed && path && strncmp(path, prefix, strlen(prefix)) == 0;
}
/* returns: 0 proceed, 1 kill after, 2 torn, 3 fail */
static int hit(int kind) {
  counts[kind]++;
  long c = counter++;
  if (target < 0 || c < target) return 0;
  if (mode == 3) return c < target + span ? 3 : 0;
  if (c != target) return 0;
  if (mode == 0) _exit(77);
  return mode;
}
#define REAL(name) ((typeof(name) *)dlsym(RTLD_NEXT, #name))

static int do_open(const char *fn, int (*real)(const char *, int, ...), const char *path, int flags, mode_t md) {
  if (!under(path) || (flags & O_ACCMODE) == O_RDONLY) return real(path, flags, md);
  int h = hit(0);
  if (h == 3) { errno = ENOSPC; return -1; }
  int fd = real(path, flags, md);
  if (h) _exit(77);
  if (fd >= 0 && fd < (int)sizeof(tracked)) tracked[fd] = 1;
  return fd;
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t md = va_arg(ap, int); va_end(ap);
  return do_open("open", (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"), path, flags, md);
}
int open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t md = va_arg(ap, int); va_end(ap);
  return do_open("open64", (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"), path, flags, md);
}
ssize_t write(int fd, const void *buf, size_t n) {
  ssize_t (*real)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (!armed || fd < 0 || fd >= (int)sizeof(tracked) || !tracked[fd]) return real(fd, buf, n);
  int h = hit(1);
  if (h == 0) return real(fd, buf, n);
  if (h == 2) { if (n / 2) real(fd, buf, n / 2); _exit(77); }
  if (h == 3) {
    if (n >= 2) { static int flip; if (flip ^= 1) return real(fd, buf, n / 2); }
    errno = ENOSPC; return -1;
  }
  real(fd, buf, n);
  _exit(77);
}
int close(int fd) {
  int (*real)(int) = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < (int)sizeof(tracked)) tracked[fd] = 0;
  return real(fd);
}
int mkdir(const char *path, mode_t md) {
  int (*real)(const char *, mode_t) = dlsym(RTLD_NEXT, "mkdir");
  if (!under(path)) return real(path, md);
  int h = hit(2);
  if (h == 3) { errno = ENOSPC; return -1; }
  int r = real(path, md);
  if (h) _exit(77);
  return r;
}
int rename(const char *a, const char *b) {
  int (*real)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
  if (!under(b) && !under(a)) return real(a, b);
  int h = hit(3);
  if (h == 3) { errno = ENOSPC; return -1; }
  int r = real(a, b);
  if (h) _exit(77);
  return r;
}
int unlink(const char *a) {
  int (*real)(const char *) = dlsym(RTLD_NEXT, "unlink");
  if (!under(a)) return real(a);
  int h = hit(4);
  if (h == 3) { errno = EIO; return -1; }
  int r = real(a);
  if (h) _exit(77);
  return r;
}
