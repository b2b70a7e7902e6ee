// LD_PRELOAD shim: counts opens of one file and makes reads of its first M opens fail with EIO.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int opens, left[4096], armed[4096];
static ssize_t (*rread)(int, void *, size_t);
static int (*ropen)(const char *, int, ...);
static int (*rclose)(int);
static pthread_once_t once = PTHREAD_ONCE_INIT;
static void load(void) {
  rread = dlsym(RTLD_NEXT, "read");
  ropen = dlsym(RTLD_NEXT, "open64");
  rclose = dlsym(RTLD_NEXT, "close");
}
static void init(void) { pthread_once(&once, load); }
__attribute__((constructor)) static void start(void) { init(); }
static int hook(const char *p, int flags, int mode) {
  init();
  const char *t = getenv("SHIM_FILE");
  int fd = ropen(p, flags, mode);
  if (t && fd >= 0 && fd < 4096 && strstr(p, t)) {
    pthread_mutex_lock(&mu);
    int m = atoi(getenv("SHIM_FAILS") ? getenv("SHIM_FAILS") : "0");
    armed[fd] = opens < m;
    left[fd] = atoi(getenv("SHIM_AFTER") ? getenv("SHIM_AFTER") : "0");
    opens++;
    const char *lg = getenv("SHIM_LOG");
    if (lg) {
      int l = ropen(lg, O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (l >= 0) {
        char b[64];
        int n = snprintf(b, sizeof b, "open %d armed=%d\n", opens, armed[fd]);
        (void)!write(l, b, n);
        rclose(l);
      }
    }
    pthread_mutex_unlock(&mu);
  }
  return fd;
}
int open64(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
  va_end(a);
  return hook(p, flags, mode);
}
int open(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
  va_end(a);
  return hook(p, flags, mode);
}
int close(int fd) {
  init();
  if (fd >= 0 && fd < 4096) armed[fd] = 0;
  return rclose(fd);
}
ssize_t read(int fd, void *b, size_t n) {
  init();
  if (fd >= 0 && fd < 4096 && armed[fd]) {
    if (left[fd] <= 0) {
      errno = EIO;
      return -1;
    }
    // small reads so that failures can hit in the middle of a file
    if (n > 256) n = 256;
    left[fd]--;
  }
  return rread(fd, b, n);
}
