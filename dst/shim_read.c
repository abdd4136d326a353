/* Interposes read/readv: for one file (name ends with SHIM_FILE), every read from the SHIM_NTH-th on fails with EIO. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static char last_path[4096];
static int seen;

static int hit(int fd) {
  const char *want = getenv("SHIM_FILE");
  const char *nth = getenv("SHIM_NTH");
  char link[64], path[4096];
  if (!want || !nth) return 0;
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0) return 0;
  path[n] = 0;
  size_t k = strlen(want);
  if ((size_t)n < k || strcmp(path + n - k, want)) return 0;
  strcpy(last_path, path);
  return seen++ >= atoi(nth);
}

ssize_t read(int fd, void *buf, size_t count) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  if (hit(fd)) { errno = EIO; return -1; }
  return real(fd, buf, count);
}

ssize_t readv(int fd, const struct iovec *iov, int n) {
  static ssize_t (*real)(int, const struct iovec *, int);
  if (!real) real = dlsym(RTLD_NEXT, "readv");
  if (hit(fd)) { errno = EIO; return -1; }
  return real(fd, iov, n);
}
