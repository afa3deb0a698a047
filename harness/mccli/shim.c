// Interposed system calls. Settings come from the environment:
//  SHIM_READ_CHUNK=n        at most n bytes per read of descriptor 0
//  SHIM_READ_FAIL=k:errno   the k-th read of descriptor 0 fails once with errno
//  SHIM_WRITE_CHUNK=n       at most n bytes per write to descriptor 1
//  SHIM_WRITE_FAIL=k:errno  the k-th and (unless EINTR) every later write to descriptor 1 fails; errno 0 writes nothing
//  SHIM_SEED=n              getrandom returns bytes made from n
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long num(const char *name) {
  const char *s = getenv(name);
  return s ? atol(s) : -1;
}
static int fault(const char *name, long k, int *e) {
  const char *s = getenv(name);
  if (!s) return 0;
  char *colon = strchr(s, ':');
  *e = atoi(colon + 1);
  long at = atol(s);
  return k == at || (*e != EINTR && k > at);
}
static long reads, writes;

ssize_t read(int fd, void *b, size_t n) {
  if (fd == 0) {
    int e;
    if (fault("SHIM_READ_FAIL", ++reads, &e)) { errno = e; return -1; }
    long c = num("SHIM_READ_CHUNK");
    if (c > 0 && n > (size_t)c) n = c;
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd == 1) {
    int e;
    if (fault("SHIM_WRITE_FAIL", ++writes, &e)) { if (!e) return 0; errno = e; return -1; }
    long c = num("SHIM_WRITE_CHUNK");
    if (c > 0 && n > (size_t)c) n = c;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
  long s = num("SHIM_SEED");
  if (s < 0) return syscall(SYS_getrandom, b, n, flags);
  unsigned char *p = b;
  unsigned long x = 0x9e3779b97f4a7c15ul * (unsigned long)(s + 1);
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    p[i] = (unsigned char)(x >> 24);
  }
  return n;
}
