/* LD_PRELOAD: the process dies (as by kill -9) right before its n-th file-system change below a directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static char root[PATH_MAX];
static long at = -1, count, mode, who;
void killer_arm(const char *dir, long n, long m) {
  snprintf(root, sizeof root, "%s", dir ? dir : "");
  at = n;
  count = 0;
  mode = m;
  who = syscall(SYS_gettid); /* only this thread's changes are counted: those of helper threads are not deterministic */
}
long killer_count(void) { return count; }
static int below(const char *p) { return root[0] && p && !strncmp(p, root, strlen(root)); }
static int fdbelow(int fd) {
  char l[40], b[PATH_MAX];
  if (!root[0]) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long n = syscall(SYS_readlinkat, AT_FDCWD, l, b, sizeof b - 1);
  if (n <= 0) return 0;
  b[n] = 0;
  return below(b);
}
/* 1: write half and die; 0: die before the call */
static int mine(void) { return syscall(SYS_gettid) == who; }
static void hit(void) {
  if (!mine()) return;
  if (at >= 0 && __atomic_fetch_add(&count, 1, __ATOMIC_SEQ_CST) == at) _exit(77);
  else if (at < 0) __atomic_fetch_add(&count, 1, __ATOMIC_SEQ_CST);
}
static int torn(void) { return mode == 1 && mine() && at >= 0 && count == at; }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) *(void **)&real = dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (fd > 2 && fdbelow(fd)) {
    if (torn() && n > 1) real(fd, b, n / 2);
    hit();
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (fd > 2 && fdbelow(fd)) hit();
  return real(fd, v, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  if (fdbelow(fd)) {
    if (torn() && n > 1) real(fd, b, n / 2, o);
    hit();
  }
  return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  if (below(a) || below(b)) hit();
  return real(a, b);
}
int unlink(const char *a) {
  REAL(int, unlink, const char *);
  if (below(a)) hit();
  return real(a);
}
int unlinkat(int d, const char *a, int f) {
  REAL(int, unlinkat, int, const char *, int);
  if (below(a) || (d >= 0 && fdbelow(d))) hit();
  return real(d, a, f);
}
int remove(const char *a) {
  REAL(int, remove, const char *);
  if (below(a)) hit();
  return real(a);
}
int rmdir(const char *a) {
  REAL(int, rmdir, const char *);
  if (below(a)) hit();
  return real(a);
}
int mkdir(const char *a, mode_t m) {
  REAL(int, mkdir, const char *, mode_t);
  if (below(a)) hit();
  return real(a, m);
}
int link(const char *a, const char *b) {
  REAL(int, link, const char *, const char *);
  if (below(b)) hit();
  return real(a, b);
}
int ftruncate64(int fd, off64_t n) {
  REAL(int, ftruncate64, int, off64_t);
  if (fdbelow(fd)) hit();
  return real(fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int op(const char *p, int f) { return (f & (O_CREAT | O_TRUNC)) && below(p); }
int open64(const char *p, int f, ...) {
  REAL(int, open64, const char *, int, ...);
  va_list a;
  va_start(a, f);
  mode_t m = va_arg(a, mode_t);
  va_end(a);
  if (op(p, f)) hit();
  return real(p, f, m);
}
int open(const char *p, int f, ...) {
  va_list a;
  va_start(a, f);
  mode_t m = va_arg(a, mode_t);
  va_end(a);
  return open64(p, f, m);
}
FILE *fopen64(const char *p, const char *m) {
  REAL(FILE *, fopen64, const char *, const char *);
  if ((m[0] == 'w' || m[0] == 'a') && below(p)) hit();
  return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
  if (fdbelow(o)) hit();
  return real(o, i, f, n);
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) { return sendfile64(o, i, f, n); }
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (fdbelow(c)) hit();
  return real(a, b, c, d, n, f);
}
