// Preloaded into a tool: lets one operation on one file fail, or makes operations short or interrupted.
//   KWS_F_PATH  the file            KWS_F_OP  open read write close (or short, eintr: no failure)
//   KWS_F_K     which such operation fails (1 = first, 0 = none)      KWS_F_ERR  errno
//   KWS_F_LOG   file that gets "open N read N write N close N fired N"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *path, *op, *logname;
static long k, err_no, n_open, n_read, n_write, n_close, n_fired, tick;
static dev_t dev; static ino_t ino; static int known;

__attribute__((constructor)) static void init(void) {
  path = getenv("KWS_F_PATH"); op = getenv("KWS_F_OP"); logname = getenv("KWS_F_LOG");
  k = getenv("KWS_F_K") ? atol(getenv("KWS_F_K")) : 0;
  err_no = getenv("KWS_F_ERR") ? atol(getenv("KWS_F_ERR")) : EIO;
  if (!op) op = "";
}
__attribute__((destructor)) static void fini(void) {
  if (!logname) return;
  char b[200];
  int n = snprintf(b, sizeof b, "open %ld read %ld write %ld close %ld fired %ld\n", n_open, n_read, n_write, n_close, n_fired);
  int fd = syscall(SYS_openat, AT_FDCWD, logname, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
static int is_name(const char *p) { return path && p && !strcmp(p, path); }
static int is_fd(int fd) {
  struct stat s;
  if (!known || fd < 0 || fstat(fd, &s)) return 0;
  return s.st_dev == dev && s.st_ino == ino;
}
static void learn(int fd) {
  struct stat s;
  if (fd >= 0 && !fstat(fd, &s)) { dev = s.st_dev; ino = s.st_ino; known = 1; }
}
static int fires(const char *what, long *n) {
  ++*n;
  if (k && !strcmp(op, what) && *n == k) { ++n_fired; errno = err_no; return 1; }
  return 0;
}
static FILE *do_fopen(const char *name, const char *p, const char *m) {
  FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, name);
  if (!is_name(p)) return real(p, m);
  if (fires("open", &n_open)) return NULL;
  FILE *f = real(p, m);
  if (f) learn(fileno(f));
  return f;
}
FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }
static int do_open(const char *p, int flags, int mode) {
  if (!is_name(p)) return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
  if (fires("open", &n_open)) return -1;
  int fd = syscall(SYS_openat, AT_FDCWD, p, flags, mode);
  learn(fd);
  return fd;
}
int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return do_open(p, flags, m); }
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return do_open(p, flags | O_LARGEFILE, m); }

ssize_t read(int fd, void *b, size_t n) {
  if (is_fd(fd)) {
    if (fires("read", &n_read)) return -1;
    if (!strcmp(op, "short") && n > 3) { ++n_fired; n = 1 + (++tick * 7) % 700; }
    if (!strcmp(op, "eintr") && ++tick % 2) { ++n_fired; errno = EINTR; return -1; }
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (is_fd(fd)) {
    if (fires("write", &n_write)) return -1;
    if (!strcmp(op, "short") && n > 1) { ++n_fired; n = 1 + (++tick * 7) % (n - 1); }
    if (!strcmp(op, "eintr") && ++tick % 2) { ++n_fired; errno = EINTR; return -1; }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (is_fd(fd)) {
    if (fires("write", &n_write)) return -1;
    if (!strcmp(op, "short") && c > 0 && v[0].iov_len > 0) { ++n_fired; return syscall(SYS_write, fd, v[0].iov_base, 1 + (++tick * 7) % v[0].iov_len); }
    if (!strcmp(op, "eintr") && ++tick % 2) { ++n_fired; errno = EINTR; return -1; }
  }
  return syscall(SYS_writev, fd, v, c);
}
int fclose(FILE *f) {
  int (*real)(FILE *) = dlsym(RTLD_NEXT, "fclose");
  int hit = f && is_fd(fileno(f)), fire = hit && fires("close", &n_close);
  if (hit) known = 0;
  int r = real(f);
  if (fire) { errno = err_no; return EOF; }
  return r;
}
int close(int fd) {
  int hit = is_fd(fd), fire = hit && fires("close", &n_close);
  if (hit) known = 0;
  int r = syscall(SYS_close, fd);
  if (fire) { errno = err_no; return -1; }
  return r;
}
