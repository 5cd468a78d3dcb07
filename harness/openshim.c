// Preloaded into a tool: notes every path it opens (R or W), creates, renames or removes, and every process it starts.
//   KWS_O_LOG   file that gets one line per call: a letter, a blank, the path
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static void note(char what, const char *p) {
  const char *log = getenv("KWS_O_LOG");
  if (!log || !p) return;
  int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  char b[5000];
  int n = snprintf(b, sizeof b, "%c %s\n", what, p);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, fd, b, n);
  syscall(SYS_close, fd);
}
static char mode_of(const char *m) { return strpbrk(m, "wa+") ? 'W' : 'R'; }
static char flags_of(int f) { return (f & O_ACCMODE) != O_RDONLY || (f & (O_CREAT | O_TRUNC)) ? 'W' : 'R'; }
#define REAL(name) (dlsym(RTLD_NEXT, name))

FILE *fopen(const char *p, const char *m) { note(mode_of(m), p); return ((FILE * (*)(const char *, const char *)) REAL("fopen"))(p, m); }
FILE *fopen64(const char *p, const char *m) { note(mode_of(m), p); return ((FILE * (*)(const char *, const char *)) REAL("fopen64"))(p, m); }
FILE *freopen(const char *p, const char *m, FILE *f) { note(mode_of(m), p ? p : "?"); return ((FILE * (*)(const char *, const char *, FILE *)) REAL("freopen"))(p, m, f); }
FILE *freopen64(const char *p, const char *m, FILE *f) { note(mode_of(m), p ? p : "?"); return ((FILE * (*)(const char *, const char *, FILE *)) REAL("freopen64"))(p, m, f); }
FILE *tmpfile(void) { note('W', "(tmpfile)"); return ((FILE * (*)(void)) REAL("tmpfile"))(); }
FILE *popen(const char *c, const char *m) { note('X', c); return ((FILE * (*)(const char *, const char *)) REAL("popen"))(c, m); }
#define OPEN(name) int name(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); note(flags_of(flags), p); return syscall(SYS_openat, AT_FDCWD, p, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); note(flags_of(flags), p); return syscall(SYS_openat, d, p, flags, m); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { note('W', p); return syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int mkstemp(char *t) { note('W', t); return ((int (*)(char *)) REAL("mkstemp"))(t); }
int truncate(const char *p, off_t n) { note('W', p); return syscall(SYS_truncate, p, n); }
int unlink(const char *p) { note('U', p); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int remove(const char *p) { note('U', p); return ((int (*)(const char *)) REAL("remove"))(p); }
int rmdir(const char *p) { note('U', p); return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int rename(const char *p, const char *q) { note('W', p); note('W', q); return syscall(SYS_renameat, AT_FDCWD, p, AT_FDCWD, q); }
int link(const char *p, const char *q) { note('W', q); return syscall(SYS_linkat, AT_FDCWD, p, AT_FDCWD, q, 0); }
int symlink(const char *p, const char *q) { note('W', q); return syscall(SYS_symlinkat, p, AT_FDCWD, q); }
int mkdir(const char *p, mode_t m) { note('W', p); return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int chmod(const char *p, mode_t m) { note('W', p); return syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int system(const char *c) { note('X', c ? c : "?"); return ((int (*)(const char *)) REAL("system"))(c); }
int execve(const char *p, char *const v[], char *const e[]) { note('X', p); return syscall(SYS_execve, p, v, e); }
pid_t fork(void) { note('X', "(fork)"); return ((pid_t (*)(void)) REAL("fork"))(); }
int socket(int a, int b, int c) { note('X', "(socket)"); return syscall(SYS_socket, a, b, c); }
