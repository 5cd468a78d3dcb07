// Preloaded into a tool: records which environment variables it asks for, and gives it another clock, process number,
// terminal, user and directory name.
//   KWS_E_LOG    file that gets the names asked for, one per line
//   KWS_E_ODD    non-zero: the answers below differ from the truth
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static char *find(const char *n) {
  size_t k = strlen(n);
  for (char **e = environ; e && *e; ++e) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
  return 0;
}
static long odd(void) { const char *s = find("KWS_E_ODD"); return s ? s[0] - '0' : 0; }
static void note(const char *n) {
  const char *f = find("KWS_E_LOG");
  if (!f || !n) return;
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  syscall(SYS_write, fd, n, strlen(n));
  syscall(SYS_write, fd, "\n", 1);
  syscall(SYS_close, fd);
}
char *getenv(const char *n) { note(n); return find(n); }
char *secure_getenv(const char *n) { note(n); return find(n); }
time_t time(time_t *t) {
  struct timespec s;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
  time_t v = odd() ? 86400L * 365 * 40 * odd() + 12345 : s.tv_sec;
  if (t) *t = v;
  return v;
}
int clock_gettime(clockid_t c, struct timespec *s) {
  int r = syscall(SYS_clock_gettime, c, s);
  if (!r && odd()) { s->tv_sec += 86400L * 365 * 20 * odd(); s->tv_nsec = 7; }
  return r;
}
int gettimeofday(struct timeval *v, void *z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  v->tv_sec = s.tv_sec; v->tv_usec = s.tv_nsec / 1000;
  return 0;
}
clock_t clock(void) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); return odd() ? 99999999 * odd() : s.tv_sec * 1000000 + s.tv_nsec / 1000; }
pid_t getpid(void) { return odd() ? 2 + odd() : syscall(SYS_getpid); }
int isatty(int fd) { (void)fd; return odd() ? 1 : 0; }
uid_t getuid(void) { return odd() ? 1234 : syscall(SYS_getuid); }
uid_t geteuid(void) { return odd() ? 1234 : syscall(SYS_geteuid); }
int gethostname(char *b, size_t n) { strncpy(b, odd() ? "other" : "host", n); return 0; }
char *getcwd(char *b, size_t n) {
  char *(*real)(char *, size_t) = dlsym(RTLD_NEXT, "getcwd");
  if (!b) return odd() ? strdup("/elsewhere") : real(b, n);
  if (!odd()) { if (syscall(SYS_getcwd, b, n) < 0) return 0; return b; }
  strncpy(b, "/elsewhere", n);
  return b;
}
long sysconf(int w) {
  long (*real)(int) = dlsym(RTLD_NEXT, "sysconf");
  return odd() && (w == _SC_NPROCESSORS_ONLN || w == _SC_NPROCESSORS_CONF) ? 1 + odd() * 40 : real(w);
}
