/* LD_PRELOAD monitor: logs file-changing calls of every process of a run and
 * injects faults into them.
 *  IOT_LOG    file the events are appended to
 *  IOT_MATCH  only paths that contain this text are counted / faulted
 *  IOT_FAULT  "<n>:<errno>[:sticky]"  n-th matching write fails
 *  IOT_KILL   "<n>"  the process is killed at the n-th matching event
 * Counting is per process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

static int inited, logfd = -1, nfault = -1, ferr, sticky, nkill = -1, nwrites, nevents;
static const char *match;
static void init(void)
{
  const char *s;
  if (inited) return;
  inited = 1;
  match = getenv("IOT_MATCH");
  if ((s = getenv("IOT_LOG"))) {
    int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
    if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 700); syscall(SYS_close, fd); }
  }
  if ((s = getenv("IOT_FAULT"))) { nfault = atoi(s); s = strchr(s, ':'); if (s) { ferr = atoi(s + 1); sticky = strstr(s, "sticky") != NULL; } }
  if ((s = getenv("IOT_KILL"))) nkill = atoi(s);
}
static void fdpath(int fd, char *b, size_t n)
{
  char l[64]; ssize_t r;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  r = syscall(SYS_readlinkat, AT_FDCWD, l, b, n - 1);
  b[r < 0 ? 0 : r] = 0;
}
static int hit(const char *p) { return !match || strstr(p, match) != NULL; }
static void ev(const char *op, const char *p, const char *p2, long n)
{
  char b[2 * PATH_MAX + 64]; int l;
  if (logfd >= 0) {
    l = snprintf(b, sizeof b, "%d %s %s %s %ld\n", (int)getpid(), op, p, p2 ? p2 : "-", n);
    syscall(SYS_write, logfd, b, l);
  }
  if (hit(p)) { nevents++; if (nkill >= 0 && nevents == nkill) { syscall(SYS_kill, getpid(), SIGKILL); } }
}
static int fail(const char *p)
{
  if (!hit(p)) return 0;
  nwrites++;
  if (nfault >= 0 && (nwrites == nfault || (sticky && nwrites >= nfault))) {
    ev("FAULT", p, 0, nwrites);
    errno = ferr; return 1;
  }
  return 0;
}
#define PRE char p[PATH_MAX]; int reg; init(); fdpath(fd, p, sizeof p); reg = p[0] == '/' && strncmp(p, "/dev", 4) && strncmp(p, "/proc", 5)
static int shm(const char *p) { return !strncmp(p, "/dev/shm/verif", 14); }
ssize_t write(int fd, const void *b, size_t n)
{ char p[PATH_MAX]; init(); fdpath(fd, p, sizeof p);
  if (p[0] == '/' && (shm(p) || (strncmp(p, "/dev", 4) && strncmp(p, "/proc", 5)))) { ev("write", p, 0, n); if (fail(p)) return -1; }
  return syscall(SYS_write, fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ char p[PATH_MAX]; init(); fdpath(fd, p, sizeof p);
  if (p[0] == '/' && (shm(p) || (strncmp(p, "/dev", 4) && strncmp(p, "/proc", 5)))) { ev("write", p, 0, n); if (fail(p)) return -1; }
  return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
int close(int fd)
{ char p[PATH_MAX]; init(); if (fd == logfd && fd >= 0) return 0; fdpath(fd, p, sizeof p);
  if (p[0] == '/' && (shm(p) || (strncmp(p, "/dev", 4) && strncmp(p, "/proc", 5)))) ev("close", p, 0, 0);
  return syscall(SYS_close, fd); }
static const char *absol(const char *f, char *b)
{ if (f[0] == '/') return f; char c[PATH_MAX]; if (syscall(SYS_getcwd, c, sizeof c) < 0) return f; snprintf(b, 2 * PATH_MAX, "%s/%s", c, f); return b; }
int unlink(const char *f) { char b[2 * PATH_MAX]; init(); ev("unlink", absol(f, b), 0, 0); return syscall(SYS_unlinkat, AT_FDCWD, f, 0); }
int remove(const char *f) { char b[2 * PATH_MAX]; init(); ev("unlink", absol(f, b), 0, 0); return syscall(SYS_unlinkat, AT_FDCWD, f, 0); }
int unlinkat(int d, const char *f, int fl) { char b[2 * PATH_MAX]; init(); ev("unlink", absol(f, b), 0, fl); return syscall(SYS_unlinkat, d, f, fl); }
int rename(const char *a, const char *c) { char b[2 * PATH_MAX], b2[2 * PATH_MAX]; init(); ev("rename", absol(a, b), absol(c, b2), 0); return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, c); }
int ftruncate64(int fd, off64_t o)
{ char p[PATH_MAX]; init(); fdpath(fd, p, sizeof p); ev("ftruncate", p, 0, o); if (fail(p)) return -1; return syscall(SYS_ftruncate, fd, o); }
int ftruncate(int fd, off_t o) { return ftruncate64(fd, o); }
static int op(int d, const char *f, int fl, int m)
{ int fd, w = fl & (O_WRONLY | O_RDWR); char b[2 * PATH_MAX]; init();
  fd = syscall(SYS_openat, d, f, fl, m);
  if (w && fd >= 0 && (strncmp(f, "/dev/", 5) || shm(f))) { int e = errno; ev("openw", absol(f, b), 0, fl); errno = e; }
  return fd; }
#define MODE int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
int open(const char *f, int fl, ...) { MODE return op(AT_FDCWD, f, fl, m); }
int open64(const char *f, int fl, ...) { MODE return op(AT_FDCWD, f, fl | O_LARGEFILE, m); }
int openat(int d, const char *f, int fl, ...) { MODE return op(d, f, fl, m); }
int openat64(int d, const char *f, int fl, ...) { MODE return op(d, f, fl | O_LARGEFILE, m); }
