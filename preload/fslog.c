/* LD_PRELOAD monitor and fault injector.
 *   MXLOG=file     one line per event: <ns> <pid> <op> <result> <errno> <path>[\t<path2>]
 *   MXACT=rules    ';'-separated <op>:<path substring>:<nth, 0 = every>:<action>, action being
 *                  E<errno>  the call fails;            D<us>   sleep before;      A<us>  sleep after;
 *                  K<sig>    raise before;              S<sig>  raise after;
 *                  U<path>   remove <path> before the call;   T<path> truncate <path> to 0 bytes before the call
 *                  P<file>   create <file> and wait until it is gone (rendezvous with the driver; gives up after 20 s)
 *                  Q<file>   the same after the call */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>

#define REAL(ret, name, args) static ret (*r_##name) args; if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)

static int logfd = -2;
static long n_hit[64];

static void ns_sleep(long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; while (nanosleep(&t, &t) < 0 && errno == EINTR) ; }

static void emit(const char *op, long res, int err, const char *p1, const char *p2)
{
  int save = errno;
  if (logfd == -2) {
    const char *f = getenv("MXLOG");
    logfd = f ? syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND, 0666) : -1;
    if (logfd >= 0) { int d = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900); if (d >= 0) { syscall(SYS_close, logfd); logfd = d; } }
  }
  if (logfd >= 0) {
    char b[9000];
    struct timespec t;
    int n;
    clock_gettime(CLOCK_MONOTONIC, &t);
    n = snprintf(b, sizeof b, "%lld %d %s %ld %d %s%s%s\n", (long long) t.tv_sec * 1000000000LL + t.tv_nsec, (int) getpid(), op, res, res < 0 ? err : 0,
                 p1 ? p1 : "", p2 ? "\t" : "", p2 ? p2 : "");
    if (n > (int) sizeof b) n = sizeof b;
    if (syscall(SYS_write, logfd, b, n) < 0) { }
  }
  errno = save;
}

static void rendezvous(const char *f)
{
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT, 0666), i;
  if (fd >= 0) syscall(SYS_close, fd);
  for (i = 0; i < 20000; i++) {
    if (syscall(SYS_faccessat, AT_FDCWD, f, F_OK) < 0) return;
    ns_sleep(1000);
  }
}

/* phase 0: before the call; returns an errno to fail with or 0.  phase 1: after it. */
static int act(const char *op, const char *path, int phase)
{
  const char *r = getenv("MXACT");
  int idx = 0, fail = 0, save = errno;
  char buf[8192], *s, *sv;
  if (!r || !path) return 0;
  snprintf(buf, sizeof buf, "%s", r);
  for (s = strtok_r(buf, ";", &sv); s; s = strtok_r(NULL, ";", &sv), idx++) {
    char *o = s, *p, *n, *a;
    if (!(p = strchr(o, ':'))) continue;
    *p++ = 0;
    if (!(n = strchr(p, ':'))) continue;
    *n++ = 0;
    if (!(a = strchr(n, ':'))) continue;
    *a++ = 0;
    if ((strcmp(o, op) && strcmp(o, "*")) || !strstr(path, p)) continue;
    if (phase == 0 && idx < 64) n_hit[idx]++;
    if (atoi(n) && idx < 64 && n_hit[idx] != atoi(n)) continue;
    if (phase == 0) {
      if (*a == 'E') fail = atoi(a + 1);
      else if (*a == 'D') ns_sleep(atol(a + 1));
      else if (*a == 'K') { emit("raise", atoi(a + 1), 0, path, NULL); raise(atoi(a + 1)); }
      else if (*a == 'U') { syscall(SYS_unlinkat, AT_FDCWD, a + 1, 0); emit("vanish", 0, 0, a + 1, NULL); }
      else if (*a == 'T') { syscall(SYS_truncate, a + 1, 0); emit("vanish", 0, 0, a + 1, NULL); }
      else if (*a == 'P') rendezvous(a + 1);
    } else {
      if (*a == 'A') ns_sleep(atol(a + 1));
      else if (*a == 'S') { emit("raise", atoi(a + 1), 0, path, NULL); raise(atoi(a + 1)); }
      else if (*a == 'Q') rendezvous(a + 1);
    }
  }
  errno = save;
  if (fail) emit("fault", fail, 0, op, path);
  return fail;
}

static void fdpath(int fd, char *b, size_t n)
{
  char l[64];
  ssize_t k;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  k = syscall(SYS_readlinkat, AT_FDCWD, l, b, n - 1);
  b[k < 0 ? 0 : k] = 0;
}

static const char *opname(int fl) { return (fl & O_CREAT) && (fl & O_EXCL) ? "openx" : (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)) ? "openw" : "open"; }

#define OPENLIKE(NAME) \
int NAME(const char *p, int fl, ...) { \
  int mode = 0, r, e; va_list ap; const char *op = opname(fl); \
  REAL(int, NAME, (const char *, int, ...)); \
  if (fl & (O_CREAT | __O_TMPFILE)) { va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); } \
  if ((e = act(op, p, 0))) { errno = e; emit(op, -1, e, p, NULL); return -1; } \
  r = r_##NAME(p, fl, mode); e = errno; emit(op, r, e, p, NULL); act(op, p, 1); errno = e; return r; }
OPENLIKE(open)
OPENLIKE(open64)

int openat(int d, const char *p, int fl, ...)
{
  int mode = 0, r, e; va_list ap; const char *op = opname(fl);
  REAL(int, openat, (int, const char *, int, ...));
  if (fl & (O_CREAT | __O_TMPFILE)) { va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
  if ((e = act(op, p, 0))) { errno = e; emit(op, -1, e, p, NULL); return -1; }
  r = r_openat(d, p, fl, mode); e = errno; emit(op, r, e, p, NULL); act(op, p, 1); errno = e; return r;
}
int creat(const char *p, mode_t m)
{
  int r, e;
  REAL(int, creat, (const char *, mode_t));
  if ((e = act("openw", p, 0))) { errno = e; emit("openw", -1, e, p, NULL); return -1; }
  r = r_creat(p, m); e = errno; emit("openw", r, e, p, NULL); act("openw", p, 1); errno = e; return r;
}
#define FOPENLIKE(NAME) \
FILE *NAME(const char *p, const char *m) { \
  FILE *r; int e; const char *op = (*m == 'r' && !strchr(m, '+')) ? "open" : strchr(m, 'x') ? "openx" : "openw"; \
  REAL(FILE *, NAME, (const char *, const char *)); \
  if ((e = act(op, p, 0))) { errno = e; emit(op, -1, e, p, NULL); return NULL; } \
  r = r_##NAME(p, m); e = errno; emit(op, r ? fileno(r) : -1, e, p, NULL); act(op, p, 1); errno = e; return r; }
FOPENLIKE(fopen)
FOPENLIKE(fopen64)
FILE *tmpfile(void)
{
  FILE *r; int e;
  REAL(FILE *, tmpfile, (void));
  if ((e = act("tmpfile", "tmpfile", 0))) { errno = e; emit("tmpfile", -1, e, "tmpfile", NULL); return NULL; }
  r = r_tmpfile(); e = errno; emit("tmpfile", r ? 0 : -1, e, "tmpfile", NULL); errno = e; return r;
}
#define P1(NAME, OP, TYPE, ARGS, CALL, PATH) \
TYPE NAME ARGS { TYPE r; int e; REAL(TYPE, NAME, ARGS); \
  if ((e = act(OP, PATH, 0))) { errno = e; emit(OP, -1, e, PATH, NULL); return (TYPE) -1; } \
  if (!strcmp(OP, "unlink") && strstr(PATH, ".lock")) emit("pre-unlink", 0, 0, PATH, NULL); \
  r = r_##NAME CALL; e = errno; emit(OP, (long) r, e, PATH, NULL); act(OP, PATH, 1); errno = e; return r; }
#define P2(NAME, OP, ARGS, CALL, A, B) \
int NAME ARGS { int r, e; REAL(int, NAME, ARGS); \
  if ((e = act(OP, B, 0))) { errno = e; emit(OP, -1, e, A, B); return -1; } \
  if (!strcmp(OP, "rename") && strstr(A, ".lock")) emit("pre-unlink", 0, 0, A, NULL); \
  r = r_##NAME CALL; e = errno; emit(OP, r, e, A, B); act(OP, B, 1); errno = e; return r; }
P1(unlink, "unlink", int, (const char *p), (p), p)
P1(remove, "unlink", int, (const char *p), (p), p)
P1(rmdir, "rmdir", int, (const char *p), (p), p)
P1(mkdir, "mkdir", int, (const char *p, mode_t m), (p, m), p)
P1(truncate, "truncate", int, (const char *p, off_t l), (p, l), p)
P1(chmod, "chmod", int, (const char *p, mode_t m), (p, m), p)
P1(stat, "stat", int, (const char *p, struct stat *b), (p, b), p)
P1(lstat, "lstat", int, (const char *p, struct stat *b), (p, b), p)
P2(link, "link", (const char *a, const char *b), (a, b), a, b)
P2(symlink, "symlink", (const char *a, const char *b), (a, b), a, b)
P2(rename, "rename", (const char *a, const char *b), (a, b), a, b)
int unlinkat(int d, const char *p, int f)
{
  int r, e;
  REAL(int, unlinkat, (int, const char *, int));
  if ((e = act("unlink", p, 0))) { errno = e; emit("unlink", -1, e, p, NULL); return -1; }
  if (strstr(p, ".lock")) emit("pre-unlink", 0, 0, p, NULL);
  r = r_unlinkat(d, p, f); e = errno; emit("unlink", r, e, p, NULL); act("unlink", p, 1); errno = e; return r;
}
int linkat(int da, const char *a, int db, const char *b, int f)
{
  int r, e;
  REAL(int, linkat, (int, const char *, int, const char *, int));
  if ((e = act("link", b, 0))) { errno = e; emit("link", -1, e, a, b); return -1; }
  r = r_linkat(da, a, db, b, f); e = errno; emit("link", r, e, a, b); act("link", b, 1); errno = e; return r;
}
int utimensat(int d, const char *p, const struct timespec t[2], int f)
{
  int r, e;
  REAL(int, utimensat, (int, const char *, const struct timespec *, int));
  r = r_utimensat(d, p, t, f); e = errno; emit("utime", r, e, p, NULL); errno = e; return r;
}
int ftruncate(int fd, off_t l)
{
  char b[4096]; int r, e;
  REAL(int, ftruncate, (int, off_t));
  fdpath(fd, b, sizeof b);
  if ((e = act("ftruncate", b, 0))) { errno = e; emit("ftruncate", -1, e, b, NULL); return -1; }
  r = r_ftruncate(fd, l); e = errno; emit("ftruncate", r, e, b, NULL); errno = e; return r;
}
DIR *opendir(const char *p)
{
  DIR *r; int e;
  REAL(DIR *, opendir, (const char *));
  if ((e = act("opendir", p, 0))) { errno = e; emit("opendir", -1, e, p, NULL); return NULL; }
  r = r_opendir(p); e = errno; emit("opendir", r ? 0 : -1, e, p, NULL); act("opendir", p, 1); errno = e; return r;
}
void *mmap(void *a, size_t l, int prot, int fl, int fd, off_t o)
{
  char b[4096] = ""; int e; void *r;
  REAL(void *, mmap, (void *, size_t, int, int, int, off_t));
  if (fd >= 0) {
    const char *op = (prot & PROT_WRITE) && (fl & MAP_SHARED) ? "mmapw" : "mmap";
    fdpath(fd, b, sizeof b);
    if ((e = act(op, b, 0))) { errno = e; emit(op, -1, e, b, NULL); return MAP_FAILED; }
    r = r_mmap(a, l, prot, fl, fd, o); e = errno; emit(op, r == MAP_FAILED ? -1 : 0, e, b, NULL); act(op, b, 1); errno = e; return r;
  }
  return r_mmap(a, l, prot, fl, fd, o);
}
void *gzopen(const char *p, const char *m)
{
  void *r; int e;
  REAL(void *, gzopen, (const char *, const char *));
  if ((e = act("zopen", p, 0))) { errno = e; emit("zopen", -1, e, p, NULL); return NULL; }
  r = r_gzopen(p, m); e = errno; emit("zopen", r ? 0 : -1, e, p, NULL); errno = e; return r;
}
void *BZ2_bzopen(const char *p, const char *m)
{
  void *r; int e;
  REAL(void *, BZ2_bzopen, (const char *, const char *));
  if ((e = act("zopen", p, 0))) { errno = e; emit("zopen", -1, e, p, NULL); return NULL; }
  r = r_BZ2_bzopen(p, m); e = errno; emit("zopen", r ? 0 : -1, e, p, NULL); errno = e; return r;
}
