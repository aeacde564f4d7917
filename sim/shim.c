// Preloaded into the command-line tools: every file and standard-output operation first asks the
// simulator (socket on descriptor SIM_FD) what is to happen; random bytes come from the plan.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
enum { OPEN_R = 1, OPEN_W, READ, WRITE, RENAME, UNLINK, SYNC, TRUNC, MKDIR };
enum { GO = 0, FAIL, SHORT, KILL_BEFORE, KILL_AFTER };
struct req { uint8_t op; uint8_t out; uint16_t pad; int32_t fd; uint64_t len; char path[112]; };
struct rep { int32_t kind; int32_t pad; int64_t arg; };
static int sock = -1;
static uint64_t rng;
static unsigned char kind_of[1024];  // 1: file of the simulation, 2: standard output
#define R(f) ((__typeof__(&f))real(#f))
static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
static __attribute__((constructor)) void init(void) {
  // an endless loop ends by SIGXCPU
  struct rlimit cpu = {40, 40}, core = {0, 0};
  setrlimit(RLIMIT_CPU, &cpu); setrlimit(RLIMIT_CORE, &core);
  const char *s = getenv("SIM_FD"), *h = getenv("SIM_HASH");
  if (h) rng = strtoull(h, 0, 10);
  if (!s) return;
  sock = atoi(s);
  kind_of[1] = 2;
  // children of the tool, if any, run without the simulator
  unsetenv("LD_PRELOAD"); unsetenv("SIM_FD");
}
static struct rep ask(int op, int fd, uint64_t len, const char *path) {
  struct req q; struct rep r = {GO, 0, 0};
  memset(&q, 0, sizeof q);
  q.op = op; q.fd = fd; q.len = len; q.out = fd >= 0 && fd < 1024 && kind_of[fd] == 2;
  if (path) strncpy(q.path, path, sizeof q.path - 1);
  int e = errno;
  if (syscall(SYS_sendto, sock, &q, sizeof q, MSG_NOSIGNAL, 0, 0) != (long)sizeof q) _exit(99);
  size_t got = 0;
  while (got < sizeof r) {
    long n = syscall(SYS_recvfrom, sock, (char *)&r + got, sizeof r - got, 0, 0, 0);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) _exit(99);
    got += n;
  }
  errno = e;
  if (r.kind == KILL_BEFORE) { kill(getpid(), SIGKILL); for (;;) pause(); }
  return r;
}
static void die_if(struct rep r) { if (r.kind == KILL_AFTER) { kill(getpid(), SIGKILL); for (;;) pause(); } }
static int ours(int fd) { return sock >= 0 && fd >= 0 && fd < 1024 && kind_of[fd] && fd != sock; }
static int foreign(const char *p) {
  static const char *x[] = {"/proc/", "/sys/", "/dev/", "/etc/", "/usr/", "/lib", 0};
  for (int i = 0; x[i]; i++) if (!strncmp(p, x[i], strlen(x[i]))) return 1;
  return 0;
}
static int do_open(int dir, const char *p, int fl, mode_t m) {
  if (sock < 0 || foreign(p)) return syscall(SYS_openat, dir, p, fl, m);
  int w = (fl & O_ACCMODE) != O_RDONLY;
  struct rep r = ask(w ? OPEN_W : OPEN_R, -1, fl, p);
  if (r.kind == FAIL) { errno = r.arg; return -1; }
  int fd = syscall(SYS_openat, dir, p, fl, m);
  if (fd >= 0 && fd < 1024) kind_of[fd] = 1;
  die_if(r);
  return fd;
}
#define MODE va_list v; va_start(v, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v);
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (fd == sock && sock >= 0) { errno = EBADF; return -1; }
  if (fd > 2 && fd < 1024) kind_of[fd] = 0;
  return syscall(SYS_close, fd);
}
int dup(int fd) { int n = syscall(SYS_dup, fd); if (n >= 0 && n < 1024 && fd >= 0 && fd < 1024) kind_of[n] = kind_of[fd]; return n; }
ssize_t read(int fd, void *b, size_t n) {
  if (!ours(fd)) return syscall(SYS_read, fd, b, n);
  struct rep r = ask(READ, fd, n, 0);
  if (r.kind == FAIL) { errno = r.arg; return -1; }
  if (r.kind == SHORT && n > (size_t)r.arg) n = r.arg;
  ssize_t k = syscall(SYS_read, fd, b, n);
  die_if(r);
  return k;
}
static ssize_t put(int fd, const void *b, size_t n, int at, off_t o) {
  struct rep r = ask(WRITE, fd, n, 0);
  if (r.kind == FAIL) { errno = r.arg; return -1; }
  if ((r.kind == SHORT || r.kind == KILL_AFTER) && n > (size_t)r.arg) n = r.arg;
  ssize_t k = n == 0 ? 0 : at ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
  die_if(r);
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { return ours(fd) ? put(fd, b, n, 0, 0) : syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return ours(fd) ? put(fd, b, n, 1, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return put(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *o, size_t n) { errno = EINVAL; return -1; }
ssize_t sendfile64(int a, int b, off_t *o, size_t n) { errno = EINVAL; return -1; }
#define SIMPLE(op, path, len, call) \
  if (sock < 0) return call; \
  struct rep r = ask(op, -1, len, path); \
  if (r.kind == FAIL) { errno = r.arg; return -1; } \
  long k = call; die_if(r); return k;
int rename(const char *a, const char *b) { SIMPLE(RENAME, b, 0, syscall(SYS_rename, a, b)) }
int unlink(const char *a) { SIMPLE(UNLINK, a, 0, syscall(SYS_unlink, a)) }
int mkdir(const char *a, mode_t m) { SIMPLE(MKDIR, a, 0, syscall(SYS_mkdir, a, m)) }
int fsync(int fd) { SIMPLE(SYNC, 0, 0, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { SIMPLE(SYNC, 0, 0, syscall(SYS_fdatasync, fd)) }
int ftruncate(int fd, off_t n) { SIMPLE(TRUNC, 0, n, syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) {
    rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    p[i] = (unsigned char)(z ^ (z >> 31));
  }
  return n;
}
