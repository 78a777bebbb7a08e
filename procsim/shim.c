// Interposed libc for one simulated process: the address of every allocation,
// the entropy, the clock and the outcome of system calls are decided by SIM.
//   SIM="seed=N;alloc=0|1;src=DIR;log=FILE;faults=CLASS:N:COUNT:KIND:ARG,..."
// A fault makes the calls N, N+1, .. N+COUNT-1 (counted per class, from 0) of a
// class behave as KIND says. The log, written on exit, has the number of calls
// of each class, which faults fired, and a hash of all calls and their outcome.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>

enum { OPEN_SRC, OPEN_LIB, READ_SRC, READ_OTHER, WRITE_OUT, WRITE_ERR, MAPF, STAT, LINK, CWD, THREAD, RANDOM, CLOCK, ALLOC, DIRENT, WRITE_FILE, RENAME, NCLASS };
static const char *names[NCLASS] = {"open_src", "open_lib", "read_src", "read_other", "write_out", "write_err", "map_file", "stat", "link", "cwd", "thread", "random", "clock", "alloc", "dirent", "write_file", "rename"};
enum { FAIL, SHORT, ZERO, KILL, JUMP, STALL };
struct fault { int class, kind, arg; long first, count; long fired; };
static struct fault faults[32]; static int nfaults;
static long count[NCLASS];
#define THREADS 32
static uint64_t hash = 1469598103934665603ull, seed = 0, rstates[THREADS], ransrcs[THREADS];
static __thread int me; static int nthreads; // threads by order of creation: each has its own state, so that their interleaving does not matter
#define rstate rstates[me]
#define ransrc ransrcs[me]
static int ready, shuffle; static char src[512], logf_[512], waitf[512];
static char *fdsrc; // which descriptors are source files
static char fdsrc_[4096];
static long injected[NCLASS];

static uint64_t next(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int spin; static void lock(void) { while (__atomic_exchange_n(&spin, 1, __ATOMIC_ACQUIRE)) ; } static void unlock(void) { __atomic_store_n(&spin, 0, __ATOMIC_RELEASE); }

static void setup(void) {
  if (ready) return;
  extern char **environ; if (!environ) return;
  const char *e = 0; for (char **p = environ; *p; p++) if (!strncmp(*p, "SIM=", 4)) e = *p + 4;
  ready = 1; fdsrc = fdsrc_;
  if (!e) return;
  while (*e) {
    const char *end = strchr(e, ';'); if (!end) end = e + strlen(e);
    int n = end - e;
    #define KEY(k) (n > (int)strlen(k) && !strncmp(e, k, strlen(k)))
    if (KEY("seed=")) seed = strtoull(e + 5, 0, 10);
    else if (KEY("alloc=")) shuffle = e[6] == '1';
    else if (KEY("src=")) { memcpy(src, e + 4, n - 4); src[n - 4] = 0; }
    else if (KEY("log=")) { memcpy(logf_, e + 4, n - 4); logf_[n - 4] = 0; }
    else if (KEY("wait=")) { memcpy(waitf, e + 5, n - 5); waitf[n - 5] = 0; }
    else if (KEY("faults=")) {
      const char *f = e + 7;
      while (f < end && nfaults < 32) {
        struct fault *x = &faults[nfaults++];
        const char *c = strchr(f, ':');
        for (int i = 0; i < NCLASS; i++) if ((int)strlen(names[i]) == c - f && !strncmp(names[i], f, c - f)) x->class = i;
        char *q; x->first = strtol(c + 1, &q, 10); x->count = strtol(q + 1, &q, 10); q++;
        x->kind = *q == 'f' ? FAIL : *q == 's' ? SHORT : *q == 'z' ? ZERO : *q == 'k' ? KILL : *q == 'w' ? STALL : JUMP;
        q = strchr(q, ':'); x->arg = strtol(q + 1, &q, 10);
        f = q; if (f < end && *f == ',') f++;
      }
    }
    e = *end ? end + 1 : end;
  }
  for (int i = 0; i < THREADS; i++) { rstates[i] = seed * 7 + 1 + i * 1000003; ransrcs[i] = seed * 13 + 5 + i * 1000003; }
}
static void note(uint64_t x) { hash = (hash ^ x) * 1099511628211ull; }

// the fault to apply to this call of a class, or 0
static struct fault *step(int class) {
  setup(); lock();
  long n = count[class]++; struct fault *r = 0;
  for (int i = 0; i < nfaults; i++) { struct fault *x = &faults[i];
    if (x->class == class && n >= x->first && n < x->first + x->count) { r = x; x->fired++; injected[class]++; break; } }
  if (class != ALLOC && class != CLOCK) note(class * 1000003 + (r ? 7 + r->kind : 0)); // the other classes happen on one thread at a time
  unlock();
  if (r && r->kind == KILL) { syscall(SYS_kill, r->arg ? 0 : getpid(), SIGKILL); for (;;) ; }
  if (r && r->kind == STALL) { // until the simulator lets go
    char b[600]; snprintf(b, sizeof b, "%s.at", waitf); int fd = syscall(SYS_openat, AT_FDCWD, b, O_CREAT | O_WRONLY, 0600); if (fd >= 0) syscall(SYS_close, fd);
    for (int i = 0; i < 30000 && syscall(SYS_access, waitf, F_OK); i++) { struct timespec t = {0, 1000000}; syscall(SYS_nanosleep, &t, 0); }
    return 0; }
  return r;
}
#define REAL(name) static typeof(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)
#define FAILS(c, err) do { struct fault *f_ = step(c); if (f_ && f_->kind == FAIL) { errno = f_->arg; return err; } } while (0)

static int is_src(const char *p) { setup(); return p && src[0] && (p[0] != '/' || !strncmp(p, src, strlen(src))); }
static int do_open(const char *p, int flags, int mode) {
  int s = is_src(p); FAILS(s ? OPEN_SRC : OPEN_LIB, -1);
  int fd = syscall(SYS_openat, AT_FDCWD, p, flags, mode);
  if (fd >= 0 && fd < 4096) fdsrc_[fd] = s; return fd;
}
int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return do_open(p, flags, m); }
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return do_open(p, flags | O_LARGEFILE, m); }
static ssize_t do_read(int fd, void *b, size_t n) {
  struct fault *f = step(fd >= 0 && fd < 4096 && fdsrc_[fd] ? READ_SRC : READ_OTHER);
  if (f && f->kind == FAIL) { errno = f->arg; return -1; }
  if (f && f->kind == SHORT && n > 1) n = f->arg > 0 && (size_t)f->arg < n ? (size_t)f->arg : n / 2;
  return syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { FAILS(READ_OTHER, -1); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
  if (fd != 1 && fd != 2) { FAILS(WRITE_FILE, -1); return syscall(SYS_write, fd, b, n); }
  struct fault *f = step(fd == 1 ? WRITE_OUT : WRITE_ERR);
  if (f && f->kind == FAIL) { errno = f->arg; return -1; }
  if (f && f->kind == SHORT && n > 1) n = f->arg > 0 && (size_t)f->arg < n ? (size_t)f->arg : n / 2;
  if (f && f->kind == ZERO) return 0;
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (fd != 1 && fd != 2) { FAILS(WRITE_FILE, -1); return syscall(SYS_writev, fd, v, n); }
  struct fault *f = step(fd == 1 ? WRITE_OUT : WRITE_ERR);
  if (f && f->kind == FAIL) { errno = f->arg; return -1; }
  if (f && (f->kind == SHORT || f->kind == ZERO) && n > 0) n = 1;
  return syscall(SYS_writev, fd, v, n);
}
static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off64_t o) {
  if (fd >= 0) { struct fault *f = step(MAPF); if (f && f->kind == FAIL) { errno = f->arg; return MAP_FAILED; } }
  return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) { return do_mmap(a, n, prot, flags, fd, o); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) { return do_mmap(a, n, prot, flags, fd, o); }
int statx(int d, const char *p, int flags, unsigned mask, struct statx *s) { FAILS(STAT, -1); return syscall(SYS_statx, d, p, flags, mask, s); }
int stat64(const char *p, struct stat64 *s) { FAILS(STAT, -1); return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat64(const char *p, struct stat64 *s) { FAILS(STAT, -1); return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstat64(int fd, struct stat64 *s) { FAILS(STAT, -1); return syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH); }
int rename(const char *a, const char *b) { FAILS(RENAME, -1); return syscall(SYS_rename, a, b); }
int unlink(const char *a) { FAILS(RENAME, -1); return syscall(SYS_unlink, a); }
char *realpath(const char *p, char *out) { FAILS(LINK, NULL); REAL(realpath); return real(p, out); }
ssize_t readlink(const char *p, char *b, size_t n) { FAILS(LINK, -1); return syscall(SYS_readlink, p, b, n); }
char *getcwd(char *b, size_t n) { FAILS(CWD, NULL); REAL(getcwd); return real(b, n); }
struct dirent64 *readdir64(void *d) { FAILS(DIRENT, NULL); REAL(readdir64); return real(d); }
struct begin { void *(*f)(void *); void *x; int id; }; static struct begin begins[THREADS];
static void *begin(void *p) { struct begin b = *(struct begin *)p; me = b.id; return b.f(b.x); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  struct fault *g = step(THREAD); if (g && g->kind == FAIL) return g->arg;
  REAL(pthread_create); int id = ++nthreads % THREADS; begins[id] = (struct begin){f, x, id}; return real(t, a, begin, &begins[id]);
}
ssize_t getrandom(void *b, size_t n, unsigned flags) {
  FAILS(RANDOM, -1);
  lock(); for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = next(&ransrc) >> 17; unlock(); return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  static int64_t skew; struct fault *f = step(CLOCK);
  if (f && f->kind == FAIL) { errno = f->arg; return -1; }
  if (f && f->kind == JUMP) skew += (int64_t)f->arg;
  static __thread long ticks; // simulated time: a millisecond a question
  (void)c; int64_t ms = 1700000000000ll + 1000000 + ticks++ + skew; if (ms < 0) ms = 0;
  t->tv_sec = ms / 1000; t->tv_nsec = ms % 1000 * 1000000; return 0;
}

// ---- the allocator: seeded addresses
#define ARENAS 8
static struct { char *p, *end; } arenas[THREADS][ARENAS]; static uint64_t regions[THREADS];
#define arena arenas[me]
 static char boot[1 << 16]; static size_t bootn;
static void *fresh(size_t n, size_t align) {
  // callers hold the lock
  int a = shuffle ? next(&rstate) % ARENAS : 0;
  size_t pad = shuffle ? (next(&rstate) & 15) << 4 : 0;
  for (;;) {
    uintptr_t q = ((uintptr_t)arena[a].p + pad + 16 + align - 1) & ~(uintptr_t)(align - 1);
    if (arena[a].p && q + n <= (uintptr_t)arena[a].end) { arena[a].p = (char *)q + n; ((size_t *)q)[-1] = n; return (void *)q; }
    size_t want = n + align + 512 > (4u << 20) ? (n + align + 4096 + 512) & ~4095ul : 4u << 20;
    char *hint = shuffle ? (char *)(0x200000000000ull + (next(&rstate) % (1ull << 30)) * 4096 * 16) : (char *)(0x300000000000ull + me * 0x10000000000ull + regions[me]);
    if (!shuffle) regions[me] += (want + 0xffff) & ~0xffffull;
    char *m = (char *)syscall(SYS_mmap, hint, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((intptr_t)m < 0 && (intptr_t)m > -4096) return 0;
    if (want > (4u << 20)) { uintptr_t b = ((uintptr_t)m + 16 + align - 1) & ~(uintptr_t)(align - 1); ((size_t *)b)[-1] = n; return (void *)b; }
    arena[a].p = m; arena[a].end = m + want; pad = 0;
  }
}
struct freed { struct freed *next; }; static struct freed *binss[THREADS][64][4];
#define bins binss[me]
 // recycled in seeded order
static int bin(size_t n) { return n <= 1024 ? (int)((n + 15) / 16) : 64; }
static void *get(size_t n, size_t align) {
  if (n == 0) n = 1;
  n = (n + 15) & ~15ul;
  setup();
  if (!ready) { uintptr_t q = ((uintptr_t)boot + bootn + 16 + align - 1) & ~(uintptr_t)(align - 1); bootn = q + n - (uintptr_t)boot; if (bootn > sizeof boot) return 0; ((size_t *)q)[-1] = n; return (void *)q; }
  struct fault *f = nfaults ? step(ALLOC) : (count[ALLOC]++, (struct fault *)0);
  if (f && f->kind == FAIL) { errno = ENOMEM; return 0; }
  lock(); void *r = 0; int b = bin(n);
  if (b < 64 && align <= 16) { int k = shuffle ? next(&rstate) & 7 : 0; // one in two a new address
    if (k < 4 && bins[b][k]) { r = bins[b][k]; bins[b][k] = bins[b][k]->next; } }
  if (!r) r = fresh(n, align < 16 ? 16 : align);
  unlock(); return r;
}
void *malloc(size_t n) { void *p = get(n, 16); if (!p) errno = ENOMEM; return p; }
void free(void *p) {
  if (!p || ((char *)p >= boot && (char *)p < boot + sizeof boot)) return;
  size_t n = ((size_t *)p)[-1]; int b = bin(n);
  if (n >= (4u << 20)) return; // keep it simple: large blocks are not reused
  if (b < 64) { lock(); int k = shuffle ? next(&rstate) & 3 : 0; ((struct freed *)p)->next = bins[b][k]; bins[b][k] = p; unlock(); }
}
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = get(n, 16); if (p) memset(p, 0, n); return p; }
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n); if (!n) { free(p); return 0; }
  size_t o = ((size_t *)p)[-1]; if (o >= n && o <= 2 * n + 64) return p;
  void *q = get(n, 16); if (!q) return 0; memcpy(q, p, o < n ? o : n); free(p); return q;
}
void *memalign(size_t a, size_t n) { return get(n, a); }
void *aligned_alloc(size_t a, size_t n) { return get(n, a); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = get(n, a); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }

__attribute__((destructor)) static void finish(void) {
  setup(); if (!logf_[0]) return;
  int fd = syscall(SYS_openat, AT_FDCWD, logf_, O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0) return;
  char b[4096]; int n = 0;
  for (int i = 0; i < NCLASS; i++) n += snprintf(b + n, sizeof b - n, "%s %ld %ld\n", names[i], count[i], injected[i]);
  n += snprintf(b + n, sizeof b - n, "hash %llx 0\n", (unsigned long long)hash);
  syscall(SYS_write, fd, b, n); syscall(SYS_close, fd);
}
__attribute__((constructor)) static void start(void) { setup(); }
