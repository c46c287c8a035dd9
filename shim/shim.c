// LD_PRELOAD shim: storage faults, write delays, clock offsets, emulated perf counters.
// Controlled in-process through mmv_ctl (dlsym) or through the environment (MMV_SHIM="k=v,...").
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define MAXC 16
struct ctl {
  // storage
  volatile int64_t armed;        // 0 off, 1 regular files (fd > 2), 2 also fd 1
  volatile int64_t delay_us;     // max delay around writes
  volatile int64_t short_pm;     // per mille of writes cut short
  volatile int64_t eintr_pm;     // per mille of writes interrupted
  volatile int64_t fail_at;      // the n-th write (0-based) and all later ones fail; -1 never
  volatile int64_t fail_errno;
  volatile int64_t byte_limit;   // bytes that fit in total; -1 unlimited
  volatile int64_t sparse;       // seek over all-zero buffers instead of writing
  volatile int64_t seed;
  volatile int64_t fail_once;    // only the n-th write fails
  volatile int64_t open_fail_at; // n-th creating open/mkdir fails
  // statistics
  volatile int64_t n_writes, n_short, n_eintr, n_fail, n_delay, n_bytes, n_opens, n_open_fail;
  // clock
  volatile int64_t mono_off, real_off;
  volatile int64_t mono_res;     // granularity of the monotonic clock in nanoseconds
  // perf emulation
  volatile int64_t perf;         // 0 off (pass through), 1 emulate
  volatile int64_t perf_errno;   // fail perf_event_open with this errno
  volatile int64_t perf_fail_at; // only the n-th open fails (-1: all if perf_errno)
  volatile int64_t perf_caps, perf_width, perf_index_zero, perf_opened, perf_closed, perf_badmap;
  volatile int64_t perf_flags[MAXC], perf_type[MAXC], perf_config[MAXC], perf_exclude[MAXC];
  volatile int64_t pmc[64];      // value of hardware register i
  volatile int64_t pmc_step[64]; // added after each read
  volatile int64_t pmc_reads[64];
  volatile int64_t rdpmc_seen;
  volatile int64_t perf_index;     // page index of the k-th counter is (perf_index + k) % 60 + 1
  volatile int64_t perf_map_errno; // mapping the page fails
  volatile int64_t perf_failed;    // index of the open that failed, -1: none
  // one update of the page of counter perf_upd_open, before the n-th access to it
  volatile int64_t perf_upd_open, perf_upd_at, perf_new_caps, perf_new_width, perf_new_index;
  volatile int64_t perf_accesses, perf_updated;
  // cpuid emulation
  volatile int64_t cpu_vendor[3], cpu_sig, cpuid_seen;
};
struct ctl mmv_ctl_state;
struct ctl *mmv_ctl(void) { return &mmv_ctl_state; }
size_t mmv_ctl_size(void) { return sizeof(struct ctl); }
#define C mmv_ctl_state

static long raw3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

static volatile uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) {
  uint64_t x = __atomic_add_fetch(&rs, 0x9E3779B97F4A7C15ULL, __ATOMIC_RELAXED) + (uint64_t)C.seed;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
static void nap(int64_t us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  raw3(SYS_nanosleep, (long)&ts, 0, 0);
}
static int is_target(int fd) {
  if (!C.armed) return 0;
  if (fd == 1) return C.armed == 2;
  if (fd <= 2) return 0;
  struct stat st;
  if (raw3(SYS_fstat, fd, (long)&st, 0) != 0) return 0;
  return S_ISREG(st.st_mode);
}
static int all_zero(const char *p, size_t n) {
  return n >= 4096 && p[0] == 0 && memcmp(p, p + 1, n - 1) == 0;
}
// Decides about one write: returns >=0 number of bytes to pass on, or -errno.
static long decide(size_t n) {
  int64_t k = __atomic_fetch_add(&C.n_writes, 1, __ATOMIC_RELAXED);
  if (C.delay_us > 0 && rnd() % 2) {
    __atomic_fetch_add(&C.n_delay, 1, __ATOMIC_RELAXED);
    nap((int64_t)(rnd() % (uint64_t)C.delay_us));
  }
  if (C.fail_at >= 0 && (C.fail_once ? k == C.fail_at : k >= C.fail_at)) {
    __atomic_fetch_add(&C.n_fail, 1, __ATOMIC_RELAXED);
    return -C.fail_errno;
  }
  if (C.byte_limit >= 0) {
    int64_t left = C.byte_limit - C.n_bytes;
    if (left <= 0 && n > 0) {
      __atomic_fetch_add(&C.n_fail, 1, __ATOMIC_RELAXED);
      return -(C.fail_errno ? C.fail_errno : ENOSPC);
    }
    if ((int64_t)n > left) { __atomic_fetch_add(&C.n_short, 1, __ATOMIC_RELAXED); return left; }
  }
  if (C.eintr_pm > 0 && (int64_t)(rnd() % 1000) < C.eintr_pm) {
    __atomic_fetch_add(&C.n_eintr, 1, __ATOMIC_RELAXED);
    return -EINTR;
  }
  if (C.short_pm > 0 && n > 1 && (int64_t)(rnd() % 1000) < C.short_pm) {
    __atomic_fetch_add(&C.n_short, 1, __ATOMIC_RELAXED);
    switch (rnd() % 3) {
    case 0: return 1;
    case 1: return (long)n - 1;
    default: return 1 + (long)(rnd() % (n - 1));
    }
  }
  return (long)n;
}
static void account(long r) { if (r > 0) __atomic_fetch_add(&C.n_bytes, r, __ATOMIC_RELAXED); }

ssize_t write(int fd, const void *b, size_t n) {
  if (!is_target(fd)) return ret(raw3(SYS_write, fd, (long)b, (long)n));
  if (C.sparse && all_zero(b, n)) {
    __atomic_fetch_add(&C.n_writes, 1, __ATOMIC_RELAXED);
    long r = raw3(SYS_lseek, fd, (long)n, SEEK_CUR);
    if (r < 0) return ret(r);
    account((long)n);
    return (ssize_t)n;
  }
  long d = decide(n);
  if (d < 0) { errno = (int)-d; return -1; }
  long r = ret(raw3(SYS_write, fd, (long)b, d));
  account(r);
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!is_target(fd)) return ret(raw3(SYS_writev, fd, (long)v, c));
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  long d = decide(n);
  if (d < 0) { errno = (int)-d; return -1; }
  long r;
  if ((size_t)d == n) r = ret(raw3(SYS_writev, fd, (long)v, c));
  else {
    // a prefix, one buffer at a time
    long done = 0; r = 0;
    for (int i = 0; i < c && done < d; i++) {
      size_t m = v[i].iov_len; if ((long)m > d - done) m = (size_t)(d - done);
      if (!m) continue;
      long x = raw3(SYS_write, fd, (long)v[i].iov_base, (long)m);
      if (x < 0) { r = done ? done : ret(x); break; }
      done += x; r = done;
    }
  }
  account(r);
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!is_target(fd)) return ret(raw6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0));
  long d = decide(n);
  if (d < 0) { errno = (int)-d; return -1; }
  long r = ret(raw6(SYS_pwrite64, fd, (long)b, d, o, 0, 0));
  account(r);
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (is_target(o)) { errno = ENOSYS; return -1; }
  return ret(raw6(SYS_copy_file_range, i, (long)io, o, (long)oo, (long)n, f));
}

static int open_fault(int flags) {
  if (!C.armed || !(flags & O_CREAT)) return 0;
  int64_t k = __atomic_fetch_add(&C.n_opens, 1, __ATOMIC_RELAXED);
  if (C.open_fail_at >= 0 && k == C.open_fail_at) {
    __atomic_fetch_add(&C.n_open_fail, 1, __ATOMIC_RELAXED);
    return 1;
  }
  return 0;
}
static int do_open(int dir, const char *p, int flags, mode_t m) {
  if (open_fault(flags)) { errno = C.fail_errno ? (int)C.fail_errno : ENOSPC; return -1; }
  return (int)ret(raw6(SYS_openat, dir, (long)p, flags, m, 0, 0));
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }

int clock_gettime(clockid_t id, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec *);
  int64_t off = id == CLOCK_MONOTONIC ? C.mono_off : id == CLOCK_REALTIME ? C.real_off : 0;
  long r = raw3(SYS_clock_gettime, id, (long)ts, 0);
  (void)real;
  if (r) return (int)ret(r);
  int64_t res = id == CLOCK_MONOTONIC ? C.mono_res : 0;
  if (off || res) {
    __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec + off;
    if (res) t -= t % res;
    ts->tv_sec = (time_t)(t / 1000000000);
    ts->tv_nsec = (long)(t % 1000000000);
  }
  return 0;
}

// ---- perf emulation -------------------------------------------------------
static volatile long perf_fd[MAXC] = {-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1};
static char *volatile watched, *volatile hidden;
static volatile int cpuid_on;
struct attr { uint32_t type, size; uint64_t config, sample, stype, rformat, bits; };
static long perf_open(struct attr *a, long pid, long cpu, long grp, long flags) {
  int64_t k = __atomic_fetch_add(&C.perf_opened, 1, __ATOMIC_RELAXED);
  if (k < MAXC) perf_fd[k] = -1;
  if (k < MAXC) {
    C.perf_type[k] = a->type; C.perf_config[k] = (int64_t)a->config;
    C.perf_exclude[k] = (int64_t)a->bits;
    C.perf_flags[k] = ((int)pid == 0 && (int)cpu == -1 && (int)grp == -1) ? flags : -1;
  }
  if (C.perf_errno && (C.perf_fail_at < 0 || C.perf_fail_at == k)) {
    C.perf_failed = k;
    return -C.perf_errno;
  }
  long fd = raw3(SYS_memfd_create, (long)"perf", 0, 0);
  if (fd < 0) return fd;
  if (C.perf_badmap) { // a descriptor that cannot be mapped
    raw3(SYS_close, fd, 0, 0);
    return raw3(SYS_open, (long)"/dev/full", O_WRONLY, 0);
  }
  static char page[4096];
  char *p = page;
  memset(p, 0, sizeof page);
  *(uint32_t *)(p + 0) = 0;           // version
  *(uint32_t *)(p + 8) = 2;           // lock
  *(uint32_t *)(p + 12) = C.perf_index_zero ? 0 : (uint32_t)((C.perf_index + k) % 60) + 1; // index
  *(int64_t *)(p + 16) = 0x1234567800LL; // offset
  *(uint64_t *)(p + 40) = (uint64_t)C.perf_caps;
  *(uint16_t *)(p + 48) = (uint16_t)C.perf_width;
  raw3(SYS_write, fd, (long)p, 4096);
  raw3(SYS_ftruncate, fd, 8192, 0);
  if (k < MAXC) perf_fd[k] = fd;
  return fd;
}
// Maps the page of an emulated counter; the page to be updated is watched access by access.
static long perf_mmap(void *addr, size_t len, int prot, int flags, int fd, long off) {
  if (C.perf && fd >= 0)
    for (int k = 0; k < MAXC; k++)
      if (perf_fd[k] == fd) {
        perf_fd[k] = -1;
        if (C.perf_map_errno) { C.perf_failed = k; return -C.perf_map_errno; }
        if (C.perf_upd_at > 0 && C.perf_upd_open == k && off == 0 && len <= 4096) {
          hidden = (char *)raw6(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
          long m = raw6(SYS_mmap, (long)addr, len, PROT_NONE, flags, fd, off);
          watched = (char *)m;
          return m;
        }
        break;
      }
  return raw6(SYS_mmap, (long)addr, len, prot, flags, fd, off);
}
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) { return (void *)ret(perf_mmap(a, l, p, f, fd, o)); }
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return (void *)ret(perf_mmap(a, l, p, f, fd, o)); }
int munmap(void *a, size_t l) {
  if (watched && a == watched) {
    raw3(SYS_munmap, (long)hidden, 4096, 0);
    watched = hidden = 0;
  }
  return (int)ret(raw3(SYS_munmap, (long)a, l, 0));
}
static void on_trap(int s, siginfo_t *si, void *uc) {
  ucontext_t *u = uc;
  u->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
  if (watched) raw3(SYS_mprotect, (long)watched, 4096, PROT_NONE);
}
static struct sigaction old_segv;
static void on_segv(int s, siginfo_t *si, void *uc) {
  ucontext_t *u = uc;
  unsigned char *ip = (unsigned char *)u->uc_mcontext.gregs[REG_RIP];
  char *at = si->si_addr;
  if (watched && si->si_code > 0 && at >= watched && at < watched + 4096) {
    if (++C.perf_accesses == C.perf_upd_at) {
      // what an interrupt on this CPU would do
      *(volatile uint32_t *)(hidden + 8) += 1;
      *(volatile uint32_t *)(hidden + 12) = (uint32_t)C.perf_new_index;
      *(volatile uint64_t *)(hidden + 40) = (uint64_t)C.perf_new_caps;
      *(volatile uint16_t *)(hidden + 48) = (uint16_t)C.perf_new_width;
      *(volatile uint32_t *)(hidden + 8) += 1;
      C.perf_updated = 1;
    }
    raw3(SYS_mprotect, (long)watched, 4096, PROT_READ);
    u->uc_mcontext.gregs[REG_EFL] |= 0x100;
    return;
  }
  if (cpuid_on && si->si_code > 0 && ip[0] == 0x0F && ip[1] == 0xA2) {
    uint32_t a = (uint32_t)u->uc_mcontext.gregs[REG_RAX], b = 0, c = (uint32_t)u->uc_mcontext.gregs[REG_RCX], d = 0, leaf = a;
    raw3(SYS_arch_prctl, 0x1012, 1, 0);
    __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d));
    raw3(SYS_arch_prctl, 0x1012, 0, 0);
    if (leaf == 0) { b = (uint32_t)C.cpu_vendor[0]; d = (uint32_t)C.cpu_vendor[1]; c = (uint32_t)C.cpu_vendor[2]; }
    if (leaf == 1) a = (uint32_t)C.cpu_sig;
    C.cpuid_seen++;
    u->uc_mcontext.gregs[REG_RAX] = a;
    u->uc_mcontext.gregs[REG_RBX] = b;
    u->uc_mcontext.gregs[REG_RCX] = c;
    u->uc_mcontext.gregs[REG_RDX] = d;
    u->uc_mcontext.gregs[REG_RIP] += 2;
    return;
  }
  if (C.perf && si->si_code > 0 && ip && ip[0] == 0x0F && ip[1] == 0x33) {
    uint64_t r = (uint64_t)u->uc_mcontext.gregs[REG_RCX] & 0xFFFFFFFF;
    C.rdpmc_seen++;
    uint64_t v = 0;
    if (r < 64) { v = (uint64_t)C.pmc[r]; C.pmc[r] += C.pmc_step[r]; C.pmc_reads[r]++; }
    v &= (1ULL << 48) - 1;
    u->uc_mcontext.gregs[REG_RAX] = (long long)(v & 0xFFFFFFFF);
    u->uc_mcontext.gregs[REG_RDX] = (long long)(v >> 32);
    u->uc_mcontext.gregs[REG_RIP] += 2;
    return;
  }
  if (old_segv.sa_flags & SA_SIGINFO && old_segv.sa_sigaction) { old_segv.sa_sigaction(s, si, uc); return; }
  signal(SIGSEGV, SIG_DFL);
}
// Installs the handler; to be called once before using the emulation.
int mmv_perf_install(void) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  if (sigaction(SIGSEGV, &sa, &old_segv)) return -1;
  sa.sa_sigaction = on_trap;
  return sigaction(SIGTRAP, &sa, 0);
}
// Emulates the CPU identification for the calling thread (0: off); -1 if the machine cannot do that.
int mmv_cpuid(int on) {
  if (raw3(SYS_arch_prctl, 0x1012, on ? 0 : 1, 0) != 0) return -1;
  cpuid_on = on;
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_perf_event_open && C.perf) return ret(perf_open((struct attr *)a, b, c, d, e));
  return ret(raw6(n, a, b, c, d, e, f));
}

static int64_t num(const char *v) {
  if (!strcmp(v, "ENOSPC")) return ENOSPC;
  if (!strcmp(v, "EIO")) return EIO;
  return strtoll(v, 0, 0);
}
__attribute__((constructor)) static void init(void) {
  C.fail_at = -1; C.byte_limit = -1; C.open_fail_at = -1; C.perf_fail_at = -1; C.perf_width = 48;
  const char *e = getenv("MMV_SHIM");
  if (!e) return;
  char buf[512];
  strncpy(buf, e, sizeof buf - 1);
  buf[sizeof buf - 1] = 0;
  for (char *s = 0, *t = strtok_r(buf, ",", &s); t; t = strtok_r(0, ",", &s)) {
    char *q = strchr(t, '=');
    if (!q) continue;
    *q++ = 0;
    int64_t v = num(q);
    if (!strcmp(t, "armed")) C.armed = v;
    else if (!strcmp(t, "short")) C.short_pm = v;
    else if (!strcmp(t, "eintr")) C.eintr_pm = v;
    else if (!strcmp(t, "fail_at")) C.fail_at = v;
    else if (!strcmp(t, "errno")) C.fail_errno = v;
    else if (!strcmp(t, "limit")) C.byte_limit = v;
    else if (!strcmp(t, "once")) C.fail_once = v;
    else if (!strcmp(t, "seed")) C.seed = v;
    else if (!strcmp(t, "open_fail_at")) C.open_fail_at = v;
    else if (!strcmp(t, "delay")) C.delay_us = v;
  }
}
__attribute__((destructor)) static void fini(void) {
  const char *p = getenv("MMV_SHIM_STATS");
  if (!p) return;
  char buf[200];
  int n = snprintf(buf, sizeof buf, "%lld %lld %lld %lld %lld %lld %lld\n", (long long)C.n_writes, (long long)C.n_short,
                   (long long)C.n_eintr, (long long)C.n_fail, (long long)C.n_bytes, (long long)C.n_opens,
                   (long long)C.n_open_fail);
  long fd = raw6(SYS_openat, AT_FDCWD, (long)p, O_WRONLY | O_CREAT | O_TRUNC, 0644, 0, 0);
  if (fd >= 0) { raw3(SYS_write, fd, (long)buf, n); raw3(SYS_close, fd, 0, 0); }
}
