#include "simos.h"
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <link.h>
#include <malloc.h>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <signal.h>
#include <fcntl.h>
#include <map>
#include <new>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
Shared *g_sh = nullptr;
const char *kind_name(int k) {
  static const char *n[] = {"ok", "race", "mismatch", "deadlock", "crash", "exception", "invariant", "livelock", "harness", "timeout"};
  return k >= 0 && k < 10 ? n[k] : "?";
}
[[noreturn]] void violation(Kind k, const std::string &sig, const std::string &msg) {
  if (g_sh && g_sh->kind == OK) {
    g_sh->kind = k;
    snprintf(g_sh->sig, sizeof g_sh->sig, "%s", sig.c_str());
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
  }
  _exit(k == HARNESS ? 92 : 90);
}
uint64_t sim_now_ns() { return g_clock.mono_ns; }
void point() {}
bool active() { return true; }

std::function<void(int, const std::string &, int)> io_observer;
SimClock g_clock;

static bool g_in = false, g_replay = false, g_faults = false, g_dead = false;
static IoPlan P;
static Rng R(1); static uint64_t g_base = 1; static std::string g_scratch;
static uint32_t g_op = 0, g_nth = 0;
// counters and lasting faults are shared with forked program executions
struct IoSh { uint64_t hard, soft, hardc[SC_N], calls; int stick[SC_N], stick_kind[SC_N]; int damaged; };
static IoSh g_own, *X = &g_own;
#define g_hard (X->hard)
#define g_soft (X->soft)
#define g_hardc (X->hardc)
#define g_calls (X->calls)
#define g_stick (X->stick)           // 0 none 1 this op 2 until heal
#define g_stick_kind (X->stick_kind)
#define g_damaged (X->damaged)
static std::map<uint32_t, Decision> g_plan; static std::set<uint32_t> g_ops;
static std::map<int, std::string> g_fds;
static uint32_t g_crash_at = 0; static int g_crash_exit = 79;

static void mixh(uint64_t v) { if (g_sh) { uint64_t h = g_sh->sched_hash ^ v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; g_sh->sched_hash = h; } }
static void rec(uint32_t k, int t, int u, int pad) {
  if (!g_sh) return;
  if (g_sh->ndec < MAXDEC) { Decision &d = g_sh->dec[g_sh->ndec++]; d.k = k; d.t = (uint8_t)t; d.u = (uint8_t)u; d.forced = 0; d.pad = (uint8_t)pad; } else g_sh->dec_overflow = 1;
}
// After a write has failed the medium holds whatever had been written by then,
// and libhdf5 may loop without end on such a file, or on its own half-updated
// caches. That is the library's, not HelFEM's: a run in which libhdf5 makes no
// system call for two seconds of CPU time on a damaged file ends there.
static int g_stuck_exit = 0; static uint64_t g_tick_calls = ~0ull; static int g_ticks = 0;
static void on_vtalrm(int) {
  if (!g_in || !g_damaged) { g_ticks = 0; return; }
  if (g_calls != g_tick_calls) { g_tick_calls = g_calls; g_ticks = 0; return; }
  void *b[48]; int n = backtrace(b, 48); bool lib = false;
  for (int i = 0; i < n; i++) { Dl_info d; if (dladdr(b[i], &d) && d.dli_fname && strstr(d.dli_fname, "libhdf5")) lib = true; }
  if (!lib) { g_ticks = 0; return; }
  if (++g_ticks < 2) return;
  probe("library stuck on a damaged file"); _exit(g_stuck_exit);
}
void io_fresh() { g_damaged = false; }
bool io_damaged() { return g_damaged; }
static void arm() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_vtalrm; sa.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval it = {{0, 700000}, {0, 700000}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  { void *b[4]; backtrace(b, 4); } // load the unwinder now
}
void io_in_child(int stuck_exit) { g_stuck_exit = stuck_exit; g_fds.clear(); arm(); }
void io_start(Ctx &c, const IoPlan &p) {
  if (X == &g_own) { void *m = mmap(nullptr, sizeof(IoSh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m != MAP_FAILED) X = new (m) IoSh(); }
  arm();
  g_damaged = false;
  P = p; R = c.rng("faults"); g_base = R.next(); g_scratch = c.scratch + "/"; g_replay = c.replay; g_plan.clear(); g_ops.clear(); g_dead = false;
  for (auto &d : c.decisions) { if (d.t == F_OPMARK) g_ops.insert(d.k >> 16); else g_plan[d.k] = d; }
  memset(g_stick, 0, sizeof g_stick);
  g_clock.on = true; g_clock.mono_ns = 1000000000000ll; g_clock.real_ns = 1700000000000000000ll;
}
bool io_wants(uint32_t op) {
  if (g_replay && !g_ops.count(op)) return false;
  rec(op << 16, F_OPMARK, 0, 0);
  return true;
}
// The C++ allocation that fails in this operation: the 1.055^i-th one. (Not those
// of libhdf5, nor Eigen's: Eigen 3.4 frees a matrix twice when its resize fails;
// nor those libstdc++ makes for itself, where streams swallow the exception.)
static const char *g_std_lo = nullptr, *g_std_hi = nullptr;
static int find_libstdcxx(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libstdc++")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    const char *a = (const char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, *b = a + i->dlpi_phdr[k].p_memsz;
    if (!g_std_lo || a < g_std_lo) g_std_lo = a;
    if (b > g_std_hi) g_std_hi = b;
  }
  return 1;
}
static int64_t g_alloc_left = -1; static bool g_alloc_last = false; static int g_alloc_burst = 0; static bool g_alloc_fired = false;
static int64_t alloc_index(int i) { return (int64_t)std::pow(1.055, i) + (i < 20 ? i : 0); }
static void plan_alloc(bool faults) {
  g_alloc_left = -1; g_alloc_last = false; g_alloc_burst = 0; int i = -1, stick = 0;
  if (!faults || g_dead) return;
  if (g_replay) { auto it = g_plan.find(g_op << 16); if (it == g_plan.end() || it->second.t != F_ALLOC) return; i = it->second.pad; stick = it->second.u; }
  else if (P.p_alloc > 0) { Rng r(0x2545F4914F6CDD1Dull * (g_op + 1) ^ g_base); r.next(); if (r.uni() >= P.p_alloc) return; i = (int)r.below(r.below(2) ? 256 : 120); stick = (int)r.below(2); }
  if (i < 0) return;
  rec(g_op << 16, F_ALLOC, stick, i); g_alloc_left = alloc_index(i); g_alloc_last = stick;
}
static bool alloc_fails(void *caller) {
  if (g_alloc_left < 0 || !g_in) return false;
  if (!g_std_hi) { g_std_hi = (const char *)1; g_std_lo = nullptr; dl_iterate_phdr(find_libstdcxx, nullptr); }
  if ((const char *)caller >= g_std_lo && (const char *)caller < g_std_hi) return false;
  if (g_alloc_left > 0) { g_alloc_left--; return false; }
  if (!g_alloc_last || g_alloc_burst++ > 3) g_alloc_left = -1;
  g_hard++; g_alloc_fired = true; { IoPause z; fault_fired("allocation"); } return true;
}
void io_enter(uint32_t op, bool faults) {
  g_alloc_left = -1; g_op = op; g_nth = 0; g_hard = g_soft = 0; memset(g_hardc, 0, sizeof g_hardc); g_in = true; g_faults = faults;
  for (int i = 0; i < SC_N; i++) if (g_stick[i] == 1) g_stick[i] = 0;
  // per-operation stream: the faults of one operation do not depend on how many calls others made
  R = Rng(0x51ED270195ull * (op + 1) ^ g_base); R.next();
  plan_alloc(faults);
}
void io_hold_alloc(bool hold) { static int64_t kept = -1; if (hold) { kept = g_alloc_left; g_alloc_left = -1; } else { g_alloc_left = kept; kept = -1; } }
bool io_alloc_failed() { return g_alloc_fired; }
void io_leave() { g_in = false; g_alloc_left = -1; for (int i = 0; i < SC_N; i++) if (g_stick[i] == 1) g_stick[i] = 0; }
void io_heal() { g_dead = true; memset(g_stick, 0, sizeof g_stick); P.capacity = -1; }
bool io_plan_on() { return !g_dead; }
void io_set_capacity(int64_t b) { P.capacity = b; }
void io_crash_at(uint32_t call, int exit_code) { g_crash_at = call; g_crash_exit = exit_code; }
uint64_t io_hard() { return g_hard; }
uint64_t io_soft() { return g_soft; }
uint64_t io_hard_class(int c) { return g_hardc[c]; }
uint64_t io_syscalls() { return g_calls; }
int io_open_fds() { return (int)g_fds.size(); }
IoPause::IoPause() : was(g_in) { g_in = false; }
IoPause::~IoPause() { g_in = was; }

static const char *fname(int k) {
  switch (k) { case F_EIO: return "EIO"; case F_ENOSPC: return "ENOSPC"; case F_EDQUOT: return "EDQUOT"; case F_EFBIG: return "EFBIG"; case F_EACCES: return "EACCES"; case F_EMFILE: return "EMFILE"; case F_EINTR: return "EINTR"; case F_SHORT: return "short"; case F_TORN: return "torn"; case F_ENOLCK: return "ENOLCK"; case F_ENOMEM: return "ENOMEM"; case F_ALLOC: return "alloc"; }
  return "?";
}
static const char *cname(int c) { static const char *n[] = {"open", "read", "write", "truncate", "stat", "close", "lock", "sync", "seek", "name"}; return n[c]; }
static int ferrno(int k) {
  switch (k) { case F_EIO: return EIO; case F_ENOSPC: return ENOSPC; case F_EDQUOT: return EDQUOT; case F_EFBIG: return EFBIG; case F_EACCES: return EACCES; case F_EMFILE: return EMFILE; case F_EINTR: return EINTR; case F_TORN: return EIO; case F_ENOLCK: return ENOLCK; case F_ENOMEM: return ENOMEM; }
  return EIO;
}
static bool breaking(int c) { return c == SC_WRITE || c == SC_TRUNC || c == SC_CLOSE || c == SC_SYNC; }
static bool soft(int k) { return k == F_EINTR || k == F_SHORT; }
static const int kinds[SC_N][6] = {
  {F_EACCES, F_EMFILE, F_EIO, F_ENOMEM, 0}, {F_EIO, F_EIO, F_ENOMEM, 0}, {F_EIO, F_ENOSPC, F_EDQUOT, F_EFBIG, F_TORN, 0}, {F_EIO, F_ENOSPC, F_EFBIG, 0}, {F_EIO, F_ENOMEM, 0}, {F_EIO, F_ENOSPC, 0}, {F_ENOLCK, F_EIO, 0}, {F_EIO, F_ENOSPC, 0}, {F_EIO, 0}, {F_EACCES, F_EIO, F_ENOSPC, 0}};
static bool allowed(int c, int k) { if (soft(k)) return c == SC_READ || c == SC_WRITE; for (int i = 0; i < 6 && kinds[c][i]; i++) if (kinds[c][i] == k) return true; return false; }

// what happens to this call: F_NONE, or a fault kind; frac in 0..255 for partial transfers
static int decide(int c, int &frac) {
  frac = 0;
  g_calls++; if (g_sh) g_sh->events++;
  if (!g_clock.frozen) { g_clock.mono_ns += 20000; g_clock.real_ns += 20000; } if (g_sh) g_sh->sim_ns += 20000;
  uint32_t k = (g_op << 16) | (++g_nth & 0xffff);
  int f = F_NONE, stick = 0;
  static const bool trace = getenv("SIM_IOTRACE") != nullptr; if (trace) { char b[80]; int n = snprintf(b, sizeof b, "op %u call %u %s\n", g_op, g_nth, cname(c)); if (syscall(SYS_write, 1, b, n)) {} } // debugging aid
  if (g_crash_at && g_nth == g_crash_at && g_in) {
    fault_fired("process_crash"); mixh(k);
    if (c != SC_WRITE) _exit(g_crash_exit);
    frac = (int)(Rng(k * 77ull + g_base).next() >> 56); return F_CRASH; // part of the data may have reached the file
  }
  if (!g_faults || g_dead) return F_NONE;
  if (g_stick[c]) { f = g_stick_kind[c]; g_hard++; g_hardc[c]++; if (breaking(c)) g_damaged = true; mixh(k ^ ((uint64_t)f << 40)); return f; }
  if (g_replay) {
    auto it = g_plan.find(k);
    if (it == g_plan.end() || !allowed(c, it->second.t)) return F_NONE;
    f = it->second.t; stick = it->second.u; frac = it->second.pad;
  } else {
    double u = R.uni();
    if (u < P.p[c]) { int n = 0; while (n < 6 && kinds[c][n]) n++; f = kinds[c][R.below(n)]; if ((int)R.below(100) < P.sticky) stick = (int)R.below(100) < P.sticky ? 2 : 1; }
    else if ((c == SC_READ || c == SC_WRITE) && u < P.p[c] + P.p_soft) f = R.below(2) ? F_EINTR : F_SHORT;
    else return F_NONE;
    frac = (int)R.below(256);
  }
  rec(k, f, stick, frac);
  char b[40]; snprintf(b, sizeof b, "%s_%s", cname(c), fname(f)); fault_fired(b);
  if (soft(f)) g_soft++;
  else { g_hard++; g_hardc[c]++; if (breaking(c)) g_damaged = true; if (stick) { g_stick[c] = stick; g_stick_kind[c] = f; fault_fired(stick == 2 ? "persistent" : "lasting"); } }
  mixh(k ^ ((uint64_t)f << 40) ^ ((uint64_t)frac << 52));
  return f;
}
static void observe(int c, int fd, int phase) {
  if (!io_observer) return;
  bool w = g_in; g_in = false; auto it = g_fds.find(fd); if (it != g_fds.end()) io_observer(c, it->second, phase); g_in = w;
}
}
using namespace sim;

template <typename F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto *rf = real<decltype(&::name)>(#name)

static ssize_t raw_pwrite(int fd, const void *b, size_t n, off_t o) { return syscall(SYS_pwrite64, fd, b, n, o); }
static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

extern "C" {
static bool tracked(const char *p) { return g_in && (p[0] != '/' || !strncmp(p, g_scratch.c_str(), g_scratch.size())); }
static bool mine(int fd) { return g_in && g_fds.count(fd); }

static int open_common(const char *p, int fl, mode_t m) {
  if (tracked(p)) {
    int fr; int f = decide(SC_OPEN, fr);
    if (f) { errno = ferrno(f); return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    if (fd >= 0) { g_fds[fd] = p; if (fl & (O_TRUNC | O_CREAT)) observe(SC_OPEN, fd, 1); }
    return fd;
  }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_common(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_common(p, fl, m); }
// stdio's own transfers do not go through the dynamic symbols: a stream the
// program opens itself becomes a cookie stream on top of the calls below.
// (libstdc++ only opens and closes with stdio and transfers by descriptor.)
static ssize_t ck_read(void *v, char *b, size_t n) { ssize_t r; do r = read((int)(intptr_t)v, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void *v, const char *b, size_t n) {
  size_t d = 0; while (d < n) { ssize_t r = write((int)(intptr_t)v, b + d, n - d); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; d += (size_t)r; }
  return (ssize_t)d;
}
static int ck_seek(void *v, off64_t *o, int w) { off_t r = lseek((int)(intptr_t)v, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *v) { return close((int)(intptr_t)v); }
static bool from_program(void *ra) { Dl_info d, m; return dladdr(ra, &d) && dladdr((void *)&from_program, &m) && d.dli_fbase == m.dli_fbase; }
static FILE *open_stream(const char *p, const char *mode) {
  bool plus = strchr(mode, '+') != nullptr; int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND));
  int fd = open_common(p, fl, 0666); if (fd < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie((void *)(intptr_t)fd, mode, io); if (!fp) close(fd);
  return fp;
}
FILE *fopen(const char *p, const char *mode) {
  REAL(fopen);
  if (!tracked(p)) return rf(p, mode);
  if (from_program(__builtin_return_address(0))) return open_stream(p, mode);
  int fr; int f = decide(SC_OPEN, fr);
  if (f) { errno = ferrno(f); return nullptr; }
  FILE *fp = rf(p, mode);
  if (fp) g_fds[fileno(fp)] = p;
  return fp;
}
FILE *fopen64(const char *p, const char *mode) {
  if (tracked(p) && from_program(__builtin_return_address(0))) return open_stream(p, mode);
  REAL(fopen64); if (!tracked(p)) return rf(p, mode);
  int fr; int f = decide(SC_OPEN, fr); if (f) { errno = ferrno(f); return nullptr; }
  FILE *fp = rf(p, mode); if (fp) g_fds[fileno(fp)] = p; return fp;
}
int fclose(FILE *fp) {
  REAL(fclose);
  int fd = fileno(fp);
  if (!mine(fd)) { g_fds.erase(fd); return rf(fp); }
  int fr; int f = decide(SC_CLOSE, fr);
  g_fds.erase(fd);
  int r = rf(fp);
  if (f) { errno = ferrno(f); return EOF; }
  return r;
}
int close(int fd) {
  if (!mine(fd)) { g_fds.erase(fd); return (int)syscall(SYS_close, fd); }
  int fr; int f = decide(SC_CLOSE, fr);
  int r = (int)syscall(SYS_close, fd);
  g_fds.erase(fd);
  if (f) { errno = ferrno(f); return -1; }
  return r;
}
static size_t part(size_t n, int fr) { size_t k = n * (size_t)fr / 256; return k; }
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (!mine(fd)) return syscall(SYS_pread64, fd, b, n, o);
  int fr; int f = decide(SC_READ, fr);
  if (f == F_SHORT) { size_t k = part(n, fr); if (k < 1) k = 1; return syscall(SYS_pread64, fd, b, k, o); }
  if (f) { errno = ferrno(f); return -1; }
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
  if (!mine(fd)) return syscall(SYS_read, fd, b, n);
  int fr; int f = decide(SC_READ, fr);
  if (f == F_SHORT) { size_t k = part(n, fr); if (k < 1) k = 1; return syscall(SYS_read, fd, b, k); }
  if (f) { errno = ferrno(f); return -1; }
  return syscall(SYS_read, fd, b, n);
}
// room left for a write ending at `end`
static int64_t room(int fd, off_t off, size_t n) {
  if (P.capacity < 0) return (int64_t)n;
  struct stat st; if (syscall(SYS_fstat, fd, &st)) return (int64_t)n;
  int64_t lim = std::max<int64_t>(st.st_size, P.capacity); // overwriting in place always fits
  int64_t r = lim - off; return r < 0 ? 0 : r;
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t o, bool pos) {
  int fr; int f = decide(SC_WRITE, fr);
  if (f == F_EINTR) { errno = EINTR; return -1; }
  if (f == F_CRASH) { size_t k = n * (size_t)fr / 255; if (k) { if (pos ? raw_pwrite(fd, b, k, o) : raw_write(fd, b, k)) {} } _exit(g_crash_exit); }
  observe(SC_WRITE, fd, 0);
  auto put = [&](size_t k) { return pos ? raw_pwrite(fd, b, k, o) : raw_write(fd, b, k); };
  ssize_t r;
  if (f == F_SHORT) { size_t k = part(n, fr); if (k < 1) k = 1; r = put(k); }
  else if (f) { if (f == F_TORN) { size_t k = part(n, fr); if (k) { r = put(k); (void)r; if (!pos && r > 0) syscall(SYS_lseek, fd, -(off_t)r, SEEK_CUR); } } errno = ferrno(f); return -1; }
  else {
    off_t at = pos ? o : (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    int64_t m = room(fd, at, n);
    if (m < (int64_t)n && !g_dead && g_faults) {
      g_hard++; g_hardc[SC_WRITE]++; g_damaged = true; fault_fired("disk_full");
      if (m <= 0) { errno = ENOSPC; return -1; }
      r = put((size_t)m);
    } else r = put(n);
  }
  int e = errno; observe(SC_WRITE, fd, 1); errno = e;
  return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!mine(fd)) return raw_pwrite(fd, b, n, o); return do_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (!mine(fd)) return raw_write(fd, b, n); return do_write(fd, b, n, 0, false); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!mine(fd)) return syscall(SYS_writev, fd, v, c);
  std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
  return do_write(fd, s.data(), s.size(), 0, false);
}
int ftruncate(int fd, off_t n) {
  if (!mine(fd)) return (int)syscall(SYS_ftruncate, fd, n);
  int fr; int f = decide(SC_TRUNC, fr);
  if (f) { errno = ferrno(f); return -1; }
  if (P.capacity >= 0 && !g_dead && g_faults) {
    struct stat st; if (!syscall(SYS_fstat, fd, &st) && n > st.st_size && n > P.capacity) { g_hard++; g_hardc[SC_TRUNC]++; g_damaged = true; fault_fired("disk_full"); errno = ENOSPC; return -1; }
  }
  observe(SC_TRUNC, fd, 0);
  int r = (int)syscall(SYS_ftruncate, fd, n);
  observe(SC_TRUNC, fd, 1);
  return r;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int fstat(int fd, struct stat *st) noexcept {
  if (!mine(fd)) return (int)syscall(SYS_fstat, fd, st);
  int fr; int f = decide(SC_STAT, fr);
  if (f) { errno = ferrno(f); return -1; }
  int r = (int)syscall(SYS_fstat, fd, st);
  st->st_mtim = st->st_ctim = st->st_atim = {1700000000, 0};
  return r;
}
int flock(int fd, int how) noexcept {
  if (!mine(fd)) return (int)syscall(SYS_flock, fd, how);
  int fr; int f = (how & LOCK_UN) ? F_NONE : decide(SC_LOCK, fr);
  if (f) { errno = ferrno(f); return -1; }
  return (int)syscall(SYS_flock, fd, how);
}
int fsync(int fd) { if (!mine(fd)) return (int)syscall(SYS_fsync, fd); int fr; int f = decide(SC_SYNC, fr); if (f) { errno = ferrno(f); return -1; } return 0; }
int fdatasync(int fd) { return fsync(fd); }

void *__libc_malloc(size_t);

// names of files
#define NAMEOP(path, call) { int fr; int f = decide(SC_NAME, fr); if (f) { errno = ferrno(f); return -1; } if (io_observer) { IoPause z; io_observer(SC_NAME, path, 0); } int r = (int)call; int e = errno; if (io_observer) { IoPause z; io_observer(SC_NAME, path, 1); } errno = e; return r; }
int rename(const char *a, const char *b) noexcept {
  if (!tracked(a) && !tracked(b)) return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
  NAMEOP(b, syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0))
}
int unlink(const char *a) noexcept { if (!tracked(a)) return (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0); NAMEOP(a, syscall(SYS_unlinkat, AT_FDCWD, a, 0)) }
int remove(const char *a) noexcept {
  struct stat st; int fl = !syscall(SYS_newfstatat, AT_FDCWD, a, &st, AT_SYMLINK_NOFOLLOW) && S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0;
  if (!tracked(a)) return (int)syscall(SYS_unlinkat, AT_FDCWD, a, fl);
  NAMEOP(a, syscall(SYS_unlinkat, AT_FDCWD, a, fl))
}
int link(const char *a, const char *b) noexcept { if (!tracked(b)) return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); NAMEOP(b, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)) }
int truncate(const char *a, off_t n) noexcept {
  if (!tracked(a)) return (int)syscall(SYS_truncate, a, n);
  NAMEOP(a, syscall(SYS_truncate, a, n))
}
int truncate64(const char *a, off_t n) noexcept { return truncate(a, n); }
int mkostemps(char *t, int suffix, int fl) {
  static uint32_t n = 0; size_t len = strlen(t); if (len < (size_t)suffix + 6) { errno = EINVAL; return -1; }
  for (;;) { char b[8]; snprintf(b, sizeof b, "s%05u", n++ % 100000); memcpy(t + len - suffix - 6, b, 6); struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, t, &st, 0)) break; }
  return open_common(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600);
}
int mkstemp(char *t) { return mkostemps(t, 0, 0); }
int mkstemp64(char *t) { return mkostemps(t, 0, 0); }
int mkstemps(char *t, int s) { return mkostemps(t, s, 0); }
int mkostemp(char *t, int fl) { return mkostemps(t, 0, fl); }
// a copy inside the kernel is made through the calls above instead
ssize_t sendfile(int o, int i, off_t *off, size_t n) noexcept { if (!mine(o) && !mine(i)) return syscall(SYS_sendfile, o, i, off, n); errno = EINVAL; return -1; }
ssize_t sendfile64(int o, int i, off_t *off, size_t n) noexcept { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off_t *oi, int o, off_t *oo, size_t n, unsigned fl) { if (!mine(o) && !mine(i)) return syscall(SYS_copy_file_range, i, oi, o, oo, n, fl); errno = EINVAL; return -1; }
FILE *fdopen(int fd, const char *mode) noexcept {
  REAL(fdopen); if (!mine(fd) || !from_program(__builtin_return_address(0))) return rf(fd, mode);
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie((void *)(intptr_t)fd, mode, io);
}

int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  if (!g_in || !g_clock.on) return (int)syscall(SYS_clock_gettime, id, t);
  g_clock.mono_ns += g_clock.tick_ns; g_clock.real_ns += g_clock.tick_ns; g_clock.reads++; if (g_sh) g_sh->events++;
  int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? g_clock.real_ns : g_clock.mono_ns;
  switch (id) { // the system's clocks have different origins and resolutions
  case CLOCK_MONOTONIC_COARSE: case CLOCK_REALTIME_COARSE: v -= v % 4000000; break;
  case CLOCK_MONOTONIC_RAW: v -= 370000000; break;
  case CLOCK_BOOTTIME: v += 86400000000000ll; break;
  case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = (v - 1000000000000ll) / 7; break;
  }
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval *t, void *z) noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
}

// ---- what memory holds
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
static int g_mem = 0; static uint64_t g_memseed = 0, g_filled = 0;
static uint64_t mem_word(uint64_t i) {
  switch (g_mem) {
  case 2: return ~0ull;
  case 3: return 0x3ff8000000000000ull;
  case 4: { uint64_t x = (g_memseed + i + 1) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return (x & 0x800fffffffffffffull) | (0x3fdull + (x >> 58) % 5) << 52; }
  case 5: return 0x0000000100000001ull;
  default: return 0;
  }
}
static void mem_fill(void *p, size_t n) {
  char *b = (char *)p; size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w = mem_word(g_filled++); __builtin_memcpy(b + i, &w, 8); }
  if (i < n) { uint64_t w = mem_word(g_filled++); __builtin_memcpy(b + i, &w, n - i); }
}
__attribute__((noinline)) static void mem_paint(size_t n) { volatile uint64_t *b = (volatile uint64_t *)__builtin_alloca(n); for (size_t i = 0; i < n / 8; i++) b[i] = mem_word(i); }
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); if (g_mem && p) { mem_fill(p, malloc_usable_size(p)); mem_paint(2048); } return p; }
extern "C" void free(void *p) { if (g_mem && p) { int e = errno; mem_fill(p, malloc_usable_size(p)); errno = e; } __libc_free(p); }
extern "C" void *realloc(void *q, size_t n) {
  if (!g_mem) return __libc_realloc(q, n);
  size_t old = q ? malloc_usable_size(q) : 0; void *p = __libc_realloc(q, n);
  if (p && n) { size_t now = malloc_usable_size(p); if (now > old) mem_fill((char *)p + old, now - old); }
  return p;
}
extern "C" void *memalign(size_t al, size_t n) { void *p = __libc_memalign(al, n); if (g_mem && p) mem_fill(p, malloc_usable_size(p)); return p; }
extern "C" void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void **out, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
void *operator new(size_t n) { if (g_alloc_left >= 0 && alloc_fails(__builtin_return_address(0))) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { if (g_alloc_left >= 0 && alloc_fails(__builtin_return_address(0))) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

namespace sim {
void io_memory(int kind, uint64_t seed) { g_memseed = seed; g_filled = 0; g_mem = kind; if (kind) mem_paint(1 << 20); }
void io_simulated_stdout() {
  fflush(stdout); std::cout.flush();
  cookie_io_functions_t io = {nullptr, ck_write, nullptr, nullptr};
  FILE *f = fopencookie((void *)(intptr_t)1, "w", io); if (!f) return;
  g_fds[1] = "standard output"; stdout = f;
  static __gnu_cxx::stdio_sync_filebuf<char> *buf = new __gnu_cxx::stdio_sync_filebuf<char>(f);
  std::cout.rdbuf(buf);
}
}
