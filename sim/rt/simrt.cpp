// See simrt.h. This file is compiled WITHOUT instrumentation.
#include "simrt.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <deque>
#include <unordered_map>
#include <algorithm>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
#define NOINSTR __attribute__((no_sanitize("thread")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define PC() ((uint32_t)(uintptr_t)__builtin_return_address(0))

namespace sim {

Shared *g_sh = nullptr;

const char *kind_name(int k) {
  static const char *n[] = {"ok", "race", "mismatch", "deadlock", "crash", "exception",
                            "invariant", "livelock", "harness", "timeout"};
  return (k >= 0 && k <= 9) ? n[k] : "?";
}

// ---------------------------------------------------------------- threads
constexpr int MAXT = 64;
enum State { IDLE, RUNNABLE, BLOCKED, DONE };

struct Team;
struct WorkShare {
  bool init = false;
  bool ull = false;
  long start = 0, end = 0, incr = 1, chunk = 1, next = 0; // signed loops
  int kind = 0;           // 0 static 1 dynamic 2 guided
  std::vector<uint32_t> order; size_t pos = 0; // chunk permutation
  bool permute = false;
  long nchunks = 0;
  int nleft = 0;
  // sections
  unsigned nsections = 0, nextsec = 0;
  // single
  bool taken = false;
  void *copyprivate = nullptr;
  // ordered
  long ordered_next = 0; // logical iteration index allowed to enter
  std::vector<uint32_t> ovc;
  // doacross etc: unsupported
};

struct Task {
  void (*fn)(void *);
  void *buf;       // owned
  void *data;
  int creator;
  uint32_t vc[MAXT];
  Team *team;
  struct TaskGroup *grp;
  struct Frame *parent;
};
struct TaskGroup { int pending = 0; TaskGroup *prev = nullptr; uint32_t vc[MAXT] = {0}; };
struct Frame { int children = 0; uint32_t vc[MAXT] = {0}; }; // per running (implicit/explicit) task

struct Team {
  int n = 1;
  int level = 0, active_level = 0;
  Team *parent = nullptr;
  int parent_tnum = 0;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  std::vector<int> tids;
  int running = 0;
  // barrier
  int arrived = 0; uint64_t gen = 0; uint32_t bvc[MAXT] = {0};
  std::deque<WorkShare *> ws; uint64_t ws_base = 0;
  std::deque<Task *> tasks; int tasks_outstanding = 0;
  bool cancelled = false;
  uint32_t endvc[MAXT] = {0};
};

struct Thread {
  int tid = 0;
  pthread_t pt{};
  volatile int go = 0;
  State st = IDLE;
  uint32_t vc[MAXT] = {0};
  uint64_t nev = 0;      // local events
  uint64_t nforced = 0;  // local forced hand-overs
  Team *team = nullptr;
  int tnum = 0;
  uint64_t wsidx = 0;
  WorkShare *cur_ws = nullptr; std::vector<WorkShare *> orphan;
  long cur_istart = 0, cur_iend = 0, cur_oiter = 0;
  TaskGroup *grp = nullptr;
  Frame *frame = nullptr; Frame rootframe;
  const void *wait = nullptr;
  uint64_t prio = 0;
  bool stalled = false;
  const std::function<void()> *body = nullptr; Team *join = nullptr; // callers
  void *(*pfn)(void *) = nullptr; void *parg = nullptr; void *pret = nullptr; // pthread_create
  bool is_pthread = false;
  uintptr_t slo = 0, shi = 0;
  bool started = false;
  int icv_nthreads = 0;
  int nmaster = 0;       // number of multi-thread teams this thread is master of
  uint64_t nregions = 0; // regions opened by this thread
  size_t dpos = 0, fpos = 0; // replay cursors
};

static Thread T[MAXT];
static int g_nT = 0;            // created
static Thread *g_cur = nullptr;
static int g_live = 0;          // RUNNABLE or BLOCKED threads
static bool g_multi = false;    // more than one live thread
static bool g_on = false;
static Options O;
static Rng R(1);
// Environment choices (team size, chunk order, task order) are keyed on stable
// coordinates instead of being drawn from the schedule stream, so that they are
// the same when a recorded or minimised schedule is replayed.
static Rng env_rng(uint64_t a, uint64_t b, uint64_t c) {
  Rng r(O.sched_seed ^ 0xE17A1465ull ^ (a << 56) ^ (b << 8) ^ (c * 0x9E3779B97F4A7C15ull));
  r.next();
  return r;
}
static int64_t g_countdown = INT64_MAX;
static double g_backoff = 1;      // grows when a run has used up its switch budget
static uint64_t g_vol = 0;        // voluntary switches so far
static uint64_t g_vtime = 0;
static uint64_t g_events = 0;
static uint64_t g_since_switch = 0;
static uint64_t g_prio_low = 1u << 30;
static std::vector<Decision> dlist[MAXT], flist[MAXT];

bool active() { return g_on; }
uint64_t sim_now_ns() { return 1700000000ull * 1000000000ull + g_vtime * 3; }

static inline void futex_wait(volatile int *a, int v) {
  syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static inline void futex_wake(volatile int *a) {
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void flush_stats() {
  if (!g_sh) return;
  g_sh->events = g_events;
  g_sh->sim_ns = g_vtime * 3;
}

[[noreturn]] void violation(Kind k, const std::string &sig, const std::string &msg) {
  flush_stats();
  if (g_sh) {
    if (g_sh->kind == OK) {
      g_sh->kind = k;
      snprintf(g_sh->sig, sizeof g_sh->sig, "%s", sig.c_str());
      snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
    }
  } else {
    fprintf(stderr, "VIOLATION %s: %s\n", sig.c_str(), msg.c_str());
  }
  _exit(k == HARNESS ? 91 : 90);
}

static inline void vjoin(uint32_t *a, const uint32_t *b) {
  for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i];
}

static void hash_mix(uint64_t &h, uint64_t v) { h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; }

static void record(int t, uint64_t k, int u, bool forced) {
  if (!g_sh) return;
  hash_mix(g_sh->sched_hash, ((uint64_t)t << 56) ^ ((uint64_t)u << 48) ^ ((uint64_t)forced << 47) ^ k);
  if (forced) g_sh->forced++; else g_sh->switches++;
  if (g_sh->ndec < MAXDEC && k < 0xffffffffull) {
    Decision &d = g_sh->dec[g_sh->ndec++];
    d.k = (uint32_t)k; d.t = t; d.u = u; d.forced = forced; d.pad = 0;
  } else g_sh->dec_overflow = 1;
}

static void set_countdown_replay(Thread *t) {
  auto &dl = dlist[t->tid];
  while (t->dpos < dl.size() && dl[t->dpos].k <= t->nev) t->dpos++;
  if (t->dpos < dl.size()) g_countdown = (int64_t)(dl[t->dpos].k - t->nev);
  else g_countdown = INT64_MAX;
}

static void draw_countdown() {
  if (O.replay) return;
  if (O.strategy == 3) { g_countdown = INT64_MAX; return; }
  double u = R.uni(); if (u < 1e-12) u = 1e-12;
  double x = -__builtin_log(u) * O.mean_interval * g_backoff;
  g_countdown = 1 + (int64_t)x;
}

static void wait_go(Thread *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait(&t->go, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}

static void switch_to(Thread *from, Thread *to, bool from_waits) {
  g_cur = to;
  g_since_switch = 0;
  if (O.replay) set_countdown_replay(to);
  if (from == to) return;
  __atomic_store_n(&to->go, 1, __ATOMIC_RELEASE);
  futex_wake(&to->go);
  if (from_waits) wait_go(from);
}

static Thread *pick(Thread *self, bool allow_self) {
  // candidates
  Thread *c[MAXT]; int n = 0;
  for (int i = 0; i < g_nT; i++)
    if (T[i].st == RUNNABLE && (allow_self || &T[i] != self)) c[n++] = &T[i];
  if (!n) return nullptr;
  if (O.strategy == 1) {
    Thread *b = c[0];
    for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
    return b;
  }
  if (O.strategy == 2) {
    Thread *d[MAXT]; int m = 0;
    for (int i = 0; i < n; i++) if (!c[i]->stalled) d[m++] = c[i];
    if (m) return d[R.below(m)];
    for (int i = 0; i < n; i++) c[i]->stalled = false;
  }
  return c[R.below(n)];
}

static void dump_deadlock();

// Current thread cannot continue (state already set). Choose someone else.
static void forced_switch(Thread *self, bool self_waits) {
  self->nforced++;
  Thread *nx = nullptr;
  if (O.replay) {
    auto &fl = flist[self->tid];
    while (self->fpos < fl.size() && fl[self->fpos].k < self->nforced) self->fpos++;
    if (self->fpos < fl.size() && fl[self->fpos].k == self->nforced) {
      Thread *u = &T[fl[self->fpos].u];
      if (u->st == RUNNABLE) nx = u;
    }
    if (!nx) for (int i = 0; i < g_nT; i++) if (T[i].st == RUNNABLE) { nx = &T[i]; break; }
  } else {
    nx = pick(self, true);
    if (!O.replay) draw_countdown();
  }
  if (!nx) dump_deadlock();
  record(self->tid, self->nforced, nx->tid, true);
  switch_to(self, nx, self_waits);
}

static void dump_deadlock() {
  std::string s;
  for (int i = 0; i < g_nT; i++)
    if (T[i].st != IDLE && T[i].st != DONE) {
      char b[128]; snprintf(b, sizeof b, " T%d(state %d, events %llu)", i, T[i].st, (unsigned long long)T[i].nev);
      s += b;
    }
  violation(DEADLOCK, "deadlock", "no simulated thread can proceed:" + s);
}

static void voluntary(Thread *t, Thread *u) {
  if (u == t) return;
  if ((++g_vol & 0x3fff) == 0) g_backoff *= 6;
  record(t->tid, t->nev, u->tid, false);
  switch_to(t, u, true);
}

// A preemption opportunity decided by the countdown.
static __attribute__((noinline)) void slow_event(Thread *t) {
  if (O.replay) {
    auto &dl = dlist[t->tid];
    if (t->dpos < dl.size() && dl[t->dpos].k == t->nev) {
      Thread *u = &T[dl[t->dpos].u];
      t->dpos++;
      set_countdown_replay(t);
      if (u->st == RUNNABLE && u != t) voluntary(t, u);
    } else set_countdown_replay(t);
    return;
  }
  draw_countdown();
  if (O.strategy == 1) { t->prio = --g_prio_low; }
  if (O.strategy == 2 && R.below(3) == 0) { t->stalled = true; g_sh && g_sh->stalls++; }
  Thread *u = pick(t, true);
  if (u && u != t) voluntary(t, u);
}

static inline void event(Thread *t) {
  t->nev++; g_vtime++; g_events++; g_since_switch++;
  if (UNLIKELY(--g_countdown <= 0)) slow_event(t);
  else if (UNLIKELY(g_since_switch > 8000000 && !O.replay)) {
    g_since_switch = 0;
    Thread *c[MAXT]; int n = 0;
    for (int i = 0; i < g_nT; i++) if (T[i].st == RUNNABLE && &T[i] != t) c[n++] = &T[i];
    if (n) voluntary(t, c[R.below(n)]);
  }
  if (UNLIKELY(g_events > O.max_events))
    violation(LIVELOCK, "livelock", "simulated run exceeded its event budget without finishing");
}

// A synchronisation event: always a candidate for a switch.
static void sync_point(Thread *t) {
  if (!g_multi) return;
  if (g_sh) g_sh->sync_ops++;
  event(t);
  if (O.replay) return;
  if (O.strategy == 1) {
    Thread *u = pick(t, true);
    if (u && u != t) voluntary(t, u);
    return;
  }
  double p = 0.35 / g_backoff;
  if (p > 0 && R.uni() < p) {
    Thread *u = pick(t, true);
    if (u && u != t) voluntary(t, u);
  }
}
void point() { if (g_on && g_cur) sync_point(g_cur); }

static void block_on(Thread *t, const void *w) {
  t->st = BLOCKED; t->wait = w;
  forced_switch(t, true);
}
static void wake_all(const void *w) {
  for (int i = 0; i < g_nT; i++)
    if (T[i].st == BLOCKED && T[i].wait == w) { T[i].st = RUNNABLE; T[i].wait = nullptr; }
}

// ---------------------------------------------------------------- shadow
struct Cell {
  uint32_t wclk, rclk;
  uint32_t wpc, rpc;
  uint8_t wtid, rtid, wmask, rmask;
  uint8_t watomic, rstate, ratomic, pad; // rstate 0 none 1 single 2 vector
  uint32_t *rv;
};
constexpr int PSH = 14;                  // 16 KiB pages
constexpr size_t CPP = (1u << PSH) / 8;  // cells per page
struct PageTab {
  std::vector<uintptr_t> key; std::vector<Cell *> val; size_t n = 0, cap = 0;
  void init() { cap = 1 << 14; key.assign(cap, 0); val.assign(cap, nullptr); n = 0; }
  Cell *find(uintptr_t p) {
    size_t h = (p * 0x9E3779B97F4A7C15ull) >> 20;
    for (;; h++) { h &= cap - 1; if (key[h] == p) return val[h]; if (!key[h]) return nullptr; }
  }
  void put(uintptr_t p, Cell *c) {
    if (2 * n > cap) { auto k = key; auto v = val; cap *= 2; key.assign(cap, 0); val.assign(cap, nullptr); n = 0;
      for (size_t i = 0; i < k.size(); i++) if (k[i]) put(k[i], v[i]); }
    size_t h = (p * 0x9E3779B97F4A7C15ull) >> 20;
    for (;; h++) { h &= cap - 1; if (!key[h]) { key[h] = p; val[h] = c; n++; return; } }
  }
};
static PageTab PT;
static bool PT_ready = false;
static uintptr_t pc_key[256]; static Cell *pc_val[256];

static Cell *page_of(uintptr_t a, bool create) {
  uintptr_t p = a >> PSH;
  unsigned s = p & 255;
  if (pc_key[s] == p) return pc_val[s];
  Cell *c = PT.find(p);
  if (!c) {
    if (!create) return nullptr;
    c = (Cell *)mmap(nullptr, CPP * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (c == MAP_FAILED) violation(HARNESS, "oom", "shadow mmap failed");
    PT.put(p, c);
  }
  pc_key[s] = p; pc_val[s] = c;
  return c;
}

static void shadow_clear(uintptr_t a, size_t n) {
  if (!PT_ready || !PT.n) return;
  uintptr_t e = (a + n + 7) & ~7ull; a &= ~7ull;
  while (a < e) {
    uintptr_t pe = ((a >> PSH) + 1) << PSH; if (pe > e) pe = e;
    Cell *c = page_of(a, false);
    if (c) {
      Cell *b = c + ((a & ((1u << PSH) - 1)) >> 3);
      size_t m = (pe - a) >> 3;
      for (size_t i = 0; i < m; i++) { if (b[i].rv) __libc_free(b[i].rv); memset(&b[i], 0, sizeof(Cell)); }
    }
    a = pe;
  }
}

static void report_race(Thread *t, uintptr_t a, bool wr, uint32_t pc, bool pw, int ptid, uint32_t ppc) {
  char sig[256], msg[512];
  uint32_t p1 = std::min(pc, ppc), p2 = std::max(pc, ppc);
  snprintf(sig, sizeof sig, "race pc=0x%x,0x%x", p1, p2);
  snprintf(msg, sizeof msg,
           "unsynchronised %s by thread %d (pc 0x%x) and %s by thread %d (pc 0x%x) of the same memory location",
           pw ? "write" : "read", ptid, ppc, wr ? "write" : "read", t->tid, pc);
  violation(RACE, sig, msg);
}

static inline uint64_t ccount() { return 0; }

// returns true if another thread's unordered/conflicting record is present
static inline bool cell_conflict(const Cell *c, int tid, bool wr) {
  if (c->wmask && c->wtid != tid) return true;
  if (wr && c->rstate && (c->rstate == 2 || c->rtid != tid)) return true;
  return false;
}

static void cell_access(Thread *t, uintptr_t a, unsigned mask, bool wr, bool atomic, uint32_t pc) {
  Cell *c = page_of(a, true) + ((a & ((1u << PSH) - 1)) >> 3);
  const int tid = t->tid;
  const uint32_t *V = t->vc;
  // own write of the same bytes in this epoch: whoever races with this access
  // races with that write as well
  if (c->wtid == tid && c->wclk == V[tid] && !(mask & ~c->wmask) && !c->watomic && (!wr || !c->rstate)) return;
  if (!wr && c->rstate == 1 && c->rtid == tid && c->rclk == V[tid] && !(mask & ~c->rmask) && !c->ratomic && (!c->wmask || c->wtid == tid)) return;
  if (cell_conflict(c, tid, wr)) {
    if (g_sh) g_sh->conflicts++;
    if (!O.replay && O.p_hot > 0 && O.strategy != 3 && R.uni() < O.p_hot / g_backoff) {
      // preempt right before a conflicting access
      Thread *u = nullptr;
      if (O.strategy == 1) { t->prio = --g_prio_low; }
      u = pick(t, false);
      if (u) { voluntary(t, u); c = page_of(a, true) + ((a & ((1u << PSH) - 1)) >> 3); }
    }
  }
  if ((c->wmask & mask) && c->wtid != tid && c->wclk > V[c->wtid] && !(atomic && c->watomic))
    report_race(t, a, wr, pc, true, c->wtid, c->wpc);
  if (wr) {
    if (c->rstate == 1) {
      if ((c->rmask & mask) && c->rtid != tid && c->rclk > V[c->rtid] && !(atomic && c->ratomic))
        report_race(t, a, wr, pc, false, c->rtid, c->rpc);
    } else if (c->rstate == 2 && (c->rmask & mask)) {
      for (int i = 0; i < MAXT; i++)
        if (i != tid && c->rv[i] > V[i] && !(atomic && c->ratomic))
          report_race(t, a, wr, pc, false, i, c->rpc);
    }
    if (c->wtid == tid && c->wclk == V[tid] && c->watomic == atomic) c->wmask |= mask;
    else c->wmask = mask;
    c->wtid = tid; c->wclk = V[tid]; c->wpc = pc; c->watomic = atomic;
    if (c->rstate && !(c->rmask & ~mask)) {
      c->rstate = 0; c->rmask = 0;
      if (c->rv) { __libc_free(c->rv); c->rv = nullptr; }
    }
  } else {
    if (c->rstate == 0) {
      c->rstate = 1; c->rtid = tid; c->rclk = V[tid]; c->rmask = mask; c->ratomic = atomic;
    } else if (c->rstate == 1) {
      if (c->rtid == tid) { c->rclk = V[tid]; c->rmask |= mask; c->ratomic = c->ratomic && atomic; }
      else if (c->rclk <= V[c->rtid]) { c->rtid = tid; c->rclk = V[tid]; c->rmask = mask; c->ratomic = atomic; }
      else {
        c->rv = (uint32_t *)__libc_calloc(MAXT, sizeof(uint32_t));
        c->rv[c->rtid] = c->rclk; c->rv[tid] = V[tid]; c->rmask |= mask; c->rstate = 2;
        c->ratomic = c->ratomic && atomic;
      }
    } else { c->rv[tid] = V[tid]; c->rmask |= mask; c->ratomic = c->ratomic && atomic; }
    c->rpc = pc;
  }
}

#ifdef SIM_PROFILE
struct Prof { std::map<uint32_t, uint64_t> m; uint64_t n = 0; } PF;
static void pf_dump() { std::vector<std::pair<uint64_t, uint32_t>> v; for (auto &x : PF.m) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; i++) fprintf(stderr, "PROF %llu 0x%x\n", (unsigned long long)v[i].first, v[i].second); }
#endif
static inline void access(uintptr_t a, size_t sz, bool wr, uint32_t pc, bool atomic = false) {
  if (LIKELY(!g_multi)) return;
  Thread *t = g_cur;
#ifdef SIM_PROFILE
  if (!(++PF.n & 127)) PF.m[pc]++;
#endif
  event(t);
  if (!O.race_check) return;
  // a worker's private stack is never shared in the code under test except
  // through nested teams; the master's stack holds the shared variables
  if (a >= t->slo && a < t->shi && !t->nmaster) return;
  uintptr_t e = a + sz;
  while (a < e) {
    uintptr_t b = a & ~7ull;
    unsigned lo = a - b, hi = (e - b) < 8 ? (unsigned)(e - b) : 8;
    unsigned mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
    cell_access(t, b, mask & 0xff, wr, atomic, pc);
    a = b + 8;
  }
}

// ------------------------------------------------------- sync variables
struct SyncVar { uint32_t vc[MAXT]; bool rc; };
static std::unordered_map<uintptr_t, SyncVar> *SV;
static SyncVar &sv(uintptr_t a) { if (!SV) SV = new std::unordered_map<uintptr_t, SyncVar>(); return (*SV)[a]; }

static void acquire(Thread *t, SyncVar &s) { vjoin(t->vc, s.vc); }
static void release(Thread *t, SyncVar &s) { vjoin(s.vc, t->vc); t->vc[t->tid]++; }

// locks keyed by address
struct Lock { int owner = -1; int depth = 0; int readers = 0; };
static std::unordered_map<uintptr_t, Lock> *LK;
static Lock &lk(uintptr_t a) { if (!LK) LK = new std::unordered_map<uintptr_t, Lock>(); return (*LK)[a]; }

static void lock_acquire(uintptr_t a, bool nest = false) {
  if (!g_on) { Lock &l = lk(a); l.owner = 0; l.depth++; return; }
  Thread *t = g_cur;
  sync_point(t);
  for (;;) {
    Lock &l = lk(a);
    if (l.owner < 0 && l.readers == 0) { l.owner = t->tid; l.depth = 1; break; }
    if (nest && l.owner == t->tid) { l.depth++; break; }
    block_on(t, (const void *)a);
  }
  acquire(t, sv(a));
}
static bool lock_try(uintptr_t a, bool nest = false) {
  if (!g_on) { Lock &l = lk(a); l.owner = 0; l.depth++; return true; }
  Thread *t = g_cur;
  sync_point(t);
  Lock &l = lk(a);
  if (l.owner < 0 && l.readers == 0) { l.owner = t->tid; l.depth = 1; }
  else if (nest && l.owner == t->tid) l.depth++;
  else return false;
  acquire(t, sv(a));
  return true;
}
static int lock_depth(uintptr_t a) { return lk(a).depth; }
static void lock_release(uintptr_t a) {
  Lock &l = lk(a);
  if (!g_on) { if (--l.depth <= 0) { l.owner = -1; l.depth = 0; } return; }
  Thread *t = g_cur;
  if (--l.depth > 0) return;
  l.depth = 0;
  release(t, sv(a));
  l.owner = -1;
  wake_all((const void *)a);
  sync_point(t);
}
static void rd_acquire(uintptr_t a) {
  if (!g_on) { lk(a).readers++; return; }
  Thread *t = g_cur; sync_point(t);
  while (lk(a).owner >= 0) block_on(t, (const void *)a);
  lk(a).readers++;
  acquire(t, sv(a));
}
static void rw_release(uintptr_t a) {
  Lock &l = lk(a);
  if (l.owner >= 0) { lock_release(a); return; }
  if (l.readers > 0) l.readers--;
  if (!g_on) return;
  release(g_cur, sv(a));
  wake_all((const void *)a);
  sync_point(g_cur);
}

// ----------------------------------------------------------- team engine
static __thread int tls_tid = 0;

static void run_explicit_task(Thread *t, Task *k);
static bool run_one_task(Thread *t, Team *tm);

static void team_barrier(Thread *t) {
  Team *tm = t->team;
  if (!tm || tm->n <= 1) { while (tm && run_one_task(t, tm)) {} return; }
  sync_point(t);
  while (run_one_task(t, tm)) {}
  uint64_t g = tm->gen;
  vjoin(tm->bvc, t->vc);
  if (++tm->arrived == tm->n) {
    while (run_one_task(t, tm)) { vjoin(tm->bvc, t->vc); }
    // all arrived and nothing outstanding
    uint32_t all[MAXT]; memcpy(all, tm->bvc, sizeof all);
    memset(tm->bvc, 0, sizeof tm->bvc);
    tm->arrived = 0; tm->gen++;
    for (int id : tm->tids) { vjoin(T[id].vc, all); T[id].vc[id]++; }
    wake_all(tm);
    sync_point(t);
  } else {
    while (tm->gen == g) block_on(t, tm);
  }
}

static void body_of(Thread *t) {
  if (t->body) { (*t->body)(); return; }
  if (t->is_pthread) { t->pret = t->pfn(t->parg); return; }
  Team *tm = t->team;
  tm->fn(tm->data);
  // implicit end-of-region: drain tasks
  while (run_one_task(t, tm)) {}
}

static void *worker_main(void *p) {
  Thread *t = (Thread *)p;
  tls_tid = t->tid;
  {
    pthread_attr_t at; void *lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    t->slo = (uintptr_t)lo; t->shi = (uintptr_t)lo + sz;
  }
  __atomic_store_n(&t->started, true, __ATOMIC_RELEASE);
  for (;;) {
    wait_go(t);
    try { body_of(t); }
    catch (const std::exception &e) {
      violation(EXCEPTION, std::string("exception in thread: ") + e.what(), std::string("uncaught exception escaped a simulated thread: ") + e.what());
    } catch (...) { violation(EXCEPTION, "exception in thread", "uncaught exception escaped a simulated thread"); }
    bool fini = t->is_pthread;
    Team *tm = t->body ? t->join : t->team;
    void *waitobj = t->is_pthread ? (void *)t : (void *)tm;
    if (tm) { tm->running--; vjoin(tm->endvc, t->vc); }
    t->vc[t->tid]++;
    t->st = fini ? DONE : IDLE;
    t->body = nullptr; t->join = nullptr; t->team = nullptr;
    g_live--; g_multi = g_live > 1;
    if (t->is_pthread) wake_all(waitobj);
    else if (tm && tm->running == 0) wake_all(&tm->running);
    forced_switch(t, false);
    if (fini) return nullptr;
  }
}

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static Thread *get_worker() {
  for (int i = 1; i < g_nT; i++) if (T[i].st == IDLE) return &T[i];
  if (g_nT >= MAXT) violation(HARNESS, "too many threads", "simulator thread table exhausted");
  Thread *t = &T[g_nT]; t->tid = g_nT; g_nT++;
  if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 32u << 20);
  if (real_pthread_create(&t->pt, &at, worker_main, t)) violation(HARNESS, "pthread_create", "cannot create worker");
  pthread_attr_destroy(&at);
  while (!__atomic_load_n(&t->started, __ATOMIC_ACQUIRE)) usleep(50);
  return t;
}

static void arm(Thread *w, Thread *parent) {
  vjoin(w->vc, parent->vc); w->vc[w->tid]++;
  w->st = RUNNABLE; w->wait = nullptr; w->stalled = false;
  w->prio = R.next() >> 32 | (1ull << 33);
  w->wsidx = 0; w->cur_ws = nullptr; w->grp = nullptr;
  w->rootframe = Frame(); w->frame = &w->rootframe;
  g_live++; g_multi = g_live > 1;
}

static WorkShare *make_ws() { return new WorkShare(); }

static void note_region(void *fn) {
  if (!g_sh) return;
  g_sh->regions++;
  for (uint32_t i = 0; i < g_sh->nregion_fn; i++) if (g_sh->region_fn[i] == (uint64_t)fn) return;
  if (g_sh->nregion_fn < 64) g_sh->region_fn[g_sh->nregion_fn++] = (uint64_t)fn;
}

static void parallel(void (*fn)(void *), void *data, unsigned nreq, WorkShare *ws0) {
  Thread *t = g_cur ? g_cur : &T[0];
  Team tm; tm.fn = fn; tm.data = data;
  Team *par = t->team;
  int plevel = par ? par->level : 0, palevel = par ? par->active_level : 0;
  int n = 1;
  if (g_on) {
    n = nreq ? (int)nreq : (t->icv_nthreads ? t->icv_nthreads : O.nthreads);
    if (palevel >= O.max_levels) n = 1;
    Rng er = env_rng(t->tid, t->nregions++, 1);
    if (n > 1 && O.p_undersize > 0 && er.uni() < O.p_undersize) {
      n = 1 + (int)er.below(n - 1);
      if (g_sh) g_sh->teams_undersized++;
    }
    // stay within the thread table
    int avail = 1; for (int i = 1; i < g_nT; i++) if (T[i].st == IDLE) avail++;
    avail += MAXT - g_nT; if (n > avail) n = avail;
  }
  tm.n = n; tm.level = plevel + 1; tm.active_level = palevel + (n > 1);
  tm.parent = par; tm.parent_tnum = t->tnum;
  if (ws0) tm.ws.push_back(ws0);
  // save master context
  int s_tnum = t->tnum; uint64_t s_ws = t->wsidx; WorkShare *s_cur = t->cur_ws; TaskGroup *s_grp = t->grp; Frame *s_fr = t->frame;
  Frame fr;
  t->team = &tm; t->tnum = 0; t->wsidx = 0; t->cur_ws = nullptr; t->grp = nullptr; t->frame = &fr;
  tm.tids.push_back(t->tid);
  if (n > 1) {
    note_region((void *)fn);
    if (g_sh && (uint32_t)n > g_sh->max_threads) g_sh->max_threads = n;
    tm.running = n - 1;
    t->nmaster++;
    for (int i = 1; i < n; i++) {
      Thread *w = get_worker();
      w->team = &tm; w->tnum = i; w->icv_nthreads = t->icv_nthreads;
      w->body = nullptr; w->is_pthread = false;
      arm(w, t);
      tm.tids.push_back(w->tid);
    }
    t->vc[t->tid]++;
    if (O.replay) set_countdown_replay(t);
    sync_point(t);
  }
  fn(data);
  while (run_one_task(t, &tm)) {}
  if (n > 1) {
    sync_point(t);
    while (tm.running > 0) block_on(t, &tm.running);
    while (run_one_task(t, &tm)) {}
    vjoin(t->vc, tm.endvc); t->vc[t->tid]++;
    t->nmaster--;
  }
  for (auto *w : tm.ws) delete w;
  t->team = par; t->tnum = s_tnum; t->wsidx = s_ws; t->cur_ws = s_cur; t->grp = s_grp; t->frame = s_fr;
}

// work shares: each thread's k-th construct maps to the same object
static WorkShare *enter_ws(Thread *t, bool &first) {
  Team *tm = t->team;
  static WorkShare dummy;
  if (!tm) {
    // orphaned construct outside any parallel region: a team of one, every
    // encounter is a fresh work share (never entered by anybody else)
    WorkShare *w = make_ws(); t->orphan.push_back(w);
    t->cur_ws = w; first = true; w->init = true;
    return w;
  }
  uint64_t idx = t->wsidx++;
  while (tm->ws.size() <= idx) tm->ws.push_back(make_ws());
  WorkShare *w = tm->ws[idx];
  t->cur_ws = w;
  first = !w->init;
  w->init = true;
  return w;
}

// Iterations are indexed 0..count-1.
static long loop_count(long s, long e, long inc) {
  if (inc > 0) return e > s ? (e - s + inc - 1) / inc : 0;
  return e < s ? (s - e - inc - 1) / (-inc) : 0;
}
static unsigned long loop_count_u(bool up, unsigned long s, unsigned long e, unsigned long inc) {
  if (up) return e > s ? (e - s + inc - 1) / inc : 0;
  unsigned long d = -inc; return s > e ? (s - e + d - 1) / d : 0;
}
static void ws_init(WorkShare *w, long count, long chunk, int kind, bool perm) {
  w->end = count; w->next = 0; w->chunk = chunk < 1 ? 1 : chunk; w->kind = kind;
  w->permute = perm && kind == 1 && count > 0;
  if (w->permute) {
    w->nchunks = (count + w->chunk - 1) / w->chunk;
    w->order.resize(w->nchunks);
    for (long i = 0; i < w->nchunks; i++) w->order[i] = i;
    Rng er = env_rng(0, (uint64_t)count * 131 + chunk, 2);
    for (long i = w->nchunks - 1; i > 0; i--) std::swap(w->order[i], w->order[er.below(i + 1)]);
    w->pos = 0;
    if (g_sh) g_sh->chunks_permuted++;
  }
}
static bool ws_next(Thread *t, WorkShare *w, long &lo, long &hi) {
  sync_point(t);
  w = t->cur_ws;
  if (w->kind == 0) {
    // static,chunk: thread-private progress kept in cur_oiter
    Team *tm = t->team; int n = tm ? tm->n : 1;
    long base = t->cur_oiter;
    long c = w->chunk;
    lo = base; if (lo >= w->end) return false;
    hi = std::min(lo + c, w->end);
    t->cur_oiter = base + (long)n * c;
    return true;
  }
  if (w->permute) {
    if (w->pos >= w->order.size()) return false;
    long c = w->order[w->pos++];
    lo = c * w->chunk; hi = std::min(lo + w->chunk, w->end);
    return true;
  }
  if (w->next >= w->end) return false;
  long c = w->chunk;
  if (w->kind == 2) {
    Team *tm = t->team; int n = tm ? tm->n : 1;
    long q = (w->end - w->next + n - 1) / n; if (q > c) c = q;
  }
  lo = w->next; hi = std::min(lo + c, w->end); w->next = hi;
  return true;
}

static bool loop_start(long s, long e, long inc, long chunk, int kind, bool nonmono, long *is, long *ie) {
  Thread *t = g_cur ? g_cur : &T[0];
  bool first; WorkShare *w = enter_ws(t, first);
  if (first) { ws_init(w, loop_count(s, e, inc), chunk, kind, nonmono && O.permute_chunks && g_on); w->start = s; w->incr = inc; }
  if (kind == 0) {
    Team *tm = t->team; int n = tm ? tm->n : 1;
    if (chunk <= 0) { long cnt = w->end; long q = (cnt + n - 1) / n; w->chunk = q < 1 ? 1 : q; }
    t->cur_oiter = (long)t->tnum * w->chunk;
  }
  long lo, hi;
  if (!is) return true;
  if (!ws_next(t, w, lo, hi)) return false;
  *is = s + lo * inc; *ie = s + hi * inc;
  t->cur_istart = lo; t->cur_iend = hi;
  return true;
}
static bool loop_next(long *is, long *ie) {
  Thread *t = g_cur ? g_cur : &T[0];
  WorkShare *w = t->cur_ws; long lo, hi;
  if (!ws_next(t, w, lo, hi)) return false;
  *is = w->start + lo * w->incr; *ie = w->start + hi * w->incr;
  t->cur_istart = lo; t->cur_iend = hi;
  return true;
}
static bool loop_start_u(bool up, unsigned long s, unsigned long e, unsigned long inc, unsigned long chunk, int kind, bool nonmono, unsigned long *is, unsigned long *ie) {
  Thread *t = g_cur ? g_cur : &T[0];
  bool first; WorkShare *w = enter_ws(t, first);
  if (first) { ws_init(w, (long)loop_count_u(up, s, e, inc), (long)chunk, kind, nonmono && O.permute_chunks && g_on); w->start = (long)s; w->incr = (long)inc; }
  if (kind == 0) {
    Team *tm = t->team; int n = tm ? tm->n : 1;
    if (!chunk) { long q = (w->end + n - 1) / n; w->chunk = q < 1 ? 1 : q; }
    t->cur_oiter = (long)t->tnum * w->chunk;
  }
  long lo, hi;
  if (!is) return true;
  if (!ws_next(t, w, lo, hi)) return false;
  *is = s + (unsigned long)lo * inc; *ie = s + (unsigned long)hi * inc;
  t->cur_istart = lo; t->cur_iend = hi;
  return true;
}
static bool loop_next_u(unsigned long *is, unsigned long *ie) {
  Thread *t = g_cur ? g_cur : &T[0];
  WorkShare *w = t->cur_ws; long lo, hi;
  if (!ws_next(t, w, lo, hi)) return false;
  *is = (unsigned long)w->start + (unsigned long)lo * (unsigned long)w->incr;
  *ie = (unsigned long)w->start + (unsigned long)hi * (unsigned long)w->incr;
  t->cur_istart = lo; t->cur_iend = hi;
  return true;
}

// ----------------------------------------------------------- tasks
static void run_explicit_task(Thread *t, Task *k) {
  Frame fr; Frame *sf = t->frame; TaskGroup *sg = t->grp;
  t->frame = &fr; t->grp = k->grp;
  vjoin(t->vc, k->vc);
  k->fn(k->data);
  // children must not outlive this frame
  while (fr.children > 0 && run_one_task(t, k->team)) {}
  t->frame = sf; t->grp = sg;
  if (k->parent) { k->parent->children--; vjoin(k->parent->vc, t->vc); }
  if (k->grp) { k->grp->pending--; vjoin(k->grp->vc, t->vc); }
  k->team->tasks_outstanding--;
  vjoin(k->team->bvc, t->vc); vjoin(k->team->endvc, t->vc);
  t->vc[t->tid]++;
  if (k->buf) free(k->buf);
  wake_all((void *)&k->team->tasks);
  delete k;
}
static bool run_one_task(Thread *t, Team *tm) {
  if (!tm) return false;
  for (;;) {
    if (!tm->tasks.empty()) {
      size_t i = (g_on && tm->tasks.size() > 1) ? env_rng(t->tid, t->nev, 3).below(tm->tasks.size()) : 0;
      Task *k = tm->tasks[i]; tm->tasks.erase(tm->tasks.begin() + i);
      run_explicit_task(t, k);
      return true;
    }
    return false;
  }
}

// ------------------------------------------------------------- simulate
void simulate(const Options &o, const std::function<void()> &f) {
  if (g_on) violation(HARNESS, "nested simulate", "simulate() is not reentrant");
  O = o;
  R = Rng(o.sched_seed);
  if (!PT_ready) { PT.init(); PT_ready = true; }
  for (int i = 0; i < MAXT; i++) { dlist[i].clear(); flist[i].clear(); T[i].dpos = T[i].fpos = 0; T[i].nev = T[i].nforced = 0; T[i].nregions = 0; }
  for (auto &d : o.decisions) (d.forced ? flist : dlist)[d.t].push_back(d);
  if (g_nT == 0) { T[0].tid = 0; g_nT = 1; T[0].pt = pthread_self(); T[0].vc[0] = 1; }
  Thread *t = &T[0];
  t->st = RUNNABLE; t->prio = R.next() >> 32 | (1ull << 33); t->team = nullptr; t->tnum = 0; t->frame = &t->rootframe;
  g_cur = t; g_live = 1; g_multi = false; g_since_switch = 0; g_backoff = 1; g_vol = 0;
  g_on = true;
  if (O.replay) set_countdown_replay(t); else draw_countdown();
  f();
  g_on = false; g_multi = false;
  flush_stats();
#ifdef SIM_PROFILE
  pf_dump();
#endif
}

void run_callers(const std::vector<std::function<void()>> &fs) {
  if (!g_on) { for (auto &f : fs) f(); return; }
  Thread *t = g_cur;
  Team tm; tm.n = 1; tm.level = 0; tm.running = (int)fs.size();
  std::vector<Team *> own;
  if (g_sh && fs.size() > g_sh->max_threads) g_sh->max_threads = fs.size();
  for (auto &f : fs) {
    Thread *w = get_worker();
    // each caller is an initial thread: its "team" is only used for joining
    w->team = nullptr; w->tnum = 0; w->is_pthread = false;
    w->body = &f; w->join = &tm; w->icv_nthreads = 0;
    arm(w, t);
  }
  t->vc[t->tid]++;
  if (O.replay) set_countdown_replay(t);
  sync_point(t);
  while (tm.running > 0) block_on(t, &tm.running);
  vjoin(t->vc, tm.endvc); t->vc[t->tid]++;
}

} // namespace sim

using namespace sim;

// =============================================================== libgomp ABI
static inline Thread *me() { return g_cur ? g_cur : &T[0]; }
extern "C" {

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) {
  violation(HARNESS, "GOMP_parallel_reductions", "task reductions on parallel are not supported by the simulator");
}
#define PARLOOP(NAME, KIND, NM) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, unsigned) { \
    WorkShare *w = make_ws(); w->init = true; ws_init(w, loop_count(s, e, inc), chunk, KIND, NM && O.permute_chunks && g_on); \
    w->start = s; w->incr = inc; if (KIND == 0 && chunk <= 0) w->chunk = -1; parallel(fn, data, n, w); }
#define PARLOOPR(NAME) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned) { \
    WorkShare *w = make_ws(); w->init = true; ws_init(w, loop_count(s, e, inc), 1, 1, false); w->start = s; w->incr = inc; parallel(fn, data, n, w); }
PARLOOP(static, 1, false)
PARLOOP(dynamic, 1, false)
PARLOOP(guided, 2, false)
PARLOOP(nonmonotonic_dynamic, 1, true)
PARLOOP(nonmonotonic_guided, 2, false)
PARLOOPR(runtime) PARLOOPR(nonmonotonic_runtime) PARLOOPR(maybe_nonmonotonic_runtime)

// After GOMP_parallel_loop_*, the body calls only ..._next: attach lazily.
static bool next_any(long *is, long *ie) {
  Thread *t = me();
  if (!t->cur_ws) { bool f; enter_ws(t, f); }
  return loop_next(is, ie);
}
static bool next_any_u(unsigned long *is, unsigned long *ie) {
  Thread *t = me();
  if (!t->cur_ws) { bool f; enter_ws(t, f); }
  return loop_next_u(is, ie);
}
#define LOOP(NAME, KIND, NM) \
  bool GOMP_loop_##NAME##_start(long s, long e, long inc, long chunk, long *is, long *ie) { return loop_start(s, e, inc, chunk, KIND, NM, is, ie); } \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_any(is, ie); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long s, unsigned long e, unsigned long inc, unsigned long chunk, unsigned long *is, unsigned long *ie) { return loop_start_u(up, s, e, inc, chunk, KIND, NM, is, ie); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long *is, unsigned long *ie) { return next_any_u(is, ie); }
#define LOOPR(NAME) \
  bool GOMP_loop_##NAME##_start(long s, long e, long inc, long *is, long *ie) { return loop_start(s, e, inc, 1, 1, false, is, ie); } \
  bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next_any(is, ie); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long s, unsigned long e, unsigned long inc, unsigned long *is, unsigned long *ie) { return loop_start_u(up, s, e, inc, 1, 1, false, is, ie); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long *is, unsigned long *ie) { return next_any_u(is, ie); }
LOOP(static, 0, false) LOOP(dynamic, 1, false) LOOP(guided, 2, false)
LOOP(nonmonotonic_dynamic, 1, true) LOOP(nonmonotonic_guided, 2, false)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
LOOP(ordered_static, 1, false) LOOP(ordered_dynamic, 1, false) LOOP(ordered_guided, 1, false) LOOPR(ordered_runtime)

bool GOMP_loop_start(long s, long e, long inc, long sched, long chunk, long *is, long *ie, uintptr_t *red, void **mem) {
  if (red) violation(HARNESS, "GOMP_loop_start red", "task reductions unsupported");
  if (mem) {
    // lastprivate(conditional)/scan memory: one zeroed block per construct
    Thread *t = me(); Team *tm = t->team; static std::map<std::pair<void*,uint64_t>, void*> mems;
    void *&m = mems[{tm, t->wsidx}]; if (!m) m = calloc(1, (size_t)*mem ? (size_t)*mem : 8); *mem = m;
  }
  return loop_start(s, e, inc, chunk, (sched & 0xff) == 1 ? 0 : 1, false, is, ie);
}
bool GOMP_loop_ull_start(bool up, unsigned long s, unsigned long e, unsigned long inc, long sched, unsigned long chunk, unsigned long *is, unsigned long *ie, uintptr_t *red, void **mem) {
  if (red || mem) violation(HARNESS, "GOMP_loop_ull_start red", "task reductions unsupported");
  return loop_start_u(up, s, e, inc, chunk, (sched & 0xff) == 1 ? 0 : 1, false, is, ie);
}
void GOMP_loop_end(void) { me()->cur_ws = nullptr; team_barrier(me()); }
bool GOMP_loop_end_cancel(void) { me()->cur_ws = nullptr; team_barrier(me()); return false; }
void GOMP_loop_end_nowait(void) { me()->cur_ws = nullptr; }
void GOMP_barrier(void) { team_barrier(me()); }
bool GOMP_barrier_cancel(void) { team_barrier(me()); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

static char crit_default, atom_default;
void GOMP_critical_start(void) { lock_acquire((uintptr_t)&crit_default); }
void GOMP_critical_end(void) { lock_release((uintptr_t)&crit_default); }
void GOMP_critical_name_start(void **p) { lock_acquire((uintptr_t)p); }
void GOMP_critical_name_end(void **p) { lock_release((uintptr_t)p); }
void GOMP_atomic_start(void) { lock_acquire((uintptr_t)&atom_default); }
void GOMP_atomic_end(void) { lock_release((uintptr_t)&atom_default); }

bool GOMP_single_start(void) {
  Thread *t = me(); bool f; WorkShare *w = enter_ws(t, f); t->cur_ws = nullptr; sync_point(t);
  if (!w->taken) { w->taken = true; return true; }
  return false;
}
void *GOMP_single_copy_start(void) {
  Thread *t = me(); bool f; WorkShare *w = enter_ws(t, f); sync_point(t);
  if (!w->taken) { w->taken = true; return nullptr; }
  team_barrier(t);
  return t->cur_ws->copyprivate;
}
void GOMP_single_copy_end(void *d) { Thread *t = me(); t->cur_ws->copyprivate = d; team_barrier(t); }
unsigned GOMP_sections_start(unsigned n) {
  Thread *t = me(); bool f; WorkShare *w = enter_ws(t, f);
  if (f) { w->nsections = n; w->nextsec = 1; }
  sync_point(t); w = t->cur_ws;
  return w->nextsec <= w->nsections ? w->nextsec++ : 0;
}
unsigned GOMP_sections2_start(unsigned n, uintptr_t *, void **) { return GOMP_sections_start(n); }
unsigned GOMP_sections_next(void) {
  Thread *t = me(); sync_point(t);
  if (!t->cur_ws) { bool f; enter_ws(t, f); }
  WorkShare *w = t->cur_ws; return w->nextsec <= w->nsections ? w->nextsec++ : 0;
}
void GOMP_sections_end(void) { me()->cur_ws = nullptr; team_barrier(me()); }
bool GOMP_sections_end_cancel(void) { me()->cur_ws = nullptr; team_barrier(me()); return false; }
void GOMP_sections_end_nowait(void) { me()->cur_ws = nullptr; }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
  WorkShare *w = make_ws(); w->init = true; w->nsections = count; w->nextsec = 1; parallel(fn, data, n, w);
}
void GOMP_ordered_start(void) {
  Thread *t = me(); sync_point(t); WorkShare *w = t->cur_ws; if (!w || !g_on) return;
  while (w->ordered_next < t->cur_istart) block_on(t, &w->ordered_next);
  acquire(t, sv((uintptr_t)&w->ordered_next));
}
void GOMP_ordered_end(void) {
  Thread *t = me(); WorkShare *w = t->cur_ws; if (!w || !g_on) return;
  release(t, sv((uintptr_t)&w->ordered_next));
  if (w->ordered_next < t->cur_iend) w->ordered_next++;
  if (w->ordered_next > t->cur_istart) t->cur_istart = w->ordered_next;
  wake_all(&w->ordered_next);
}
void GOMP_scope_start(uintptr_t *) {}

void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align,
               bool if_clause, unsigned flags, void **, int, void *) {
  Thread *t = me(); Team *tm = t->team;
  bool defer = g_on && tm && tm->n > 1 && if_clause && !(flags & 2);
  size_t al = arg_align < 16 ? 16 : arg_align;
  char *buf = (char *)malloc(arg_size + al + 16);
  char *arg = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1));
  if (cpyfn) cpyfn(arg, data); else memcpy(arg, data, arg_size);
  if (flags & 8) { // depend: serialise conservatively
    while (run_one_task(t, tm)) {}
    while (g_on && tm && tm->tasks_outstanding > 0) { if (!run_one_task(t, tm)) block_on(t, &tm->tasks); }
    if (tm) vjoin(t->vc, tm->endvc);
    defer = false;
  }
  if (!defer) { fn(arg); free(buf); return; }
  Task *k = new Task(); k->fn = fn; k->buf = buf; k->data = arg; k->creator = t->tid; k->team = tm;
  k->grp = t->grp; k->parent = nullptr; memcpy(k->vc, t->vc, sizeof k->vc);
  k->parent = t->frame; if (t->frame) t->frame->children++;
  if (k->grp) k->grp->pending++;
  tm->tasks_outstanding++; tm->tasks.push_back(k);
  t->vc[t->tid]++;
  wake_all(&tm->tasks);
  sync_point(t);
}
void GOMP_taskwait(void) {
  Thread *t = me(); Team *tm = t->team; if (!tm || !t->frame) return;
  while (t->frame->children > 0) { if (!run_one_task(t, tm)) block_on(t, &tm->tasks); }
  vjoin(t->vc, t->frame->vc);
}
void GOMP_taskwait_depend(void **) { GOMP_taskwait(); }
void GOMP_taskyield(void) { sync_point(me()); }
void GOMP_taskgroup_start(void) { Thread *t = me(); TaskGroup *g = new TaskGroup(); g->prev = t->grp; t->grp = g; }
void GOMP_taskgroup_end(void) {
  Thread *t = me(); Team *tm = t->team; TaskGroup *g = t->grp; if (!g) return;
  while (g->pending > 0) { if (!run_one_task(t, tm)) block_on(t, &tm->tasks); }
  vjoin(t->vc, g->vc); t->grp = g->prev; delete g;
}
static void taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, unsigned flags,
                     unsigned long ntasks, long start, long end, long step) {
  Thread *t = me();
  long cnt = loop_count(start, end, step); if (cnt <= 0) return;
  long nt = ntasks ? (long)ntasks : (t->team ? t->team->n : 1);
  if (flags & (1 << 9)) nt = (cnt + nt - 1) / nt; // grainsize
  if (nt > cnt) nt = cnt; if (nt < 1) nt = 1;
  bool grp = !(flags & (1 << 11));
  if (grp) GOMP_taskgroup_start();
  long done = 0;
  for (long i = 0; i < nt; i++) {
    long c = cnt / nt + (i < cnt % nt);
    std::vector<char> tmp(arg_size + 64); char *arg = tmp.data();
    size_t al = arg_align < 16 ? 16 : arg_align; arg = (char *)(((uintptr_t)arg + al - 1) & ~(uintptr_t)(al - 1));
    if (cpyfn) cpyfn(arg, data); else memcpy(arg, data, arg_size);
    ((long *)arg)[0] = start + done * step; ((long *)arg)[1] = start + (done + c) * step;
    done += c;
    GOMP_task(fn, arg, nullptr, arg_size, arg_align, !(flags & (1 << 10)) ? true : true, 0, nullptr, 0, nullptr);
  }
  if (grp) GOMP_taskgroup_end();
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long as, long aa, unsigned fl, unsigned long nt, int, long s, long e, long st) {
  taskloop(fn, data, cpyfn, as, aa, fl, nt, s, e, st);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long as, long aa, unsigned fl, unsigned long nt, int, unsigned long long s, unsigned long long e, unsigned long long st) {
  taskloop(fn, data, cpyfn, as, aa, fl, nt, (long)s, (long)e, (long)st);
}

// ---- omp_* API
int omp_get_thread_num(void) { Thread *t = me(); return t->team ? t->tnum : 0; }
int omp_get_num_threads(void) { Thread *t = me(); return t->team ? t->team->n : 1; }
int omp_get_max_threads(void) { if (!g_on) return 1; Thread *t = me(); return t->icv_nthreads ? t->icv_nthreads : O.nthreads; }
int omp_get_num_procs(void) { return g_on ? O.nthreads : 1; }
void omp_set_num_threads(int n) { me()->icv_nthreads = n; }
int omp_in_parallel(void) { Thread *t = me(); return t->team && t->team->active_level > 0; }
int omp_get_level(void) { Thread *t = me(); return t->team ? t->team->level : 0; }
int omp_get_active_level(void) { Thread *t = me(); return t->team ? t->team->active_level : 0; }
int omp_get_ancestor_thread_num(int l) { Thread *t = me(); Team *m = t->team; int n = t->tnum; while (m && m->level > l) { n = m->parent_tnum; m = m->parent; } return n; }
int omp_get_team_size(int l) { Thread *t = me(); Team *m = t->team; while (m && m->level > l) m = m->parent; return m ? m->n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return O.p_undersize > 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return O.max_levels > 1; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return O.max_levels; }
int omp_get_supported_active_levels(void) { return 8; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *m) { if (k) *k = 2; if (m) *m = 1; }
double omp_get_wtime(void) { return sim_now_ns() * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
int omp_get_cancellation(void) { return 0; }
int omp_in_final(void) { return 0; }
int omp_get_proc_bind(void) { return 0; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
int omp_get_initial_device(void) { return 0; }
void omp_init_lock(void *p) { lk((uintptr_t)p) = Lock(); }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock_acquire((uintptr_t)p); }
void omp_unset_lock(void *p) { lock_release((uintptr_t)p); }
int omp_test_lock(void *p) { return lock_try((uintptr_t)p); }
void omp_init_nest_lock(void *p) { lk((uintptr_t)p) = Lock(); }
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *p) { lock_acquire((uintptr_t)p, true); }
void omp_unset_nest_lock(void *p) { lock_release((uintptr_t)p); }
int omp_test_nest_lock(void *p) { return lock_try((uintptr_t)p, true) ? lock_depth((uintptr_t)p) : 0; }
void *GOMP_alloc(size_t al, size_t n, uintptr_t) { return __libc_memalign(al < 16 ? 16 : al, n); }
void GOMP_free(void *p, uintptr_t) { free(p); }
void *omp_alloc(size_t n, uintptr_t) { return malloc(n); }
void omp_free(void *p, uintptr_t) { free(p); }

// ========================================================= static-local guards
// Same ABI as libstdc++: first byte of the guard is the "initialised" flag.
int sim_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
void sim_guard_release(uint64_t *g) __asm__("__cxa_guard_release");
void sim_guard_abort(uint64_t *g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(uint64_t *g) {
  uint8_t *b = (uint8_t *)g;
  if (!g_on) { if (b[0]) return 0; b[1] = 1; return 1; }
  Thread *t = me();
  sync_point(t);
  for (;;) {
    if (b[0]) { acquire(t, sv((uintptr_t)g)); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block_on(t, g);
  }
}
void sim_guard_release(uint64_t *g) {
  uint8_t *b = (uint8_t *)g;
  if (g_on) { release(me(), sv((uintptr_t)g)); }
  b[0] = 1; b[1] = 0;
  if (g_on) { wake_all(g); sync_point(me()); }
}
void sim_guard_abort(uint64_t *g) {
  ((uint8_t *)g)[1] = 0;
  if (g_on) wake_all(g);
}

// =============================================================== pthread (linker --wrap)
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock_acquire((uintptr_t)m, true); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return lock_try((uintptr_t)m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { lock_release((uintptr_t)m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { lock_acquire((uintptr_t)m); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { rd_acquire((uintptr_t)m); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { rw_release((uintptr_t)m); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  // state: 0 new, 1 running, 2 done
  volatile int *s = (volatile int *)o;
  if (!g_on) { if (*s != 2) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; } return 0; }
  Thread *t = me(); sync_point(t);
  for (;;) {
    if (*s == 2) { acquire(t, sv((uintptr_t)o)); return 0; }
    if (*s == 0) {
      *s = 1;
      try { f(); } catch (...) { *s = 0; wake_all((void *)o); throw; }
      release(me(), sv((uintptr_t)o)); *s = 2; wake_all((void *)o); return 0;
    }
    block_on(t, (void *)o);
  }
}

// std::atomic_load/store on shared_ptr: libstdc++ serialises them through a
// pool of mutexes taken by std::_Sp_locker, inside the (uninstrumented)
// library. The simulator owns that lock too: one lock for the whole pool.
static char sp_lock_var;
void sim_sp_lock1(void *, const void *) __asm__("_ZNSt10_Sp_lockerC1EPKv");
void sim_sp_lock1(void *, const void *) { lock_acquire((uintptr_t)&sp_lock_var); }
void sim_sp_lock1b(void *, const void *) __asm__("_ZNSt10_Sp_lockerC2EPKv");
void sim_sp_lock1b(void *, const void *) { lock_acquire((uintptr_t)&sp_lock_var); }
void sim_sp_lock2(void *, const void *, const void *) __asm__("_ZNSt10_Sp_lockerC1EPKvS1_");
void sim_sp_lock2(void *, const void *, const void *) { lock_acquire((uintptr_t)&sp_lock_var); }
void sim_sp_lock2b(void *, const void *, const void *) __asm__("_ZNSt10_Sp_lockerC2EPKvS1_");
void sim_sp_lock2b(void *, const void *, const void *) { lock_acquire((uintptr_t)&sp_lock_var); }
void sim_sp_unlock(void *) __asm__("_ZNSt10_Sp_lockerD1Ev");
void sim_sp_unlock(void *) { lock_release((uintptr_t)&sp_lock_var); }
void sim_sp_unlockb(void *) __asm__("_ZNSt10_Sp_lockerD2Ev");
void sim_sp_unlockb(void *) { lock_release((uintptr_t)&sp_lock_var); }

// std::thread in the code under test: becomes a simulated thread.
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  if (!g_on) return real_pthread_create(pt, at, fn, arg);
  if (g_nT >= MAXT) return EAGAIN;
  Thread *t = me();
  Thread *w = &T[g_nT]; w->tid = g_nT; g_nT++;
  w->is_pthread = true; w->pfn = fn; w->parg = arg; w->team = nullptr; w->tnum = 0;
  pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstacksize(&a2, 32u << 20);
  int rc = real_pthread_create(&w->pt, &a2, worker_main, w);
  pthread_attr_destroy(&a2);
  if (rc) violation(HARNESS, "pthread_create", "cannot create thread");
  while (!__atomic_load_n(&w->started, __ATOMIC_ACQUIRE)) usleep(50);
  *pt = w->pt;
  arm(w, t); t->vc[t->tid]++;
  if (O.replay) set_countdown_replay(t);
  sync_point(t);
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  static int (*real)(pthread_t, void **) = nullptr;
  if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_join");
  if (g_on) for (int i = 1; i < g_nT; i++) if (T[i].is_pthread && pthread_equal(T[i].pt, pt)) {
    Thread *t = me(); sync_point(t);
    while (T[i].st != DONE) block_on(t, &T[i]);
    vjoin(t->vc, T[i].vc); t->vc[t->tid]++;
    if (ret) *ret = T[i].pret;
    return real(pt, nullptr);
  }
  return real(pt, ret);
}

// ================================================================ tsan ABI
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(N) \
  void __tsan_read##N(void *a) { access((uintptr_t)a, N, false, PC()); } \
  void __tsan_write##N(void *a) { access((uintptr_t)a, N, true, PC()); } \
  void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false, PC()); } \
  void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true, PC()); } \
  void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false, PC()); } \
  void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true, PC()); } \
  void __tsan_unaligned_volatile_read##N(void *a) { access((uintptr_t)a, N, false, PC()); } \
  void __tsan_unaligned_volatile_write##N(void *a) { access((uintptr_t)a, N, true, PC()); } \
  void __tsan_read_write##N(void *a) { access((uintptr_t)a, N, true, PC()); } \
  void __tsan_unaligned_read_write##N(void *a) { access((uintptr_t)a, N, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { access((uintptr_t)a, n, false, PC()); }
void __tsan_write_range(void *a, long n) { access((uintptr_t)a, n, true, PC()); }
void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, true, PC()); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC()); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC()); access((uintptr_t)d, n, true, PC()); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC()); access((uintptr_t)d, n, true, PC()); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access((uintptr_t)d, n, true, PC()); return memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC()); access((uintptr_t)d, n, true, PC()); } return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access((uintptr_t)s, n, false, PC()); access((uintptr_t)d, n, true, PC()); } return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) access((uintptr_t)d, n, true, PC()); return memset(d, c, n); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

} // extern "C"

// Atomics. order: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static inline bool rel(int o) { return o == 3 || o == 4 || o == 5; }
static void at_begin(uintptr_t a, int sz, bool wr, uint32_t pc) {
  if (!g_multi) return;
  sync_point(g_cur);
  access(a, sz, wr, pc, true);
}
static void at_load_sync(uintptr_t a, int o, uint64_t val) {
  if (!g_multi || !acq(o)) return;
  SyncVar &s = sv(a);
  if (s.rc && val != ((1ull << 32) | 1) && val != 1) return; // shared_ptr "unique" test only
  acquire(g_cur, s);
}
static void at_store_sync(uintptr_t a, int o) {
  if (!g_multi) return;
  SyncVar &s = sv(a);
  if (rel(o)) { memset(s.vc, 0, sizeof s.vc); release(g_cur, s); }
  else memset(s.vc, 0, sizeof s.vc);
}
static void at_rmw_sync(uintptr_t a, int o, bool refcount, bool last) {
  if (!g_multi) return;
  SyncVar &s = sv(a);
  if (refcount) {
    // Reference-count style: counting is not publication. Only the thread
    // that drops the last reference synchronises with the others.
    s.rc = true;
    if (last) acquire(g_cur, s);
    release(g_cur, s);
    return;
  }
  if (acq(o)) acquire(g_cur, s);
  if (rel(o)) release(g_cur, s);
}

#define ATOMICS(BITS, TYPE) \
extern "C" TYPE __tsan_atomic##BITS##_load(const volatile TYPE *a, int o) { \
  at_begin((uintptr_t)a, BITS / 8, false, PC()); TYPE v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load_sync((uintptr_t)a, o, (uint64_t)v); return v; } \
extern "C" void __tsan_atomic##BITS##_store(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); at_store_sync((uintptr_t)a, o); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TYPE __tsan_atomic##BITS##_exchange(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); TYPE r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_rmw_sync((uintptr_t)a, o, false, false); return r; } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE *a, TYPE *c, TYPE v, int o, int fo) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  at_rmw_sync((uintptr_t)a, ok ? o : fo, false, false); return ok; } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE *a, TYPE *c, TYPE v, int o, int fo) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  at_rmw_sync((uintptr_t)a, ok ? o : fo, false, false); return ok; } \
extern "C" TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE *a, TYPE c, TYPE v, int o, int fo) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  at_rmw_sync((uintptr_t)a, ok ? o : fo, false, false); return c; } \
extern "C" TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); TYPE r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
  at_rmw_sync((uintptr_t)a, o, BITS == 32 && o == 4, (TYPE)(r + v) == 0); return r; } \
extern "C" TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); TYPE r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
  at_rmw_sync((uintptr_t)a, o, BITS == 32 && o == 4, (TYPE)(r - v) == 0); return r; } \
extern "C" TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); TYPE r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_rmw_sync((uintptr_t)a, o, false, false); return r; } \
extern "C" TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); TYPE r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_rmw_sync((uintptr_t)a, o, false, false); return r; } \
extern "C" TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE *a, TYPE v, int o) { \
  at_begin((uintptr_t)a, BITS / 8, true, PC()); TYPE r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_rmw_sync((uintptr_t)a, o, false, false); return r; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
static char fence_var;
extern "C" void __tsan_atomic_thread_fence(int o) {
  if (!g_multi) return;
  sync_point(g_cur);
  SyncVar &s = sv((uintptr_t)&fence_var);
  if (acq(o)) acquire(g_cur, s);
  if (rel(o)) release(g_cur, s);
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// =============================================================== exceptions
// An exception that leaves a parallel region ends the program. The message is
// kept at the throw, because instrumented landing pads lose the exception.
#include <typeinfo>
static __thread char last_what[512];
extern "C" void __real___cxa_throw(void *, std::type_info *, void (*)(void *)) __attribute__((noreturn));
extern "C" void __wrap___cxa_throw(void *obj, std::type_info *ti, void (*dtor)(void *)) {
  void *p = obj;
  if (typeid(std::exception).__do_catch(ti, &p, 1)) snprintf(last_what, sizeof last_what, "%s", ((std::exception *)p)->what());
  else snprintf(last_what, sizeof last_what, "exception of type %s", ti->name());
  __real___cxa_throw(obj, ti, dtor);
}
extern "C" void __cxa_call_terminate(void *) noexcept {
  std::string w = last_what;
  violation(EXCEPTION, "exception left a parallel region: " + w.substr(0, w.find('\n')), "an exception left a parallel region or a noexcept function, which ends the program: " + w);
}

// ================================================================ allocator
// Reused memory must not inherit access history.
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); if (UNLIKELY(g_on) && p) shadow_clear((uintptr_t)p, n); return p; }
extern "C" void free(void *p) { __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (UNLIKELY(g_on) && p) shadow_clear((uintptr_t)p, a * b); return p; }
extern "C" void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (UNLIKELY(g_on) && p) shadow_clear((uintptr_t)p, n); return p; }
extern "C" void *memalign(size_t al, size_t n) { void *p = __libc_memalign(al, n); if (UNLIKELY(g_on) && p) shadow_clear((uintptr_t)p, n); return p; }
extern "C" void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void **out, size_t al, size_t n) { void *p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
