// SimOMP: a deterministic, seeded scheduler for OpenMP/threaded C++ code.
//
// The code under test is compiled with -fopenmp -fsanitize=thread, but is
// linked against THIS runtime instead of libgomp and libtsan. Every
// instrumented memory access, atomic, lock, barrier, work-share and team
// operation is therefore a call into the simulator, which decides which
// (real, parked) OS thread proceeds. Exactly one thread runs at any time.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace sim {

// One recorded scheduling decision: thread `t`, on reaching its local event
// number `k`, hands over to thread `u`. forced: the thread could not continue
// (blocked or finished) at its k-th forced hand-over.
struct Decision { uint32_t k; uint8_t t; uint8_t u; uint8_t forced; uint8_t pad; };

enum Kind : int {
  OK = 0, RACE = 1, MISMATCH = 2, DEADLOCK = 3, CRASH = 4, EXCEPTION = 5,
  INVARIANT = 6, LIVELOCK = 7, HARNESS = 8, TIMEOUT = 9
};
const char *kind_name(int k);

constexpr int MAXDEC = 1 << 20;

// Lives in MAP_SHARED memory so that the parent sees it after a child crash.
struct Shared {
  int kind;
  char sig[512];      // stable signature of the violation
  char msg[4096];     // human readable description
  uint64_t events, switches, forced, conflicts, regions, teams_undersized,
      chunks_permuted, stalls, sync_ops, races_checked, faults[32];
  uint64_t sched_hash, result_hash;
  uint32_t max_threads;
  uint32_t ndec;
  int dec_overflow;
  char knobs[4096];   // "name=value;..." actually drawn
  uint64_t region_fn[64]; uint32_t nregion_fn;
  uint64_t sim_ns;
  char probe_name[64][40]; uint64_t probe_count[64]; uint32_t nprobe;
  Decision dec[MAXDEC];
};
extern Shared *g_sh;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Options {
  int nthreads = 4;          // omp_get_max_threads()
  int strategy = 0;          // 0 random, 1 PCT, 2 stall, 3 sync points only
  double mean_interval = 500;// events between voluntary preemptions
  double p_hot = 0.1;        // preempt before a conflicting access
  double p_undersize = 0;    // deliver a smaller team than asked for
  bool permute_chunks = false; // nonmonotonic dynamic: hand out any chunk
  int max_levels = 1;        // nested parallelism
  uint64_t sched_seed = 1;
  uint64_t max_events = 3000000000ull;
  bool race_check = true;
  bool replay = false;
  std::vector<Decision> decisions; // when replay
};

// Run `f` as the simulated program. f runs on the calling thread as sim
// thread 0; teams it opens are simulated.
void simulate(const Options &o, const std::function<void()> &f);
// Run several caller threads concurrently under the simulator.
// Must be called inside simulate().
void run_callers(const std::vector<std::function<void()>> &fs);
bool active();

// Report a violation and end this (child) process.
[[noreturn]] void violation(Kind k, const std::string &sig, const std::string &msg);
// simulated clock (ns)
uint64_t sim_now_ns();
// Scheduling point for harness code (e.g. between API calls).
void point();
}
