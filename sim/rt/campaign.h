// Campaign driver: seeds -> forked runs -> violations -> minimised replays.
#pragma once
#include "simrt.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// Everything a run depends on comes from here. A knob's value is a hash of
// (run seed, knob name), or the override from a replay file.
struct Ctx {
  uint64_t seed = 1;
  std::string scenario;
  bool thorough = false;
  bool replay = false;
  std::map<std::string, int64_t> overrides;
  std::vector<Decision> decisions;
  std::string scratch;   // private directory of this run
  int out_fd = -1;       // captured stdout+stderr

  int64_t knob(const std::string &name, int64_t lo, int64_t hi);
  // biased towards lo: value lo with probability 1/2
  bool flag(const std::string &name, int percent);
  Rng rng(const std::string &name) const;
  std::string output() const;         // captured so far
  void truncate_output() const;
};

// weight < 0: thorough tier only
struct Scenario { const char *property; const char *name; int weight; void (*fn)(Ctx &); };
// defined by the harness
extern const std::vector<Scenario> &all_scenarios();
// defined by the harness: called in the child before the scenario
extern void prepare_child(Ctx &);

void probe(const char *name, uint64_t n = 1); // "this rare condition was reached"
void fault_fired(const char *name);           // same table, prefixed "fault:"
}
