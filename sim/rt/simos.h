// SimOS: the files and clocks the code under test sees.
//
// The wrappers in simos.cpp replace libc's file and clock calls in the whole
// process (the executable's definitions take precedence over libc's for
// libhdf5 and libstdc++ as well). While an operation of the simulated program
// is in progress, every call on a tracked file is counted, may be failed by
// the seeded fault plan, and is reported to the observer.
#pragma once
#include "campaign.h"
#include <functional>
#include <string>

namespace sim {

enum SysClass : int { SC_OPEN = 0, SC_READ, SC_WRITE, SC_TRUNC, SC_STAT, SC_CLOSE, SC_LOCK, SC_SYNC, SC_SEEK, SC_NAME, SC_N };
// kinds of fault; values appear in replay files
enum FaultKind : int { F_NONE = 0, F_EIO = 1, F_ENOSPC, F_EDQUOT, F_EFBIG, F_EACCES, F_EMFILE, F_EINTR, F_SHORT, F_TORN, F_ENOLCK, F_ENOMEM, F_CRASH, F_ALLOC, F_OPMARK = 100 };

struct IoPlan {
  // probability that a call of the class is failed, per call
  double p[SC_N] = {0};
  // additional probability of harmless disturbances (EINTR, short transfer)
  double p_soft = 0;
  // a hard fault persists: once / until the end of the operation / until heal()
  int sticky = 0; // percent chance of lasting to the end of the operation; same again to last until heal()
  int64_t capacity = -1; // bytes the disk can hold, -1: unlimited
  double p_alloc = 0;    // chance that one of the program's allocations fails, per operation
};

// begin a simulated history
void io_start(Ctx &c, const IoPlan &p);
// run f as operation number `op`. Returns false if a replay leaves the operation out.
bool io_wants(uint32_t op);                    // records / consults the operation marker
void io_enter(uint32_t op, bool faults);       // system calls from here on belong to op
void io_leave();
void io_hold_alloc(bool hold);                 // no allocation fails for now
bool io_alloc_failed();
void io_heal();                                // no further faults, sticky ones end
bool io_plan_on();
void io_in_child(int stuck_exit);              // after fork: this process is a program execution of its own
void io_simulated_stdout();                    // what the program prints goes through the fault plan, too
// what memory holds before the program writes to it: 0 as the system has it, 1 zeros, 2 ones in all bits (NaN, -1),
// 3 numbers of order one, 4 random numbers, 5 small integers. Fresh and freed heap blocks, and the stack, are filled.
void io_memory(int kind, uint64_t seed);
void io_crash_at(uint32_t call, int exit_code); // the process dies at its n-th system call on tracked files (0: never)
void io_set_capacity(int64_t bytes);           // -1: unlimited
bool io_damaged();                             // a write, truncation, sync or close has been failed since io_fresh()
void io_fresh();                               // the files are new again
uint64_t io_hard();                            // hard faults since io_enter
uint64_t io_soft();
uint64_t io_hard_class(int c);
int io_open_fds();                             // tracked descriptors still open
uint64_t io_syscalls();
// called before (phase 0) and after (phase 1) each call that changes a file
extern std::function<void(int cls, const std::string &path, int phase)> io_observer;
struct IoPause { IoPause(); ~IoPause(); bool was; }; // the harness's own file accesses

// ---- clock
struct SimClock { bool on = false, frozen = false; int64_t mono_ns = 0, real_ns = 0, tick_ns = 1; uint64_t reads = 0; };
extern SimClock g_clock;
}
