"""Per-property configuration of the checks: (runs, seconds) per tier and what the evidence says."""
OMP_RULE = ("one evaluation is one simulated execution: input, team size, scheduling strategy, preemption rate, granted team sizes and hand-out order are all derived from the run seed, "
            "the real code runs under that schedule, then again on one thread, and the results are compared while every memory access is checked for races. "
            "Non-trivial: at least one hand-over between threads happened. ")
OMP_MEASURE = "distinct hash of the complete sequence of (thread, local event number, next thread) hand-overs combined with the hash of the compared results"
OMP_REAL = ["libhelfem", "libhelfemqc", "src/general", "src/legendre", "src/atomic", "src/sadatom", "src/diatomic (all sources the project builds, unmodified, from /repo)", "Eigen", "libxc", "HDF5"]
OMP_STUB = ["OpenMP runtime (simulated: sim/rt/simrt.cpp)", "pthread mutex/once/static-guard/atomics scheduling (simulated)", "OpenOrbitalOptimizer SCF solver (stub driving the real Fock builder)", "wignernj (exact Wigner 3j stub)", "atomdb_data.cpp (4 synthetic atoms instead of the 5 MB table)"]
OMP_ASSUME = ["threads interact only through instrumented memory accesses and the synchronisation operations the simulator implements; libxc, HDF5 and libc internals are not instrumented",
              "sequentially consistent interleavings; weaker memory orders are covered only in so far as every data race is reported",
              "results of different schedules are compared to relative 1e-10 of the largest element unless the property demands exactness"]
IO_REAL = ["src/general/checkpoint.cpp, eigen_io.h, timer.cpp, scf_helpers.cpp and the basis and SCF sources that use them, unmodified, from /repo", "HDF5 library (real, every byte it reads and writes goes through the simulated system calls)", "libstdc++/libc streams"]
IO_STUB = ["system calls on files (open, read, pread, write, pwrite, ftruncate, fsync, lseek, stat, flock, close): interposed in the whole process; the bytes live in a scratch directory, failures, short transfers, capacity and crash points come from the seeded fault plan (sim/rt/simos.cpp)", "clock_gettime/gettimeofday/time (simulated clock)"]
IO_ASSUME = ["HDF5 itself is trusted; after a write has failed, what libhdf5 does with its half-updated file is not claimed and the history continues with a new file",
             "a crash is a process crash: completed system calls survive it, loss of the page cache (power failure) is not simulated",
             "allocation failures are injected only as ENOMEM of system calls"]
IO_RULE = "One evaluation is one simulated history: the sequence of calls, their arguments, the disk's state and every fault are derived from the run seed; after every call the outcome is compared with an executable reference model. Non-trivial: at least one call reached the behaviour under test (a verified read, a refused access, an injected fault). "
SADSTUB = ["OpenOrbitalOptimizer SCF solver (stub driving the real Fock builder)"]

def omp(quick, thorough, extra_rule="", must=(), harness="omp"):
    return dict(mode="omp", harness=harness, quick=quick, thorough=thorough, rule=OMP_RULE + extra_rule, measure=OMP_MEASURE, real=OMP_REAL, stubs=OMP_STUB, assumptions=OMP_ASSUME, must_reach=list(must))
def io(quick, thorough, rule, must=(), harness="io"):
    return dict(mode="io", harness=harness, quick=quick, thorough=thorough, rule=rule, measure="distinct hash of the sequence of operations, injected faults and observed results", real=IO_REAL, stubs=IO_STUB, assumptions=IO_ASSUME, must_reach=list(must))

PROG_OMP = "Here one execution is one whole program, started from its command line. "
PROG_IO = "One evaluation is one simulated history of program executions: command lines, input files, the sequence of executions in the directory, and every fault and crash point are derived from the run seed; each execution is a forked process running the program's real main function, compared with the undisturbed execution of the same command line. Non-trivial: an execution reached the behaviour under test (verified result, reported failure, crash, refused file). "
PROG_MEM = "One evaluation is one set of executions of one program from one command line: command line, input files and the contents that heap blocks and the stack start with are derived from the run seed; the first execution sees zeroed memory, the others see memory filled with other values, and exit status, printed output and written files must be identical. Non-trivial: at least one pair of executions was compared. "
_ALL = ("atomic", "diatomic", "gensap", "1e_atom", "aij", "diatomic_1e", "density_line", "density_grid", "completeness", "harmonic", "morse", "softcoulomb")
RAN_OMP = tuple("ran:" + x for x in _ALL + ("corebasis", "atomdb_dump"))
RAN_IO = RAN_OMP
CFG = {
    "P01": omp((3000, 60), (400000, 2400)),
    "P02": omp((3000, 60), (400000, 2400)),
    "P03": omp((3000, 60), (400000, 2400)),
    "P04": omp((3000, 60), (400000, 2400)),
    "P05": omp((12000, 60), (400000, 2400)),
    "P06": omp((3000, 60), (400000, 2400)),
    "P07": omp((3000, 60), (400000, 2400)),
    "P08": omp((3000, 60), (400000, 2400)),
    "P09": omp((3000, 60), (400000, 2400)),
    "P10": io((60000, 50), (4000000, 1800), IO_RULE, ("read", "overwrite", "removed", "missing refused", "wrong type refused", "failed by fault", "session:append")),
    "P11": io((60000, 50), (4000000, 1800), IO_RULE, ("acknowledged state verified", "write reported a fault", "close reported a fault", "flush reported a fault")),
    "P12": io((60000, 50), (4000000, 1800), IO_RULE, ("read", "read reported a fault", "open reported a fault", "truncated file refused")),
    "P13": io((60000, 50), (4000000, 1800), IO_RULE, ("crash after an acknowledged operation", "flush acknowledged")),
    "P14": io((60000, 50), (4000000, 1800), IO_RULE, ("basis restored", "restore refused", "save reported a fault")),
    "P15": io((120000, 50), (4000000, 1800), IO_RULE, ("table verified", "malformed table refused", "malformed list refused")),
    "P16": io((120000, 40), (4000000, 1200), IO_RULE, ("duration verified", "more than a day")),
    "P17": io((60000, 50), (4000000, 1800), IO_RULE, ("restart verified", "restart file verified", "bad restart file refused", "save reported a fault")),
    "P18": omp((4000, 100), (400000, 3000), PROG_OMP, RAN_OMP, "prog_omp"),
    "P19": io((60000, 75), (4000000, 3000), PROG_IO, ("saved density verified", "restart verified", "restart energy verified", "save under faults verified", "load under faults verified", "bad restart file refused", "process crash while running", "file left behind refused", "file left behind complete", "save over an earlier file verified", "failure reported"), "prog_io"),
    "P20": io((60000, 75), (4000000, 3000), PROG_IO, RAN_IO + ("failure reported", "fault survived", "disturbed run verified", "truncated input refused"), "prog_io"),
    "P21": io((60000, 75), (4000000, 2400), PROG_MEM, RAN_IO + ("same results verified",), "prog_io"),
}
for _p in ("P18", "P19", "P20", "P21"):
    CFG[_p]["real"] = CFG[_p]["real"] + ["the programs' own main functions (src/atomic, diatomic, sadatom, harmonic, general), compiled under another name"]
CFG["P19"]["stubs"] = CFG["P20"]["stubs"] = CFG["P21"]["stubs"] = IO_STUB + OMP_STUB[2:]
def cfg(p):
    return CFG[p]
