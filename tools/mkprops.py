#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

NOTEST = "The 37 stable tests only exercise the Legendre and spherical-harmonics routines and the over-r evaluators; none of them opens a parallel region of this code, let alone more than one schedule."
NOTESTIO = "No stable test touches the file layer at all, and a test on a healthy disk can never reach an error return, a torn write or a crash point."

prop("P01", "Atomic two-electron integral builds do not depend on thread schedule",
 "For every radial basis, angular expansion and interaction kernel (bare Coulomb, Yukawa-screened, error-function-screened), the two-electron integrals built by the atomic and the spherically averaged atomic program are the same as those built by one thread, up to floating-point summation order. This holds for every number of threads the runtime grants and every interleaving of them: no table entry is lost, computed twice into the same place, or read before it is complete, and the build neither crashes nor hangs. The advisory about an unconverged inner quadrature is printed at most once per process.",
 ["schedules", "inputs", "configurations"],
 "all thread counts and granted team sizes, all interleavings of the element-pair loops, all element counts, node counts, angular cut-offs and kernels",
 NOTEST,
 ["src/atomic/TwoDBasis.cpp", "src/sadatom/basis.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/FiniteElementBasis.cpp", "libhelfemqc/include/CoulombExchangeFE.h"],
 [("parallel loops over elements and element pairs filling the primitive and off-diagonal integral tables", "src/atomic/TwoDBasis.cpp compute_tei/compute_yukawa/compute_erfc; src/sadatom/basis.cpp compute_tei/compute_yukawa/compute_erfc"),
  ("process-wide one-shot quadrature-cap warning", "libhelfem/src/RadialBasis.cpp")])

prop("P02", "Diatomic two-electron integral builds do not depend on thread schedule",
 "For every internuclear distance, radial basis and angular expansion, the two-electron integral tables built by the diatomic program are the same as those built by one thread, up to floating-point summation order, for every granted thread count, every hand-out order of the loop iterations and every interleaving. The build neither crashes nor hangs, and its advisory about an unconverged inner quadrature is printed at most once per process.",
 ["schedules", "inputs", "configurations"],
 "all thread counts, chunk hand-out orders and interleavings of the dynamically scheduled (L,M) and element loops, all basis shapes",
 NOTEST,
 ["src/diatomic/basis.cpp", "src/legendre/Legendre.cpp", "src/general/gaunt.cpp"],
 [("dynamically scheduled loop over (L,|M|) pairs and elements", "src/diatomic/basis.cpp TwoDBasis::compute_tei"),
  ("one-shot quadrature-cap warning", "src/diatomic/basis.cpp")])

prop("P03", "Coulomb and exchange matrices do not depend on thread schedule",
 "For every density matrix, the Coulomb and exchange matrices (full-range and range-separated) that the atomic, spherically averaged atomic and diatomic programs assemble from their integral tables equal the matrices a single thread assembles, up to floating-point summation order. This holds for every granted thread count and interleaving; the density matrix and the integral tables are left unmodified and repeated assembly gives the same matrix.",
 ["schedules", "inputs", "histories"],
 "all densities, all thread counts and interleavings of the assembly loops, all sequences of repeated assemblies on one basis object",
 NOTEST,
 ["src/atomic/TwoDBasis.cpp", "src/sadatom/basis.cpp", "src/diatomic/basis.cpp", "libhelfemqc/include/CoulombExchangeFE.h"],
 [("parallel accumulation of angular blocks of J and K", "src/atomic/TwoDBasis.cpp coulomb/exchange/rs_exchange; src/diatomic/basis.cpp coulomb/exchange"),
  ("element-block contraction shared by the radial programs", "libhelfemqc/include/CoulombExchangeFE.h")])

prop("P04", "Atomic DFT quadrature does not depend on thread schedule",
 "For every density and functional of LDA, GGA or meta-GGA type, restricted or polarised, the exchange-correlation energy, integrated electron number, kinetic energy density integral and Fock contribution computed on the atomic grid equal the single-threaded values up to floating-point summation order. This holds for every granted thread count and interleaving, with no lost, duplicated or torn contribution.",
 ["schedules", "inputs", "configurations"],
 "all densities, functionals and grids; all thread counts and interleavings of the grid loop",
 NOTEST,
 ["src/atomic/dftgrid.cpp", "src/general/dftgrid_common.cpp"],
 [("per-thread grid workers with reduction of energies and merge of Fock blocks", "src/atomic/dftgrid.cpp eval_Fxc")])

prop("P05", "Spherically averaged atomic DFT grid does not depend on thread schedule",
 "For every set of angular-momentum densities and every functional of LDA, GGA or meta-GGA type, restricted or polarised, the exchange-correlation energy, electron number and Fock blocks the spherically averaged program computes equal the single-threaded values up to floating-point summation order, for every granted thread count and interleaving. Neighbouring elements that share a basis function never lose each other's contribution.",
 ["schedules", "inputs", "configurations"],
 "all densities, functionals, element counts (odd and even) and shared-node overlaps; all thread counts and interleavings",
 NOTEST,
 ["src/sadatom/dftgrid.cpp", "libhelfem/src/RadialBasis.cpp"],
 [("two-colour (even/odd element) parallel sweep with unsynchronised accumulation into shared Fock blocks", "src/sadatom/dftgrid.cpp eval_Fxc"),
  ("quadrature tables filled before the parallel sweep and only read in it", "libhelfem/src/RadialBasis.cpp")])

prop("P06", "Diatomic DFT quadrature does not depend on thread schedule",
 "For every density and functional of LDA, GGA or meta-GGA type, restricted or polarised, the exchange-correlation energy, electron number, kinetic integral and Fock matrix computed on the diatomic grid, by the general and by the axially symmetric evaluator, equal the single-threaded values up to floating-point summation order. This holds for every granted thread count and interleaving, with no lost, duplicated or torn contribution.",
 ["schedules", "inputs", "configurations"],
 "all densities, functionals, grids; all thread counts and interleavings of the grid loops",
 NOTEST,
 ["src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/general/dftgrid_common.cpp"],
 [("per-thread workers, reductions and Fock merge", "src/diatomic/dftgrid.cpp eval_Fxc"),
  ("axially symmetric evaluator", "src/diatomic/dftgrid_purem.cpp")])

prop("P07", "One-electron assembly and tables do not depend on thread schedule",
 "Matrix elements of arbitrary radial operators assembled from finite elements, off-centre nuclear attraction matrices, diatomic two-dimensional quadratures and tables of angular coupling coefficients equal what one thread computes, up to floating-point summation order (exactly, for tables without accumulation). This holds for every granted thread count, iteration hand-out order and interleaving; contributions of neighbouring elements to a shared basis function are never lost.",
 ["schedules", "inputs", "configurations"],
 "all operators, element counts and basis types; all thread counts, hand-out orders and interleavings",
 NOTEST,
 ["libhelfem/src/FiniteElementBasis.cpp", "src/general/gaunt.cpp", "src/diatomic/twodquadrature.cpp", "src/diatomic/basis.cpp", "src/atomic/TwoDBasis.cpp"],
 [("element loop with overlapping matrix blocks", "libhelfem/src/FiniteElementBasis.cpp matrix_element/vector_element"),
  ("coupling-coefficient table fill", "src/general/gaunt.cpp"),
  ("two-dimensional grid workers", "src/diatomic/twodquadrature.cpp")])

prop("P08", "Concurrent use of shared read-only objects equals sequential use",
 "Any number of caller threads may concurrently evaluate special functions (Legendre functions of both kinds, spherical harmonics), coupling coefficients, polynomial and finite-element basis functions, model and tabulated atomic potentials, and radial or two-dimensional basis queries on shared objects that none of them modifies, including the very first use in a process (filling a basis object's quadrature cache is a documented serial preparation step and counts as modification). Every call returns exactly what it returns when the calls are made one after another, with no data race, deadlock, crash or corrupted lazily initialised table.",
 ["schedules", "histories"],
 "all interleavings of read-only calls from several caller threads on shared objects, including first-use initialisation",
 "The stable tests call these functions from one thread only; lazy initialisation, static tables and mutable caches are only at risk when calls overlap.",
 ["src/legendre/Legendre.h", "src/legendre/Legendre.cpp", "src/general/spherical_harmonics.cpp", "src/general/gaunt.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/FiniteElementBasis.cpp", "src/general/atomdb.cpp", "src/general/sap.cpp", "src/general/model_potential.cpp"],
 [("thread-local quadrature scratch", "src/legendre/Legendre.h"),
  ("quadrature tables read by const accessors", "libhelfem/src/RadialBasis.cpp"),
  ("function-local static tables", "libhelfem/src/quadrature.cpp, src/general/atomdb.cpp"),
  ("lazily built screening in const potential evaluation", "src/general/atomdb.cpp")])

prop("P09", "Batched Fock builds and the atomic SCF do not depend on thread schedule",
 "When the spherically averaged atomic self-consistent field evaluates a batch of trial densities concurrently, each trial density receives exactly its own energy and Fock matrices, in the order submitted, equal to what a one-at-a-time evaluation gives up to floating-point summation order. The converged total energy, its components and the printed log are therefore the same for every granted thread count and interleaving.",
 ["schedules", "inputs", "configurations"],
 "all batches of densities, all atoms/functionals/occupations, all thread counts and interleavings, nested parallelism on or off",
 NOTEST,
 ["src/sadatom/scf.cpp", "src/sadatom/dftgrid.cpp", "src/sadatom/basis.cpp"],
 [("dynamically scheduled batch loop over trial densities", "src/sadatom/scf.cpp"),
  ("inner parallel Fock assembly reached from several threads at once", "src/sadatom/basis.cpp, src/sadatom/dftgrid.cpp")])

prop("P10", "The checkpoint file is a faithful typed store that keeps its open state",
 "Over any sequence of create, reopen, write, overwrite, read, existence query, removal, flush, open and close calls, a checkpoint behaves as a map from names to the last value written under that name: scalars, strings, flags, vectors and matrices of every supported precision come back bit for bit, in the same shape, in this and in later sessions. A name that was never written, was removed, or holds a value of another kind (integer, floating point or text; scalar, vector or matrix) is refused with an exception and never answered with other data, and asking whether a name exists answers accordingly. Integers may be read back as another integer type that can hold them and floating-point values in a higher precision, unchanged. Every access, whether it succeeds or fails, leaves an open file open and a closed file closed without leaking the underlying descriptor, and a refused or failed read or query changes no stored value.",
 ["histories", "inputs", "fault_sequences"],
 "all operation sequences over all value types, shapes, names and session boundaries, on healthy and on failing disks",
 NOTESTIO,
 ["src/general/checkpoint.cpp", "src/general/checkpoint.h"],
 [("per-call open/close bracket", "src/general/checkpoint.cpp write/read overloads"),
  ("remove-then-create overwrite", "src/general/checkpoint.cpp remove/write"),
  ("type and rank validation on read", "src/general/checkpoint.cpp read overloads")])

prop("P11", "A checkpoint write or flush error is never silently acknowledged",
 "If the operating system fails any write, seek, extension, sync or open issued on behalf of the checkpoint (I/O error, full disk, quota, file too large), then at the latest when the file is flushed or explicitly closed the caller receives an exception. Conversely, if every call up to and including the flush or close returned normally, a fresh session reads back every value written. Interrupted and short transfers alone lose nothing.",
 ["fault_sequences", "histories"],
 "all positions and kinds of failing, short, interrupted or out-of-space system calls within all write histories",
 NOTESTIO,
 ["src/general/checkpoint.cpp"],
 [("status of data writes, link removals, flush and close", "src/general/checkpoint.cpp")])

prop("P12", "Unreadable or damaged checkpoint data is refused, never invented",
 "Whatever read errors the operating system returns while a checkpoint is opened or read, and wherever the file has been truncated, each read call either throws or returns exactly the value that was stored. It never returns stale buffer contents, zeros or a partially filled value, never crashes, and a later read after the fault has gone away succeeds.",
 ["fault_sequences", "crash_points", "inputs"],
 "all positions and kinds of failing or short reads, all truncation lengths, all value types",
 NOTESTIO,
 ["src/general/checkpoint.cpp"],
 [("status of dataset reads and attribute queries", "src/general/checkpoint.cpp read overloads")])

prop("P13", "Flushed or closed checkpoint data survives a process crash",
 "Once a flush or a close has returned normally, a process crash at any later instant until the next call that modifies or closes that file leaves every value written so far readable, bit for bit, by a new process. A value written to a file that was closed beforehand is durable in this sense as soon as the write call returns.",
 ["crash_points", "histories"],
 "all write/overwrite/remove/flush/close histories and all crash instants after the acknowledged flush or close",
 NOTESTIO,
 ["src/general/checkpoint.cpp"],
 [("flush", "src/general/checkpoint.cpp flush"), ("close at the end of each access to a closed file", "src/general/checkpoint.cpp")])

prop("P14", "A restored basis equals the saved basis or the restore fails cleanly",
 "Saving an atomic or diatomic basis to a checkpoint and restoring it in another session gives a basis with the same dimensions, quantum numbers, grid and overlap, kinetic and nuclear-attraction matrices as the original. If a file operation fails and is not recovered, or an entry of the file is missing, of another kind or cut off, saving or restoring throws; a failed restore leaves the target a usable basis, either the previous or the saved one and never a mixture, and the checkpoint in the open or closed state it was in.",
 ["inputs", "fault_sequences", "histories"],
 "all supported basis families and parameters (polynomial family, node count, element boundaries, nuclear model, angular lists) and all fault positions",
 NOTESTIO,
 ["src/general/checkpoint.cpp", "src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp"],
 [("field-by-field save and rebuild", "src/general/checkpoint.cpp write/read of basis sets")])

prop("P15", "Text output and input report every failure and round-trip exactly",
 "A matrix dumped as text and parsed back gives the same numbers bit for bit, one line per row; if the file cannot be created or any byte of it cannot be stored, the dump throws instead of returning. Reading an integer table or a parameter list returns exactly the numbers in the file, or throws when the file cannot be opened, a read fails, rows differ in length, or an entry is not a number of the required kind.",
 ["inputs", "fault_sequences"],
 "all tables and all positions and kinds of failing, short or out-of-space system calls",
 NOTESTIO,
 ["src/general/eigen_io.h", "src/general/scf_helpers.cpp"],
 [("stream state after writing and closing", "src/general/eigen_io.h write_raw_ascii"), ("token parsing", "src/general/eigen_io.h read_raw_ascii_imat, src/general/scf_helpers.cpp parse_xc_params")])

prop("P16", "Elapsed-time reports are non-negative and immune to clock steps",
 "The timer reports the time it has been running, summed over all its start/stop intervals, within clock resolution, for any sequence of reset, alternating stop and continue, and query calls on the running timer, and any steps of the wall clock forwards or backwards in between. Reported times never decrease between resets, and the formatted duration denotes the same number of seconds.",
 ["histories", "fault_sequences"],
 "all call sequences and all wall-clock jumps between calls",
 "No test controls the clock; a test that sleeps sees neither a clock step nor the day/hour carry in the formatting.",
 ["src/general/timer.cpp"],
 [("clock read and interval accumulation", "src/general/timer.cpp"), ("duration formatting", "src/general/timer.cpp parse")])

prop("P17", "An SCF restart file is either complete and correct or reported as failed",
 "When a spherically averaged atomic calculation is asked to save its result, normal completion means the file holds the orbitals, occupations and basis of that calculation, so that a later calculation loading it on the same basis starts from exactly that state and reproduces its energy. If a file operation fails during saving and is not recovered, or the file to load is unreadable, truncated, lacks a part of the state or holds it in another kind, the calculation fails with an error instead of continuing from altered data.",
 ["fault_sequences", "crash_points", "histories"],
 "all atoms and SCF settings, all failing system calls during save and load, all truncations of the file",
 NOTESTIO,
 ["src/sadatom/scf.cpp", "src/general/checkpoint.cpp"],
 [("save and load of orbitals", "src/sadatom/scf.cpp")])

prop("P18", "Programs produce the same results on any number of threads",
 "For every input, each program of the package (the atomic, diatomic and spherically averaged SCF programs, the one-electron and one-dimensional model programs, the jellium program, and the density, completeness, core-basis and database tools) ends with the same exit status, prints the same quantities and writes the same result files whatever the number of threads, the team sizes the runtime grants and the order in which threads run; differences are limited to rounding of sums and to the freedom eigenvectors have.",
 ["schedules", "configurations"],
 "all inputs, team sizes and interleavings, from reading the options to the last line of output",
 "No test runs a program with more than one thread: the tests are built without OpenMP and exercise library functions.",
 ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/sadatom/main.cpp", "src/sadatom/aij.cpp", "src/diatomic/completeness.cpp", "src/general/atomdb_dump.cpp", "src/general/scf_driver_common.h", "src/general/fock_timer.h"],
 [("Fock builders, parallel loops and output of the main programs", "src/*/main.cpp, src/sadatom/aij.cpp, src/diatomic/completeness.cpp, src/general/atomdb_dump.cpp")])

prop("P19", "An atomic or molecular SCF calculation restarts from the density it saved",
 "When the atomic, diatomic or spherically averaged SCF program is asked to save and reports success, the checkpoint holds the density of its final state: the right number of electrons of each spin (half of all in each channel when the calculation is spin-restricted), consistent orbitals and occupations where these are stored, and the kinetic energy printed last. Loading it in a calculation on the same basis starts from exactly that density and energy, and on another basis never from more electrons than the system has. A file that is missing, truncated, not a checkpoint or without one of its densities or electron counts is refused with an error; after a failed file operation or a process crash at any point of the saving run, a restart either is refused or starts from the complete state.",
 ["fault_sequences", "crash_points", "histories"],
 "all systems and settings the programs accept, all failing, short and torn transfers while saving and loading, all crash points of the saving run",
 "No test runs the SCF programs at all: they need a solver library the tests do not build.",
 ["src/atomic/main.cpp", "src/diatomic/main.cpp", "src/sadatom/scf.cpp", "src/general/scf_driver_common.h", "src/general/checkpoint.cpp"],
 [("--load and --save", "src/atomic/main.cpp, src/diatomic/main.cpp, src/sadatom/scf.cpp"), ("block orbitals from a density", "src/general/scf_driver_common.h fill_block_from_density"), ("density from block orbitals", "src/general/scf_driver_common.h assemble_final_density")])

prop("P20", "A program that reports success has written its complete results",
 "Whenever a program of the package ends successfully, its printed results and every result file (checkpoints, potentials, densities, orbitals, Fock matrices, profiles) are exactly those an undisturbed execution produces, whatever short, interrupted or failing file operations, full disks and leftover files of earlier executions it met; a read or write that fails for good, of the printed output too, ends the program with an error. A guess or restart file that has lost its end is refused, never half used.",
 ["fault_sequences", "histories"],
 "all inputs, all sequences of failing, short and interrupted file operations, all disk capacities",
 "The tests do not run the programs and no test makes a file operation fail.",
 ["src/sadatom/aij.cpp", "src/sadatom/main.cpp", "src/sadatom/scf.cpp", "src/diatomic/1e.cpp", "src/diatomic/density_line.cpp", "src/diatomic/density_grid.cpp", "src/diatomic/completeness.cpp", "src/general/eigen_io.h", "src/general/scf_helpers.cpp", "src/general/check_output.h"],
 [("result output", "src/sadatom/aij.cpp, src/sadatom/main.cpp, src/diatomic/1e.cpp, density_line.cpp, density_grid.cpp, completeness.cpp"), ("guess input", "src/sadatom/aij.cpp load_fock"), ("parameter input", "src/general/scf_helpers.cpp parse_xc_params")])

prop("P21", "Results do not depend on what memory held before",
 "Every program of the package, given the same command line and the same files, ends with the same exit status, prints the same text and writes the same files, and every matrix, density, energy or table the library computes for the same arguments has the same value, whatever the memory it was given held before: freshly allocated and reused heap blocks and the stack may hold zeros, other numbers, NaNs or the remains of earlier calculations.",
 ["inputs", "configurations", "histories"],
 "all inputs, all contents of uninitialised and reused memory",
 "The memory a test process gets is almost always zeros from the operating system or the remains of the same few calls; a read of memory nobody wrote gives the expected result there.",
 ["src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp", "src/sadatom/basis.cpp", "src/general/dftgrid_common.cpp", "src/atomic/dftgrid.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/sadatom/dftgrid.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/FiniteElementBasis.cpp", "src/sadatom/aij.cpp", "src/diatomic/density_grid.cpp"],
 [("result matrices and work arrays", "src/*/basis.cpp, TwoDBasis.cpp, dftgrid*.cpp"), ("program state", "src/*/main.cpp, src/sadatom/aij.cpp, src/diatomic/*.cpp")])

# ---------------------------------------------------------------- not addressed by this technique
PURE = "Pure function of its input; stable tests sample a few values of neighbouring routines only."
prop("P30", "Overlap of an orthonormalised basis is the identity",
 "Half-inverse overlap matrices produced for any supported basis orthonormalise it to working precision, and symmetric matrices stay symmetric.",
 ["inputs"], "all bases", PURE, ["libhelfem/src/FiniteElementBasis.cpp", "src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp"],
 [("Sinvh", "src/atomic/TwoDBasis.cpp, src/diatomic/basis.cpp, src/sadatom/basis.cpp")])
prop("P31", "Element quadrature integrates polynomials exactly",
 "A quadrature rule of n points integrates every polynomial up to its nominal degree exactly on every element, and its weights are positive and sum to the element length.",
 ["inputs"], "all orders and element lengths", PURE, ["libhelfem/include/chebyshev.h", "libhelfem/include/lobatto.h", "libhelfem/src/quadrature.cpp"],
 [("node and weight generation", "libhelfem/include/chebyshev.h, lobatto.h")])
prop("P32", "Polynomial shape functions interpolate and join continuously",
 "Shape functions of every family take the prescribed nodal values and derivatives, so that functions assembled from elements are continuous to the order the family promises, and values divided by the radius are finite at the origin.",
 ["inputs"], "all families, node counts, derivative orders and points", PURE, ["libhelfem/include/LIPBasis.h", "libhelfem/include/HIPBasis.h", "libhelfem/include/LegendreBasis.h", "libhelfem/src/PolynomialBasis.cpp"],
 [("shape function evaluation", "libhelfem/include/*Basis*.h")])
prop("P33", "Associated Legendre functions and spherical harmonics are accurate",
 "Legendre functions of both kinds and spherical harmonics agree with their defining series to the documented accuracy over their whole domain.",
 ["inputs"], "all degrees, orders and arguments", "Existing tests compare a fixed reference table.", ["src/legendre/Legendre.h", "src/general/spherical_harmonics.cpp"],
 [("recursions", "src/legendre/Legendre.h")])
prop("P34", "Angular coupling coefficients satisfy selection rules and sum rules",
 "Tabulated coupling coefficients vanish outside the selection rules and equal the integral of three spherical harmonics otherwise.",
 ["inputs"], "all angular momenta", PURE, ["src/general/gaunt.cpp"], [("table lookup", "src/general/gaunt.cpp")])
prop("P35", "Energies converge variationally to the exact result",
 "Enlarging the basis never raises a variational energy, and one-electron energies of hydrogen-like atoms and ions converge to the analytic value.",
 ["inputs", "configurations"], "all basis sequences", PURE, ["src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp", "src/sadatom/basis.cpp"],
 [("one-electron matrices", "src/*/basis.cpp")])
prop("P36", "The Fock matrix is the derivative of the energy",
 "For every functional and density the exchange-correlation, Coulomb and exchange matrices are the derivatives of the corresponding energies with respect to the density matrix.",
 ["inputs"], "all densities and functionals", PURE, ["src/atomic/dftgrid.cpp", "src/sadatom/dftgrid.cpp", "src/diatomic/dftgrid.cpp"],
 [("eval_Fxc", "src/*/dftgrid.cpp")])
prop("P37", "Charge, multiplicity and occupation input is resolved consistently",
 "Electron counts, charges and multiplicities given in any combination resolve to one consistent state or are rejected.",
 ["inputs"], "all combinations", PURE, ["src/general/scf_helpers.cpp", "src/general/cmdline.h"],
 [("parse_nela_nelb", "src/general/scf_helpers.cpp")])
prop("P38", "Grids place element boundaries monotonically within the box",
 "Every grid type yields strictly increasing element boundaries starting at zero and ending at the requested radius, for any element count and stretching parameter, or rejects the parameters.",
 ["inputs"], "all grid types and parameters", PURE, ["libhelfem/src/grid.cpp", "libhelfem/src/utils.cpp"], [("grid generation", "libhelfem/src/grid.cpp")])
prop("P39", "Finite nuclear models approach the point nucleus outside the nucleus",
 "Outside the charge radius each finite nuclear model equals the point-nucleus potential, inside it is finite and attractive.",
 ["inputs"], "all models, charges, radii and distances", PURE, ["libhelfemqc/src/GaussianNucleus.cpp", "libhelfemqc/src/SphericalNucleus.cpp", "libhelfemqc/src/HollowNucleus.cpp", "libhelfemqc/src/RegularizedNucleus.cpp"],
 [("potential evaluation", "libhelfemqc/src")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
