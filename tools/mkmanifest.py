#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "sim"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
OMPN = "Seeded search over thread schedules of the real code on a simulated OpenMP runtime: team sizes, granted team sizes, iteration hand-out, preemption at any memory access, stalls. Every access is race-checked, the result is compared with the single-threaded result, and deadlock, crash and non-termination are violations. Finds any data race on an executed path irrespective of whether it changed the result; says nothing about inputs and schedules not drawn. Trusts the simulator (sim/rt) and the uninstrumented libraries."
ION = "Seeded search over operation histories and fault sequences of the real code on a disk and clock behind interposed system calls: failing, short, interrupted and out-of-space system calls, crashes and truncations. Checked against an executable reference model after every call. Says nothing about histories not drawn. Trusts the simulated system-call layer (sim/rt/simos.cpp) and HDF5's own error reporting."
MEMN = "Seeded search over inputs and over what memory holds before it is written to: every heap block, fresh or freed, and the stack are filled with zeros, NaNs, numbers or small integers by interposed allocators, and whole programs as well as library calls must give bit-identical results. Finds reads of unwritten or stale memory that reach a result on an executed path; says nothing about inputs not drawn, nor about static storage. Trusts the interposed allocators (sim/rt/simos.cpp)."
NA = {
 "P30": "pure function of its input on one thread; no schedule, time, I/O or fault can affect it, so a simulator has nothing to control",
 "P31": "pure numerical identity of a quadrature rule; nothing to schedule or to fail",
 "P32": "pure property of polynomial evaluation; nothing to schedule or to fail",
 "P33": "accuracy of special functions is a property of each input alone; only their behaviour under concurrent use is decided here (P08)",
 "P34": "algebraic identity of a table; only its schedule-independence is decided here (P07, P08)",
 "P35": "convergence with basis size is a sequential numerical property; no fault or interleaving bears on it",
 "P36": "derivative consistency is a sequential numerical identity; only schedule-independence of both sides is decided here (P03-P06)",
 "P37": "sequential case analysis of command-line numbers; no concurrency, time or I/O",
 "P38": "pure function of grid parameters",
 "P39": "pure function of distance and nuclear parameters",
}
checks, na = [], []
for i in ids:
    if i in props.CFG:
        o = props.CFG[i]["mode"] == "omp"
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation: seeded schedule search on a simulated OpenMP runtime with race detection and a serial reference" if o else "deterministic simulation: seeded contents of uninitialised and reused memory behind interposed allocators, differential against a reference execution" if i == "P21" else "deterministic simulation: seeded operation histories and fault injection on a simulated disk/clock against a reference model",
            level="exploration", level_note=OMPN if o else MEMN if i == "P21" else ION))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, hooks=dict(guard="none", enable="no hooks were needed: the OpenMP ABI, the thread sanitizer ABI, the libc system-call wrappers and the allocators are the seams; /repo is compiled unmodified", source_commits=[]),
         notes="See DESIGN.md. Violations leave replays/<id>-*.replay; re-execute with: python3 check.py --replay <file>")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
