#!/usr/bin/env python3
"""Development aid: lines of /repo no simulated run of the given properties reaches.
usage: cover.py SECONDS PROPERTY...   (builds its own instrumented binaries under $VERIF_BUILD)"""
import collections, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, "sim"))
os.environ["VERIF_COV"] = "1"; os.environ.setdefault("VERIF_BUILD", "/tmp/vcov")
import build, props
T = sys.argv[1]; hit = collections.defaultdict(int); allb = set()
for key in sorted({(props.cfg(p)["mode"], props.cfg(p)["harness"]) for p in sys.argv[2:]}):
    exe = build.build(*key); tmp = tempfile.mkdtemp(prefix="cov-"); cov = os.path.join(tmp, "map")
    ps = [p for p in sys.argv[2:] if (props.cfg(p)["mode"], props.cfg(p)["harness"]) == key]
    for p in ps:
        env = dict(os.environ, SIM_COV=cov, SIM_SCRATCH=tmp); n = int(os.environ.get("COV_JOBS", "4"))
        w = [subprocess.Popen([exe, "--property", p, "--seed", os.environ.get("COV_SEED", "1"), "--worker", str(i), "--nworkers", str(n), "--runs", "10000000", "--time", T], env=env, stdout=subprocess.DEVNULL) for i in range(n)]
        for x in w: x.wait()
    m = open(cov, "rb").read(); shutil.rmtree(tmp)
    base = int(re.search(r"([0-9a-f]+) . __executable_start", subprocess.run(["nm", exe], stdout=subprocess.PIPE).stdout.decode()).group(1), 16)
    d = subprocess.run("objdump -d --no-show-raw-insn %s | grep -A1 'call.*__sanitizer_cov_trace_pc'" % exe, shell=True, stdout=subprocess.PIPE).stdout.decode()
    pcs = []; want = False
    for l in d.splitlines():
        if "__sanitizer_cov_trace_pc" in l: want = True; continue
        if want and ":" in l: pcs.append(int(l.split(":")[0], 16)); want = False
    # attribute each block to the line of its first instruction
    a = subprocess.run(["addr2line", "-e", exe], input="\n".join(hex(x) for x in pcs), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    for x, l in zip(pcs, a):
        l = l.split(" ")[0]
        if not l.startswith(build.REPO): continue
        allb.add(l); hit[l] += m[x - base]
miss = collections.defaultdict(list)
for l in allb:
    if not hit[l]:
        f, n = l.rsplit(":", 1)
        if n.isdigit(): miss[f].append(int(n))
for f in sorted(miss):
    print("%s: %s" % (os.path.relpath(f, build.REPO), " ".join(map(str, sorted(miss[f])))))
print("%d of %d lines with blocks reached" % (sum(1 for l in allb if hit[l]), len(allb)))
