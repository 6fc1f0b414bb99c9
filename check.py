#!/usr/bin/env python3
"""check.py <property> <quick|thorough>    decide one property (MANIFEST.json commands)
   check.py --replay <file>              re-execute a recorded violation
   check.py --selftest <property>        determinism: the same seeds twice, in different processes
Exit 0: held on everything explored; 1: VIOLATION; anything else: error."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B
import props

KNOWN = os.path.join(HERE, "known_findings.txt")

def known(prop):
    """(scenario, signature regex, text) of recorded, unrepaired defects"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) scenario=(\S+) signature=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out

def binary(cfg):
    return B.build(cfg["mode"], cfg["harness"])

def where(exe, text):
    """names the code addresses in a report"""
    pcs = sorted(set(re.findall(r"0x[0-9a-f]+", text)))
    if not pcs:
        return ""
    try:
        out = []
        for pc in pcs:
            r = subprocess.run(["addr2line", "-Cfipe", exe, pc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode("utf-8", "replace")
            lines = [x.strip() for x in r.splitlines() if x.strip()]
            pick = [x for x in lines if B.REPO in x] or lines
            out.append("%s = %s" % (pc, pick[0] if pick else "?"))
        return "\n".join(out)
    except Exception as e:
        return str(e)

def run_workers(exe, prop, tier, seed, cfg, tmp, extra=(), stop_on_found=True):
    n = min(os.cpu_count() or 8, 16)
    runs, tlim = cfg[tier]
    env = dict(os.environ, SIM_SCRATCH=tmp)
    env.pop("SIM_NO_REEXEC", None)
    ps = []
    for w in range(n):
        st = os.path.join(tmp, "stats.%d" % w); so = open(os.path.join(tmp, "out.%d" % w), "w+")
        cmd = [exe, "--property", prop, "--tier", tier, "--seed", str(seed), "--worker", str(w), "--nworkers", str(n), "--runs", str(runs), "--time", str(tlim), "--stats", st, "--replay-out", os.path.join(tmp, "replay.%d" % w), "--minimise", "40" if tier == "quick" else "120"] + list(extra)
        ps.append([subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, env=env), st, so, w])
    done = {}
    while len(done) < len(ps):
        for p, st, so, w in ps:
            if w not in done and p.poll() is not None:
                done[w] = p.returncode
        if stop_on_found and any(v == 1 for v in done.values()):
            for p, *_ in ps:
                if p.poll() is None:
                    p.terminate()
            for p, *_ in ps:
                p.wait()
            for x in ps:
                done.setdefault(x[3], None)
            break
        time.sleep(0.05)
    res = []
    for p, st, so, w in ps:
        so.seek(0); text = so.read(); so.close()
        stats = None
        if os.path.exists(st):
            try:
                stats = json.load(open(st))
            except ValueError:
                pass
        res.append((w, done[w], text, stats))
    return res

def merge(res):
    T = dict(runs=0, events=0, switches=0, forced=0, conflicts=0, regions=0, undersized=0, permuted=0, stalls=0, sync_ops=0, sim_ns=0, nontrivial=0)
    probes, per, hashes, fns, samples, mt = {}, {}, set(), set(), [], 0
    for _, _, _, s in res:
        if not s:
            continue
        for k in T:
            T[k] += s[k]
        mt = max(mt, s["max_threads"])
        for k, v in s["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in s["per_scenario"].items():
            per[k] = per.get(k, 0) + v
        hashes.update(s["hashes"]); fns.update(s["fns"]); samples += s["samples"][:1]
    return T, probes, per, hashes, fns, samples[:4], mt

def evidence(prop, tier, seed, cfg, exe, res, t0, tb, nviol, note=None):
    T, probes, per, hashes, fns, samples, mt = merge(res)
    wall = time.time() - t0; sim = max(1e-9, wall - tb)
    regions = []
    if fns and cfg["mode"] == "omp":
        r = subprocess.run(["addr2line", "-Cfpe", exe] + [hex(x) for x in sorted(fns)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode("utf-8", "replace")
        regions = sorted(set(re.sub(r" \(discriminator.*", "", l.split(" at ")[-1]).replace(B.REPO + "/", "") for l in r.splitlines() if " at " in l))
    cov = dict(
        evaluations=T["runs"], distinct_nontrivial=len(hashes), rule=cfg["rule"],
        samples=samples or ["no run finished"],
        runs_per_scenario=per, runs_per_hour=int(T["runs"] / sim * 3600), seeds_per_hour=int(T["runs"] / sim * 3600),
        distinct_measure=cfg["measure"], simulated_seconds=T["sim_ns"] / 1e9,
        real_code=cfg["real"], stubs=cfg["stubs"],
        conditions_reached={k: v for k, v in sorted(probes.items()) if not k.startswith("fault:")})
    if cfg["mode"] == "omp":
        cov["faults_injected"] = dict(preemption_at_memory_access=T["switches"], forced_handover=T["forced"], undersized_team=T["undersized"], chunk_handed_out_of_order=T["permuted"], stalled_thread=T["stalls"])
        cov["instrumented_events"] = T["events"]; cov["conflicting_accesses_seen"] = T["conflicts"]; cov["synchronisation_events"] = T["sync_ops"]; cov["max_team"] = mt; cov["parallel_regions_executed"] = T["regions"]
        cov["parallel_regions"] = regions
    else:
        cov["faults_injected"] = {k[6:]: v for k, v in sorted(probes.items()) if k.startswith("fault:")}
        cov["simulated_system_calls"] = T["events"]
    if note:
        cov["note"] = note
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=nviol, assumptions=cfg["assumptions"])
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(d, prop + ".json.tmp"), os.path.join(d, prop + ".json"))

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        txt = open(a[1]).read()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        exe = binary(props.cfg(prop))
        r = subprocess.run([exe, "--replay", a[1]] + a[2:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode("utf-8", "replace"); print(out, end="")
        print(where(exe, out))
        return r.returncode
    if a and a[0] == "--selftest":
        return selftest(a[1], int(a[2]) if len(a) > 2 else 40)
    prop = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    cfg = props.cfg(prop); t0 = time.time()
    try:
        exe = binary(cfg)
    except B.BuildError as e:
        print("BUILD FAILED: %s" % e); return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        kf = known(prop); extra = []
        if kf:
            kpath = os.path.join(tmp, "known"); extra = ["--known", kpath]
            with open(kpath, "w") as f:
                for s, r, _ in kf:
                    f.write("%s %s\n" % (s, r))
        res = run_workers(exe, prop, tier, seed, cfg, tmp, extra)
        found = [(w, t) for w, rc, t, _ in res if rc == 1]
        bad = [(w, rc, t) for w, rc, t, _ in res if rc not in (0, 1, None)]
        for s, r, text in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if found:
            rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True); ok = False; loose = None
            for w, text in found:
                src = os.path.join(tmp, "replay.%d" % w)
                dst = os.path.join(rd, "%s-%s.replay" % (prop, hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]))
                shutil.copyfile(src, dst)
                # gate: a fresh process must reproduce it from the file alone
                r = subprocess.run([exe, "--replay", dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, SIM_SCRATCH=tmp))
                out = r.stdout.decode("utf-8", "replace")
                print(text.strip()); print(where(exe, text))
                print("fresh-process replay: %s" % ("reproduced exactly" if r.returncode == 1 else "exit %d: %s" % (r.returncode, out.strip())))
                ok = r.returncode == 1
                if r.returncode == 4 and not loose:
                    loose = dst
                if ok:
                    break
            if not ok and loose:
                # the code under test read or overwrote memory it does not own: the run fails every time, but
                # what it shows depends on that memory
                again = [subprocess.run([exe, "--replay", loose], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, SIM_SCRATCH=tmp)).returncode for _ in range(3)]
                ok = all(x in (1, 4) for x in again); dst = loose
                print("fresh-process replays fail with exits %s: the violation is there in each, its details depend on foreign memory" % again)
            if not ok:
                evidence(prop, tier, seed, cfg, exe, res, t0, tb, 0, "a failure did not replay")
                print("error: the recorded failure did not replay"); return 3
            evidence(prop, tier, seed, cfg, exe, res, t0, tb, 1)
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            return 1
        evidence(prop, tier, seed, cfg, exe, res, t0, tb, 0)
        if bad:
            for w, rc, t in bad:
                print("worker %d: exit %s\n%s" % (w, rc, t.strip()[-2000:]))
            return 3
        T, probes, per, hashes, *_ = merge(res)
        print("%s %s: %d simulated runs (%d distinct non-trivial) in %.1f s (build %.1f s), no violation" % (prop, tier, T["runs"], len(hashes), time.time() - t0, tb))
        missing = [p for p in cfg.get("must_reach", []) if not probes.get(p)]
        if missing:
            print("note: not reached in this run: %s" % ", ".join(missing))
        if T["runs"] == 0:
            print("error: no run finished"); return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def selftest(prop, runs):
    cfg = props.cfg(prop); exe = binary(cfg); logs = []
    for i, nw in enumerate((3, 1)):
        tmp = tempfile.mkdtemp(prefix="verif-st-"); lines = {}
        try:
            env = dict(os.environ, SIM_SCRATCH=tmp)
            if i == 1:
                env["SIM_NO_REEXEC"] = "1"  # a different address-space layout
            ps = [subprocess.Popen([exe, "--property", prop, "--seed", "7", "--worker", str(w), "--nworkers", str(nw), "--runs", str(runs), "--time", "3600", "--log", os.path.join(tmp, "log.%d" % w), "--keep-going"], env=env, stdout=subprocess.DEVNULL) for w in range(nw)]
            for p in ps:
                p.wait()
            for w in range(nw):
                for l in open(os.path.join(tmp, "log.%d" % w)):
                    k = l.split()
                    lines[int(k[0])] = re.sub(r" wall=\S+", "", l)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        logs.append(lines)
    d = [k for k in logs[0] if logs[0][k] != logs[1].get(k)]
    for k in d[:3]:
        print(logs[0][k], logs[1].get(k))
    print("%s: %d runs executed twice, %d differ" % (prop, len(logs[0]), len(d)))
    return 1 if d or len(logs[0]) != len(logs[1]) else 0

if __name__ == "__main__":
    sys.exit(main())
