#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py C05                 tier and seed from VERIF_TIER / VERIF_SEED
  check.py C05 --replay FILE   replays a recorded violation in a fresh process

Exit 0: no violation in anything explored.  Exit 1: a VIOLATION line.  Exit 2:
the check itself failed (build error, nondeterminism, simulator error).
"""
import json, os, subprocess, sys, tempfile, time, shutil, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder
from checks import CHECKS, REAL, STUB, ASSUME

BUILD = builder.BUILD
EVID = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = max(1, len(os.sched_getaffinity(0)))


def die(msg):
    print("CHECK ERROR: " + msg)
    sys.exit(2)


def known_for(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            if e["property"] == prop:
                out.append(e)
    return out


def exe(name):
    return os.path.join(BUILD, "sim_" + name)


def run_json(cmd, timeout):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    for line in reversed(r.stdout.strip().splitlines()):
        if line.startswith("{"):
            try:
                return r.returncode, json.loads(line)
            except ValueError:
                pass
    return r.returncode, {"raw": r.stdout[-2000:]}


def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        scen = next(l.split()[1] for l in open(f) if l.startswith("scenario "))
        e = next(s["exe"] for p in CHECKS.values() for s in p["scenarios"] if s["name"] == scen)
        if not builder.build([e], quiet=True):
            die("build failed")
        rc, j = run_json([exe(e), "--replay", f, "--show"] if "--show" in sys.argv else [exe(e), "--replay", f], 600)
        print(json.dumps(j))
        if j.get("status") == 2:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(f)))
        sys.exit(rc)
    t0 = time.time()
    # tests of the machinery itself may scale the search time
    budget = float(os.environ.get("SIM_TIME", spec.get("thorough_s", 600) if tier == "thorough" else spec.get("quick_s", 36)))
    exes = sorted({s["exe"] for s in spec["scenarios"]})
    if not builder.build(exes, quiet=True):
        die("the code under test doesn't build in the simulator")
    build_s = time.time() - t0
    os.makedirs(os.path.join(EVID), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="simcheck.")
    try:
        return search(prop, spec, tier, seed, budget, tmp, t0, build_s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(prop, spec, tier, seed, budget, tmp, t0, build_s):
    known = known_for(prop)
    kfile = os.path.join(tmp, "known")
    with open(kfile, "w") as f:
        for e in known:
            f.write("%s\t%s\t%s\t%s\n" % (e["id"], e["violates"], e["class"], e["message_contains"]))
    total_w = float(sum(s.get("weight", 1) for s in spec["scenarios"]))
    per, violation, errors = {}, None, []
    det = {"checked": 0, "mismatches": 0}
    for s in spec["scenarios"]:
        name = s["name"]
        t = budget * s.get("weight", 1) / total_w
        # determinism first: the same seeds again, and as replays of their recorded choices
        procs = []
        for k in range(min(2, NCPU)):
            out = os.path.join(tmp, "det.%s.%d" % (name, k))
            procs.append((out, subprocess.Popen(
                [exe(s["exe"]), "--scenario", name, "--prop", prop, "--seed", str(seed), "--start", str(k), "--stride", str(NCPU),
                 "--time", str(max(0.7, min(5, t * 0.04))), "--verify", "--nolists", "--fails", "1000000", "--cpu", str(k + 3),
                 "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for out, p in procs:
            text = p.communicate(timeout=300)[0]
            try:
                j = json.load(open(out))
            except Exception:
                errors.append("determinism run of %s failed: %s" % (name, text[-500:]))
                continue
            det["checked"] += j["runs"]
            det["mismatches"] += j["mismatches"]
            if j["mismatches"]:
                errors.append("%s is not deterministic: %s" % (name, text[-300:]))
        if errors:
            break
        workers = []
        for k in range(NCPU):
            out = os.path.join(tmp, "%s.%d.json" % (name, k))
            rep = os.path.join(tmp, "%s.%d.rep" % (name, k))
            log = open(os.path.join(tmp, "%s.%d.log" % (name, k)), "w+")
            cmd = [exe(s["exe"]), "--scenario", name, "--prop", prop, "--seed", str(seed), "--start", str(k), "--stride", str(NCPU),
                   "--time", "%.2f" % t, "--fails", "1", "--cpu", str(k), "--fail-out", rep, "--out", out, "--known", kfile]
            workers.append((out, rep, log, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)))
        limit = time.time() + t + 150
        grace, late = None, False
        while any(p.poll() is None for _, _, _, p in workers):
            time.sleep(0.05)
            if grace is None and any(p.poll() == 1 for _, _, _, p in workers):
                grace = time.time() + 1.0  # let the others write what they have
            late = late or time.time() > limit
            if late or (grace and time.time() > grace):
                for _, _, _, p in workers:
                    if p.poll() is None:
                        p.kill()
        agg = per[name] = {"runs": 0, "errors": 0, "steps": 0, "switches": 0, "sim_s": 0.0, "wall_s": 0.0, "nontrivial": 0,
                           "faults": {}, "probes": {}, "classes": {}, "known": {}, "sample": "", "scheds": set(), "states": set(), "runset": set()}
        cands = []
        for k, (out, rep, log, p) in enumerate(workers):
            p.wait()
            log.seek(0)
            text = log.read()
            if p.returncode not in (0, 1):
                if not grace and not (late and p.returncode == -9):  # (short of processor time)
                    errors.append("%s worker %d ended with %s: %s" % (name, k, p.returncode, text[-600:]))
            if not os.path.exists(out):
                continue
            j = json.load(open(out))
            for f in ("runs", "errors", "steps", "switches", "sim_s", "nontrivial"):
                agg[f] += j[f]
            agg["wall_s"] = max(agg["wall_s"], j["wall_s"])
            for f in ("faults", "probes", "classes", "known"):
                for a, b in j[f].items():
                    agg[f][a] = agg[f].get(a, 0) + b
            for f in ("scheds", "states", "runset"):
                agg[f].update(j[f])
            agg["sample"] = agg["sample"] or j["sample"]
            if j["fails"] and os.path.exists(rep):
                cands.append((os.path.getsize(rep), rep))
        if not agg["runs"] and not errors:
            errors.append("%s: no run ended in time" % name)
        if cands:
            violation = confirm(prop, s, min(cands)[1], tmp, errors)
            break
        if errors:
            break
    write_evidence(prop, spec, tier, seed, per, det, t0, build_s, violation)
    for e in known:
        hits = sum(a["known"].get(e["id"], 0) for a in per.values())
        print("KNOWN-FINDING: property=%s %s (hit in %d runs)" % (prop, e["what"], hits))
    if violation:
        print(violation["summary"])
        print("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        return 1
    if errors:
        die("; ".join(errors))
    runs = sum(a["runs"] for a in per.values())
    print("property %s held in %d simulated runs (%.0f simulated seconds, %d faults injected), %.0f s"
          % (prop, runs, sum(a["sim_s"] for a in per.values()), sum(sum(a["faults"].values()) for a in per.values()), time.time() - t0))
    return 0


def confirm(prop, s, rep, tmp, errors):
    """Shrinks the failing run and proves in fresh processes that its file replays it exactly."""
    small = os.path.join(tmp, "min.rep")
    try:
        run_json([exe(s["exe"]), "--minimise", rep, "--out", small, "--time", "20"], 120)
    except subprocess.TimeoutExpired:
        pass
    for cand in (small, rep):
        if not os.path.exists(cand):
            continue
        ok = True
        for _ in range(2):
            try:
                rc, j = run_json([exe(s["exe"]), "--replay", cand], 120)
            except subprocess.TimeoutExpired:
                ok = False
                break
            ok = ok and rc == 1 and j.get("same") is True
        if ok:
            dst = os.path.join(EVID, "replay_%s.txt" % prop)
            shutil.copy(cand, dst)
            n = sum(int(l.split()[2]) for l in open(cand) if l.startswith("choices "))
            return {"path": dst, "summary": "%s: %s [%s] (%d choices; replayed exactly in fresh processes)"
                    % (s["name"], j.get("message", ""), j.get("class", ""), n), "class": j.get("class")}
    errors.append("a violation in %s did not replay" % s["name"])
    return None


def write_evidence(prop, spec, tier, seed, per, det, t0, build_s, violation):
    runs = sum(a["runs"] for a in per.values())
    wall = sum(a["wall_s"] for a in per.values()) or 1e-9
    faults, probes = {}, {}
    for a in per.values():
        for k, v in a["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in a["probes"].items():
            probes[k] = probes.get(k, 0) + v
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(len(a["runset"]) for a in per.values()),
        "rule": "one case = one seeded simulated execution (" + spec["workload"] + "); every schedule decision, fault, delay and "
                "workload parameter is drawn from the run's seed. Non-trivial: more than two thread switches or at least one injected "
                "fault. Distinct: different hash over the run's events, schedule and choices.",
        "samples": [n + ": " + a["sample"] for n, a in per.items() if a["sample"]] or ["none"],
        "distinct_interleavings": sum(len(a["scheds"]) for a in per.values()),
        "distinct_interleavings_measure": "hash over the sequence of (thread switched to, reason, step number) of non-trivial runs",
        "distinct_states": sum(len(a["states"]) for a in per.values()),
        "simulated_runs_per_hour": int(runs / wall * 3600),
        "seeds_per_hour": int(runs / wall * 3600),
        "simulated_seconds": round(sum(a["sim_s"] for a in per.values()), 3),
        "scheduling_steps": sum(a["steps"] for a in per.values()),
        "thread_switches": sum(a["switches"] for a in per.values()),
        "faults_injected": faults,
        "probes": probes,
        "determinism": {"runs_repeated_and_replayed": det["checked"], "divergences": det["mismatches"]},
        "per_scenario": {n: {"runs": a["runs"], "nontrivial": a["nontrivial"], "simulated_s": round(a["sim_s"], 3), "wall_s": round(a["wall_s"], 2)}
                         for n, a in per.items()},
        "workers": NCPU,
        "real_code": spec.get("real", REAL),
        "stubbed": spec.get("stub", STUB),
        "oracle": spec["oracle"],
    }
    if violation:
        cov["violation"] = violation["summary"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME + spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
