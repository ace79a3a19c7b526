#!/usr/bin/env python3
"""Driver of the checks.

  check.py run PROPERTY      build the simulator from /repo's working tree and search; tier from VERIF_TIER, seed from VERIF_SEED
  check.py replay FILE       replay a plan written by a check (exit 1 if it reproduces the violation)
"""
import fcntl, glob, json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build as simbuild
import levels

KNOWN = os.path.join(V, "known-findings.txt")
REPLAYS = os.path.join(V, "replays")

def simulator():
    os.makedirs(simbuild.BUILD, exist_ok=True)
    with open(os.path.join(simbuild.BUILD, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return simbuild.build()

def plan_prop(path):
    for l in open(path, errors="replace"):
        if l.startswith("prop "):
            return l.split()[1]
    return "?"

def replay(path):
    if path.endswith(".json"):
        import mapper, gext
        return (gext if json.load(open(path)).get("prop") == "C28" else mapper).replay(path)
    r = subprocess.run([simulator(), "replay", path], stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    return r.returncode

def known(prop):
    """[(plan file, description)] of the recorded (not repaired) findings of a property."""
    res = []
    for l in open(KNOWN):
        l = l.strip()
        if l.startswith("known: property=%s " % prop):
            f = dict(x.split("=", 1) for x in l.split("|")[0].split()[1:] if "=" in x)
            res.append((os.path.join(V, f["plan"]), l.split("|", 1)[1].strip()))
    return res

def merge(a, b):
    if a is None:
        return b
    for k in ("runs", "nontrivial", "distinct", "schedules", "states", "gaveup", "doubles", "nondet", "died", "unreproduced", "sim_s", "wall_s", "minimise_execs", "found"):
        a[k] += b[k]
    for k, v in b["counts"].items():
        a["counts"][k] = a["counts"].get(k, 0) + v
    a["violations"] += b["violations"]
    a["other"] += b["other"]
    return a

def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop == "C22":
        import mapper
        return mapper.run(prop, tier, seed)
    if prop == "C28":
        import gext
        return gext.run(prop, tier, seed)
    secs = float(os.environ.get("VERIF_SECS", "30" if tier == "quick" else "700"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    sim = simulator()
    tbuild = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    viol, notes = [], []
    # recorded findings: they have to be exactly what they were
    nknown = 0
    for plan, what in known(prop):
        r = subprocess.run([sim, "run", plan], stdout=subprocess.PIPE, text=True, errors="replace")
        hit = [l for l in r.stdout.splitlines() if l.startswith("KNOWN ")]
        bad = [l for l in r.stdout.splitlines() if l.startswith("FINDING ")]
        if bad:
            viol.append((bad[0], plan))
        elif hit:
            nknown += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            notes.append("recorded finding no longer occurs: " + os.path.basename(plan))
    # regression plans: minimised violations of earlier (repaired or planted) defects
    plans = sorted(glob.glob(os.path.join(V, "regress", prop, "*.plan")))
    for p in plans:
        r = subprocess.run([sim, "replay", p], stdout=subprocess.PIPE, text=True, errors="replace")
        if r.returncode == 1 and "reproduced" in r.stdout:
            r2 = subprocess.run([sim, "replay", p], stdout=subprocess.PIPE, text=True, errors="replace")
            if r2.returncode == 1 and r2.stdout == r.stdout:
                viol.append((r.stdout.strip(), p))
    # the search
    out = os.path.join(REPLAYS, ".result-%s-%d.json" % (prop, os.getpid()))
    res = None
    if not viol:
        r = subprocess.run([sim, "check", prop, "--seed", str(seed), "--runs", "1000000000", "--secs", str(secs), "--jobs", str(jobs),
                            "--out", out, "--replays", REPLAYS, "--min", "60"])
        if r.returncode not in (0, 1):
            print("check.py: the simulator failed (status %d)" % r.returncode, file=sys.stderr)
            return 2
        res = json.load(open(out))
        os.unlink(out)
        for v in res["violations"]:
            viol.append((v["what"], v["replay"]))
    lv = levels.LEVELS[prop]
    c = res or {"runs": 0, "distinct": 0, "counts": {}, "samples": [], "nontrivial": 0, "schedules": 0, "states": 0, "gaveup": 0, "doubles": 0, "nondet": 0,
                "sim_s": 0.0, "wall_s": 1e-9, "first_seed": 0, "minimise_execs": 0, "other": [], "unreproduced": 0, "found": 0, "died": 0}
    faults = {k[6:]: v for k, v in c["counts"].items() if k.startswith("fault:")}
    cov = {
        "evaluations": c["runs"] + len(plans),
        "distinct_nontrivial": c["distinct"],
        "rule": lv["rule"],
        "samples": c["samples"] or [viol[0][0]],
        "runs_per_hour": int(c["runs"] / c["wall_s"] * 3600) if c["runs"] else 0,
        "seeds": [c["first_seed"], c["first_seed"] + c["runs"]],
        "simulated_seconds": round(c["sim_s"], 1),
        "simulated_per_wall_second": round(c["sim_s"] / c["wall_s"], 1) if c["runs"] else 0,
        "faults_and_events_injected": faults,
        "distinct_schedules": c["schedules"],
        "distinct_schedules_rule": "hash of the order of system calls, device, client and fault events (no times, no values)",
        "distinct_states": c["states"],
        "distinct_states_rule": "hash of the reference model's engine state (layers, held keys, pending decisions) reached in lockstep with the real code",
        "oracle_counts": {k: v for k, v in c["counts"].items() if not k.startswith("fault:")},
        "determinism": {"executed_twice": c["doubles"], "different": c["nondet"]},
        "model_gave_up": c["gaveup"],
        "regression_plans": len(plans),
        "known_findings": nknown,
        "real_code": lv["real"],
        "stubs": lv["stub"],
        "build_s": round(tbuild, 1),
        "notes": notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": lv["assume"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial), %.0f simulated s, %d schedules, %d states, %d events injected, %.1f s" %
          (prop, c["runs"], c["distinct"], c["sim_s"], c["schedules"], c["states"], sum(faults.values()), time.time() - t0))
    if viol:
        for what, path in viol[:1]:
            print(what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if c["nondet"]:
        print("check.py: %d runs did not repeat exactly" % c["nondet"], file=sys.stderr)
        return 2
    if c["unreproduced"]:
        print("check.py: a violation did not replay exactly", file=sys.stderr)
        return 2
    if not c["runs"]:
        print("check.py: nothing was explored", file=sys.stderr)
        return 2
    return 0

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    if len(sys.argv) == 3 and sys.argv[1] == "run":
        sys.exit(run(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
