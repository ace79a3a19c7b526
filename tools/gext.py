"""C28: drives tools/gext.js, the simulation of the GNOME Shell extensions."""
import glob, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NODE = ["node", "--no-warnings", "--experimental-vm-modules", os.path.join(V, "tools", "gext.js")]

def execute(path):
    try:
        r = subprocess.run(NODE + ["run", REPO, path], stdout=subprocess.PIPE, text=True, errors="replace", timeout=30)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 1, "reproduced: the extension never returns to the shell\n"

def replay(path):
    rc, out = execute(path)
    sys.stdout.write(out)
    return rc

def run(prop, tier, seed):
    import levels
    t0 = time.time()
    secs = float(os.environ.get("VERIF_SECS", "15" if tier == "quick" else "600"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol = []
    plans = sorted(glob.glob(os.path.join(V, "regress", prop, "*.json")))
    for p in plans:
        a, b = execute(p), execute(p)
        if a[0] == 1 and a == b: viol.append((a[1].strip().split("\n")[-1], p))
    tot = {"runs": 0, "nontrivial": 0, "double": 0, "nondet": 0}
    hashes, scheds, stat, versions = set(), set(), {}, {}
    sample, wall = None, 1e-9
    if not viol:
        t1 = time.time()
        prog = [os.path.join(rdir, ".gext-%d-%d" % (os.getpid(), k)) for k in range(jobs)]
        ps = [subprocess.Popen(NODE + ["search", REPO, str(seed), str(k), str(jobs), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               env=dict(os.environ, GEXT_PROGRESS=prog[k])) for k in range(jobs)]
        # the workers end by themselves: what does not has run into code of the extension which never returns
        outs = []
        stuck = None
        for k, p in enumerate(ps):
            try:
                outs.append(p.communicate(timeout=max(1, t1 + secs + 45 - time.time())))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                outs.append(None)
                stuck = stuck or open(prog[k]).read()
        for f in prog:
            if os.path.exists(f): os.unlink(f)
        if stuck:
            path = os.path.join(rdir, "%s-%x.json" % (prop, int(stuck)))
            with open(path, "w") as fh: fh.write(subprocess.run(NODE + ["gen", REPO, stuck], stdout=subprocess.PIPE, text=True).stdout)
            rc, out = execute(path)
            if rc != 1 or "never returns" not in out:
                print("gext.py: a worker made no progress", file=sys.stderr)
                return 2
            viol.append((out.strip(), path))
        wall = time.time() - t1
        for p, oe in zip(ps, outs):
            if oe is None: continue
            o, e = oe
            if p.returncode:
                print("gext.py: the simulation failed: " + e[-400:], file=sys.stderr)
                return 2
            r = json.loads(o)
            for k in tot: tot[k] += r[k]
            hashes |= set(r["hashes"]); scheds |= set(r["scheds"])
            for k, v in r["stat"].items(): stat[k] = stat.get(k, 0) + v
            for k, v in r["versions"].items(): versions[k] = versions.get(k, 0) + v
            sample = sample or r["sample"]
            for f, plan in r["viol"][:1]:
                path = os.path.join(rdir, "%s-%x.json" % (prop, int(plan["seed"])))
                with open(path, "w") as fh: json.dump(plan, fh, indent=1, ensure_ascii=False)
                viol.append((f, path))
    lv = levels.LEVELS[prop]
    cov = {"evaluations": tot["runs"] + len(plans), "distinct_nontrivial": len(hashes), "rule": lv["rule"],
           "samples": [json.dumps(sample, ensure_ascii=False)[:1500]] if not viol else [viol[0][0]],
           "runs_per_hour": int(tot["runs"] / wall * 3600), "seeds": [seed << 32, (seed << 32) + tot["runs"]],
           "simulated_seconds": 0, "simulated_per_wall_second": 0,
           "faults_and_events_injected": {(k[6:] if k.startswith("fault:") else k): v for k, v in stat.items() if k.startswith(("fault:", "op:"))},
           "distinct_schedules": len(scheds), "distinct_schedules_rule": "hash of the order of notifications, main loop events, writes and reads (no contents)",
           "runs_per_extension": versions, "oracle_counts": {k: v for k, v in stat.items() if k in ("checks", "lines", "focus_changes", "opens")},
           "determinism": {"executed_twice": tot["double"], "different": tot["nondet"]}, "regression_plans": len(plans), "known_findings": 0,
           "real_code": lv["real"], "stubs": lv["stub"], "notes": ["the extensions use no clock; simulated time is the order of events"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": lv["assume"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d checks, %d lines, %.1f s" % (prop, tot["runs"], len(hashes), stat.get("checks", 0), stat.get("lines", 0), time.time() - t0))
    if viol:
        print(viol[0][0])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]))
        return 1
    if tot["nondet"]:
        print("gext.py: runs did not repeat exactly", file=sys.stderr)
        return 2
    if not tot["runs"]:
        print("gext.py: nothing was explored", file=sys.stderr)
        return 2
    return 0
