#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide one property by seeded simulation
check.py --replay FILE [LOG]               replay a plan; LOG gets the event log"""
import json, os, re, subprocess, sys, time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

REAL = "every source file of rcutils named in CMakeLists.txt, compiled from the working tree"
STUB = ("heap, stdio streams, vsnprintf/snprintf failures, clocks, time zone, environment, file system and directory streams, "
        "dynamic loader, locks and thread scheduling are the simulator's")


def findings(prop):
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def sh(args, timeout):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def replay(sim, f, kn, log=None):
    """-> (hash, class, detail)"""
    a = [sim, "replay", f] + (["--known", kn] if kn else []) + (["--log", log] if log else [])
    p = sh(a, 200)
    m = re.search(r"^RESULT hash=(\S+) class=(.*)$", p.stdout, re.M)
    d = re.search(r"^DETAIL (.*)$", p.stdout, re.M)
    if not m:
        return ("?", "?", p.stdout + p.stderr)
    return (m.group(1), m.group(2), d.group(1) if d else "")


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sim = B.build()
        p = open(sys.argv[2]).read()
        prop = re.search(r"^prop (\S+)", p, re.M).group(1)
        h, c, d = replay(sim, sys.argv[2], ",".join(findings(prop)), sys.argv[3] if len(sys.argv) > 3 else None)
        print("hash=%s class=%s\n%s" % (h, c, d))
        return 1 if c != "-" else 0
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "checks.json")))
    c = dict(cfg["default"]); c.update(cfg.get(prop, {}))
    runs, secs = c[tier + "_runs"], c[tier + "_secs"]
    sim = B.build()
    kn_map = findings(prop)
    kn = ",".join(kn_map)
    work = os.path.join(B.OUT, "work", prop)
    os.makedirs(work, exist_ok=True)
    print("property %s tier %s seed %d" % (prop, tier, seed), flush=True)

    # determinism: the same run seeds in fresh processes, in batches starting at different places, with one and several
    # of them alive at a time, must give the same event logs
    nh = 240 if tier == "quick" else 2000
    tables = []
    mism = 0
    procs = []
    for frm in (0, 0, nh // 3, nh // 2):
        procs.append((frm, subprocess.Popen([sim, "hashes", "--prop", prop, "--seed", str(seed), "--from", str(frm),
                                             "--runs", str(nh - frm), "--tier", tier] + (["--known", kn] if kn else []),
                                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    for frm, p in procs:
        try:
            o, _ = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        tables.append(dict(l.split() for l in o.splitlines() if len(l.split()) == 2))
    compared = 0
    for t in tables[1:]:
        for k, v in t.items():
            if k in tables[0]:
                compared += 1
                mism += v != tables[0][k]

    # the batch
    res = os.path.join(work, "batch.json")
    if os.path.exists(res):
        os.remove(res)
    p = sh([sim, "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--secs", str(secs), "--tier", tier,
            "--jobs", "8", "--maxfound", "4", "--out", res] + (["--known", kn] if kn else []), secs + 200)
    if p.returncode != 0:
        print("simulator error (%d): %s" % (p.returncode, (p.stdout + p.stderr)[-2000:]))
        return 2
    r = json.load(open(res))

    # every violation must come back from its seed alone in fresh processes, and again after minimisation
    rdir = os.path.join(VERIF, "replays")
    reported = []
    ungated = []
    budget = time.time() + 150
    for f in sorted(r["found"], key=lambda f: f["index"]):
        plan = os.path.join(work, "found-%d.plan" % f["index"])
        sh([sim, "gen", "--prop", prop, "--runseed", str(f["seed"]), "--tier", tier, "--out", plan], 60)
        a, b = replay(sim, plan, kn), replay(sim, plan, kn)
        if a[1] == "-" or a[:2] != b[:2]:
            ungated.append((f, a, b))
            continue
        if reported and time.time() > budget:
            continue
        os.makedirs(rdir, exist_ok=True)
        final = os.path.join(rdir, "%s-%d-%d.plan" % (prop, seed, f["index"]))
        left = max(5, min(60, budget - time.time()))
        ok = False
        try:
            sh([sim, "min", plan, "--out", final, "--secs", str(left)] + (["--known", kn] if kn else []), left + 150)
            x, y = replay(sim, final, kn), replay(sim, final, kn)
            ok = x == y and x[1] == a[1]
        except subprocess.TimeoutExpired:
            pass
        if not ok:
            open(final, "w").write(open(plan).read())
            x = a
        reported.append((f, x, final))

    wall = time.time() - t0
    simwall = max(r["wall_s"], 0.001)
    probes = {k: v for k, v in r["probes"].items()}
    faults = {k: v for k, v in r["faults"].items() if v}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"],
            "distinct_nontrivial": min(r["distinct_histories"], r["nontrivial"]),
            "rule": "one evaluation is one simulated run: operations, schedule and faults drawn from the run's seed; non-trivial: at "
                    "least one fault fired, or one thread switch, or three operations; distinct: by the hash of the run's event log "
                    "(operations, results, every intercepted call, faults, switches)",
            "samples": r["samples"],
            "runs_per_hour": int(r["runs"] * 3600 / simwall),
            "seeds_per_hour": int(r["runs"] * 3600 / simwall),
            "simulated_seconds_covered": round(r["simtime_ns"] / 1e9, 3),
            "operations": r["ops"], "thread_switches": r["switches"], "switch_points_offered": r["yields"],
            "runs_with_fault_fired": r["runs_with_fault"], "runs_with_thread_switch": r["runs_with_switch"],
            "faults_fired": faults,
            "distinct_code_paths": r["distinct_paths"],
            "distinct_code_paths_measure": "hash of the set of instrumented basic blocks with bucketed hit counts, per run",
            "rare_conditions_reached": probes,
            "determinism": {"event_logs_compared_across_processes": compared, "differences": mism},
            "real_code": REAL, "stubs": STUB,
            "known_findings_hit": r["known"],
            "violation_classes": [f["class"] for f in r["found"]],
        },
        "assumptions": [
            "sequentially consistent memory: threads are switched at calls, basic blocks, loads and stores; hardware reordering is not simulated",
            "the simulated libc services behave as the POSIX/glibc ones do on the paths rcutils uses",
            "built with clang -O1 and AddressSanitizer for Linux; Windows and other platform branches are not compiled",
            "a clean batch is evidence, not proof",
        ],
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("runs %d (%d/h), distinct histories %d, distinct paths %d, faults fired %s, switches %d, wall %.1fs" % (
        r["runs"], r["runs"] * 3600 / simwall, r["distinct_histories"], r["distinct_paths"], sum(faults.values()), r["switches"], wall))
    for k, what in kn_map.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if reported:
        for f, x, final in reported:
            print("  class %s: %s (run seed %d)" % (x[1], x[2], f["seed"]))
        for f, x, final in reported:
            print("VIOLATION property=%s replay=%s" % (prop, final))
        return 1
    if ungated:
        for f, a, b in ungated:
            print("not reproducible: found %s (%s); replays: %s / %s" % (f["class"], f["detail"], a, b))
        return 2
    if mism:
        print("determinism self-test failed: %d of %d event logs differ" % (mism, compared))
        return 2
    if r["runs"] == 0:
        print("nothing was run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
