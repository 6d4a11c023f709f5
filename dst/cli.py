"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] | determinism PROPERTY"""

import argparse
import collections
import json
import os
import sys
import time

from . import base, pool

sys.path.insert(0, base.VERIF)


def prop_object(pid):
    """The property's generator/shrinker; imports no code under test."""
    if pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C11", "C13"):
        from . import solverprops

        return solverprops.PROPS[pid]
    if pid == "C12":
        from . import importworld

        return importworld.PROPS[pid]
    from . import reportprops

    return reportprops.PROPS[pid]


def known_findings(pid):
    out = []
    path = os.path.join(base.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                out.append(line.split(" ", 2)[2])
    return out


def replay(pid, path):
    data = json.load(open(path))
    w = pool.fresh(pid, data["seed"], data.get("tier", "quick"), data.get("hashseed", 0))
    try:
        r = w.ask({"cmd": "exec", "spec": data["spec"], "events": True})
    finally:
        w.close()
    if "error" in r:
        print(r["error"], file=sys.stderr)
        return 3
    for v in r["violations"]:
        print(f"  {v['cls']}: {v['text']}")
    print(f"digest {r['digest']} (recorded {data.get('digest')})")
    if any(v["cls"] == data["violation"]["cls"] for v in r["violations"]):
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the recorded violation does not occur on this tree")
    return 0


def check(pid, tier, seed):
    t0 = time.monotonic()
    prop = prop_object(pid)
    total = getattr(prop, tier)
    budget = {"quick": 420.0, "thorough": 5400.0}[tier]
    want = set(range(0, min(total, 4000), max(1, min(total, 4000) // 5)))
    print(f"{pid} tier={tier} seed={seed} runs={total} workers={pool.WORKERS}", flush=True)
    prop.prepare(seed, tier)
    res = pool.run_batch(pid, seed, tier, total, t0 + budget, every_twice=40 if tier == "quick" else 100, want=want, tasks=prop.tasks(seed, tier))
    bad = sorted(i for i, r in res.items() if r["violations"])
    # determinism: some runs were executed twice, in different forks
    twice = [r for r in res.values() if "again" in r]
    diverged = [r["i"] for r in twice if r["again"] != r["digest"]]
    code = 0
    reported = []
    for i in bad[:1]:
        r = res[i]
        v = r["violations"][0]
        print(f"run {i}: {v['cls']}: {v['text']}", flush=True)
        small, tried = pool.shrink(prop, pid, seed, tier, r["spec"], v["cls"], r["hashseed"], 60 if tier == "quick" else 300)
        final = None
        for spec, hs in ((small, r["hashseed"]), (small, 0), (r["spec"], r["hashseed"])):
            w = pool.fresh(pid, seed, tier, hs)
            x = w.ask({"cmd": "exec", "spec": spec, "events": True, **({"patience": [30.0, 0]} if v["cls"] == "hang" else {})})
            w.close()
            hit = [y for y in x.get("violations", []) if y["cls"] == v["cls"]]
            if hit:
                final = (spec, hs, hit[0], x)
                break
        if final is None:
            final = (r["spec"], r["hashseed"], v, r)
            print("  (observed once; the replay file holds the run as first seen)")
        spec, hs, v, x = final
        d = os.path.join(base.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-seed{seed}-run{i}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "run": i, "hashseed": hs, "violation": v, "digest": x.get("digest"), "shrink_attempts": tried, "spec": spec, "events": x.get("events", [])[:200]}, f, indent=1)
        print(f"  minimised ({tried} attempts): {v['cls']}: {v['text']}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        reported.append(v)
        code = 1
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    wall = time.monotonic() - t0
    write_evidence(prop, pid, tier, seed, res, total, wall, len(bad), twice, diverged)
    done = len(res)
    print(f"{pid}: {done} runs in {wall:.1f} s, {len(bad)} violating; {len(twice)} re-executed, {len(diverged)} diverged", flush=True)
    if diverged and code == 0:
        print(f"harness error: runs {diverged[:5]} did not repeat exactly", file=sys.stderr)
        return 3
    if code == 0 and done < min(total, 50):
        print("harness error: too few runs finished", file=sys.stderr)
        return 3
    return code


def write_evidence(prop, pid, tier, seed, res, total, wall, nbad, twice, diverged):
    fired = collections.Counter()
    locs = set()
    inter = set()
    nontrivial = set()
    extra = collections.Counter()
    steps = switches = 0
    vtime = 0.0
    for r in res.values():
        fired.update(r["fired"])
        locs.update(r["locs"])
        inter.add(r["inter"])
        steps += r["steps"]
        switches += r["switches"]
        vtime += r["vtime"]
        extra.update(r.get("extra", {}))
        if r["nontrivial"]:
            nontrivial.add(r["inter"])
    samples = []
    for i in sorted(res):
        r = res[i]
        if "spec" in r and len(samples) < 3:
            s = json.dumps(r["spec"])
            samples.append({"run": i, "digest": r["digest"], "spec": r["spec"] if len(s) < 6000 else s[:6000], "events": r.get("events", [])[:12]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": nbad,
        "coverage": {
            "evaluations": len(res), "distinct_nontrivial": len(nontrivial), "rule": prop.rule,
            "samples": samples or [{"note": "no sample retained"}],
            "runs_planned": total, "runs_per_hour": int(len(res) / max(wall, 1e-9) * 3600),
            "seeds": f"run i draws everything from PRNG({seed}/{pid}/i), i = 0..{max(res, default=0)}",
            "simulated_time_s": round(vtime, 3), "simulated_instructions": steps, "context_switches": switches,
            "faults_fired": dict(sorted(fired.items())), "distinct_fault_or_switch_locations": len(locs),
            "distinct_schedules": len(inter), "determinism": {"re_executed": len(twice), "diverged": len(diverged)},
            "counters": dict(sorted(extra.items())), "components": prop.components,
        },
        "assumptions": prop.assumptions,
    }
    d = os.path.join(base.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


def determinism(pid, seeds, runs):
    """Every run of several seeds, at two worker counts and hash seeds: same logs."""
    prop = prop_object(pid)
    bad = 0
    n = 0
    for seed in seeds:
        prop.prepare(seed, "quick")
        a = pool.run_batch(pid, seed, "quick", runs, None, workers=8, every_twice=5, stop_on_violation=False, want=range(runs), tasks=prop.tasks(seed, "quick"))
        b = pool.run_batch(pid, seed, "quick", runs, None, workers=3, stop_on_violation=False, want=range(runs))
        for i in a:
            n += 1
            if a[i]["digest"] != b[i]["digest"] or a[i].get("again", a[i]["digest"]) != a[i]["digest"]:
                bad += 1
                print("diverged", seed, i, a[i]["digest"], b[i]["digest"], a[i].get("again"), "same spec" if a[i]["spec"] == b[i]["spec"] else "other spec")
                print("   first difference", next(((x, y) for x, y in zip(a[i]["events"], b[i]["events"]) if x != y), None))
            if a[i]["violations"]:
                print("violation", seed, i, a[i]["violations"][0])
    print(f"{pid}: {n} runs executed under two worker counts and hash seeds, {bad} diverged")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="boot the simulator once")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int, metavar="RUNS")
    a = ap.parse_args()
    try:
        if a.selftest:
            w = pool.fresh("C01", 1, "quick")
            w.close()
            print("simulator and package import")
            return 0
        if a.replay:
            return replay(a.property, a.replay)
        if a.determinism:
            return determinism(a.property, range(a.seed, a.seed + 5), a.determinism)
        return check(a.property, a.tier, a.seed)
    except pool.Harness as e:
        print(f"harness error:\n{str(e)[-6000:]}", file=sys.stderr)
        return 3
