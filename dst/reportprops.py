"""Properties of the report generator: histories, and judges of what was published."""

import base64
import json
import math
import re

from . import base, pool, reportworld as W

HOME, README, START, END = W.HOME, W.README, W.START, W.END

GROUPS = {
    "zero-rev-nominal": "Zero-revolution nominal cases",
    "zero-rev-general": "Zero-revolution general cases",
    "zero-rev-hyperbolic": "Zero-revolution hyperbolic cases",
    "multi-rev-m1": "One-revolution branch cases",
    "multi-rev-hard": "Near-minimum-energy multi-revolution cases",
    "robust-zero-rev": "Near-tangent robustness cases",
}
CASES = {
    "battin-book": "Battin book", "curtiss-book": "Curtiss book", "vallado-book": "Vallado book", "gmat-prograde": "GMAT hyperbolic", "gmat-retrograde": "GMAT hyperbolic",
    "der-article-i-prograde-low": "Der article I", "der-article-i-retrograde-high": "Der article I", "der-article-ii-prograde-high": "Der article II",
    "der-article-ii-retrograde-high": "Der article II", "prograde-high": "Der article II", "prograde-low": "Der article II", "retrograde-high": "Der article II",
    "retrograde-low": "Der article II", "m1-prograde-high": "Near-minimum-energy", "m1-prograde-low": "Near-minimum-energy", "m2-prograde-high": "Near-minimum-energy",
    "m2-prograde-low": "Near-minimum-energy", "near-tangent-prograde-high": "Near tangent",
}
SOLVERS = ["gauss1809", "battin1984", "gooding1990", "avanzini2008", "arora2013", "vallado2013", "izzo2015", "jiang2016", "thorne2004", "der2011", "pan2016", "negrete2024",
           "mcelreath2025", "delatorre2018"]
NASTY = [
    "Costs \\1 and \\g<0> and \\g<name>, C:\\new\\readme\\x41", "a\\\\b \\d+ [x](y) $1 ^.*? ", "naïve façade – Δv ≈ 3 km/s 🚀", "x\u2028y\u0085z\x0cpage", "trailing spaces   ", "\t| a | b |",
    "<!-- performance-comparison -->", "<!-- performance-comparison:begin -->", "## Performance comparison", "100 % sure {0} {} %s %d", "```python\nprint('\\n')\n```", "a\rb", "* one\n* two",
    "### Zero-revolution nominal cases", "", "", "Plain prose about Lambert's problem.", "Another ordinary paragraph, of no particular interest.",
]


def human(rng, n=None):
    lines = ["# lamberthub"] if rng.random() < 0.6 else []
    for _ in range(rng.randint(0, 9) if n is None else n):
        lines.append(rng.choice(NASTY))
    t = "\n".join(lines)
    u = rng.random()
    if u < 0.22:
        t = t.replace("\n", "\r\n")
    if rng.random() < 0.04:
        t = "\ufeff" + t
    if rng.random() < 0.12:
        t += "".join(rng.choice("abcdefgh \n") for _ in range(rng.randint(2000, 20000)))
    return t


def gen_readme(rng):
    pre = human(rng)
    u = rng.random()
    nl = "\r\n" if "\r\n" in pre else "\n"
    if u < 0.25:
        return pre + rng.choice(["", nl, nl * 3, "  " + nl])
    old = nl.join(["", "", "_This section is auto-generated from CI benchmark artifacts._", "", "- Generated: 2020-01-01 00:00 UTC"] + ["| 1 | `izzo2015` | 0 | Yes | low | 1.0 |"] * rng.choice([0, 3, 40, 300]) + [""])
    if rng.random() < 0.05:
        old = ""
    sep = rng.choice([nl * 2, nl, "", " "])
    suf = rng.choice(["", nl, nl * 2, "tail on the same line" + nl, " ", nl + human(rng), nl + nl + human(rng) + nl, nl + human(rng, 30)])
    return pre + sep + START + old + END + suf


def gen_bench(rng, n=None, groups=None, solvers=None):
    out = []
    groups = groups or rng.sample(sorted(GROUPS) + ["extra-cases", "drag-free"], rng.choice([1, 1, 2]))
    seen = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        g = rng.choice(groups)
        name = rng.choice(sorted(CASES) + ["moon-transfer", "ceres-2032"])
        M = rng.choice([0, 0, 0, 1, 2])
        pro, low = rng.random() < 0.5, rng.random() < 0.5
        base_t = 10 ** rng.uniform(-6, -2.5)
        for s in rng.sample(solvers or SOLVERS, rng.choice([1, 2, 3, 5, 9])):
            if (g, name, M, pro, low, s) in seen:
                continue
            seen.add((g, name, M, pro, low, s))
            med = base_t * rng.uniform(1, 40)
            if rng.random() < 0.08:
                med = base_t
            if rng.random() < 0.01:
                med = 0.0
            out.append([g, name, M, pro, low, s, med, med * rng.uniform(1, 1.3), med * rng.uniform(0, 0.2), rng.randint(5, 90000)])
    rng.shuffle(out)
    return out


def gen_arts(rng, big=False):
    """What CI delivers: one artifact per benchmark group; sometimes odd ones."""
    arts = {}
    names = ["zero-rev-nominal.json", "zero-rev-general.json", "zero-rev-hyperbolic.json", "multi-rev-m1.json", "multi-rev-hard.json", "robust-zero-rev.json", "bench-10.json", "bench-2.json", "Bench.json", "zé.json"]
    commit = "%040x" % rng.getrandbits(160)
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    shared = rng.random() < 0.35  # several artifacts measure the same groups
    groups = rng.sample(sorted(GROUPS), 2)
    for nm in rng.sample(names, n):
        g = [nm[:-5]] if nm[:-5] in GROUPS and not shared else groups if shared else None
        doc = {"bench": gen_bench(rng, groups=g)}
        if rng.random() < 0.75:
            doc["commit"] = commit
        else:
            doc["commit"] = "%040x" % rng.getrandbits(160)
        if rng.random() < 0.4:
            doc["cpu"] = rng.choice(["Intel(R) Xeon(R) Platinum 8370C CPU @ 2.80GHz", "AMD EPYC 7763 64-Core Processor", "Virtual \\1 CPU \\g<0> \\x", "Ядро™ µ-arch"])
            doc["py"] = rng.choice(["3.12.13", "3.13.1"])
        if rng.random() < 0.25:
            doc["pad"] = rng.choice([400, 900, 3000])
        if rng.random() < 0.3:
            doc["ascii"] = False
        arts[nm] = doc
    if shared and n > 1 and rng.random() < 0.6:
        # a re-run delivers some measurements again, under another name
        a = rng.choice(sorted(arts))
        again = {**arts[a], "bench": [b[:6] + [b[6] * rng.uniform(0.7, 1.6), b[7], b[8], rng.randint(5, 90000)] + b[10:] for b in arts[a]["bench"]]}
        if rng.random() < 0.35:  # to the last digit
            again["bench"] = [list(b) for b in arts[a]["bench"]]
        arts["rerun.json"] = again
    if rng.random() < 0.06:
        a = arts[rng.choice(sorted(arts))]["bench"]
        a.insert(rng.randrange(len(a) + 1), list(rng.choice(a)))
    if rng.random() < 0.2:
        arts[rng.choice(["notes.txt", "old.json.bak", "upper.JSON"])] = {"raw": "not a report"}
    return arts


FIELDS = ["stats", "params", "group", "params.case", "params.solver", "params.case.name", "params.case.M", "params.case.is_prograde", "params.case.is_low_path", "stats.median",
          "stats.mean", "stats.iqr", "stats.rounds"]


def damage(rng, arts):
    """Make one artifact incomplete."""
    k = rng.choice(sorted(a for a in arts if a.endswith(".json")))
    text = W.artifact(arts[k]).decode()
    u = rng.random()
    if u < 0.45:
        cut = rng.choice([0, 1, 4096, 8192, rng.randrange(len(text)), len(text) - 1, rng.randrange(len(text))])
        raw = text[: min(cut, len(text) - 1)]
    elif u < 0.6:
        cut = rng.randrange(1, len(text))
        raw = text[:cut] + "\0" * (len(text) - cut)
    elif u < 0.7:
        raw = rng.choice(["null", "[]", "{}", '{"benchmarks": null}', "\n", '"x"'])
    elif u < 0.8:
        raw = text.replace("AMD", "A\udce9D", 1) if "AMD" in text else "\udcff" + text
    elif u < 0.9:
        doc = json.loads(json.dumps(arts[k]))
        if doc["bench"]:
            rng.choice(doc["bench"]).append(rng.choice(FIELDS))
            arts[k] = doc
            return k
        raw = ""
    else:
        arts[k] = {"dir": 1}
        return k
    arts[k] = {"raw": raw}
    return k


def sound(doc):
    """Is this delivered file a complete artifact?"""
    return "bench" in doc and all(len(b) == 10 for b in doc["bench"])


def counts(name):
    return name.endswith(".json") and "/" not in name


def healthy(arts, readme):
    rel = {k: d for k, d in arts.items() if counts(k)}
    return readme is not None and bool(rel) and all(d is not None and sound(d) for d in rel.values()) and not re.search("[\udc80-\udcff]", readme)


# -- an independent reading of what is published ----------------------------------

def parse(md):
    """Rows of a published section: (group, scenario, cells)."""
    group = scenario = None
    rows = []
    for line in md.splitlines():
        if line.startswith("### "):
            group, scenario = line[4:].strip(), None
        elif line.startswith("#### "):
            scenario = line[5:].strip()
        elif line.startswith("|"):
            cells = [c.strip() for c in line.strip().strip("|").split("|")]
            if cells and re.fullmatch(r"-?\d+", cells[0]):
                rows.append((group, scenario, cells))
    return rows


def expected(docs):
    """Every measurement with its rank set and speed-up, from first principles."""
    ms = []
    for d in docs:
        for g, name, M, pro, low, s, med, mean, iqr, rounds in (b[:10] for b in d["bench"]):
            ms.append({"g": g, "case": (name, M, pro, low), "s": s, "med": med, "mean": mean, "iqr": iqr, "rounds": rounds})
    for m in ms:
        peers = [x["med"] for x in ms if x["g"] == m["g"] and x["case"] == m["case"]]
        m["lo"] = 1 + sum(x < m["med"] for x in peers)
        m["hi"] = sum(x <= m["med"] for x in peers)
        m["speed"] = max(peers) / m["med"] if m["med"] > 0 else 1.0
        m["n"] = len(peers)
    return ms


def title(s, table):
    return table.get(s, s.replace("-", " ").title())


def compare(rows, docs):
    """Differences between published rows and the artifacts; [] when exact."""
    want = {}
    for m in expected(docs):
        name, M, pro, low = m["case"]
        k = (title(m["g"], GROUPS), title(name, CASES), m["s"], str(M), "Yes" if pro else "No", "low" if low else "high", str(m["rounds"]))
        want.setdefault(k, []).append(m)
    got = {}
    bad = []
    for g, sc, c in rows:
        if len(c) != 10:
            bad.append(f"row with {len(c)} cells: {c}")
            continue
        k = (g, sc, c[1].strip("`"), c[2], c[3], c[4], c[9])
        got.setdefault(k, []).append(c)
    for k in sorted(set(want) | set(got)):
        a, b = want.get(k, []), got.get(k, [])
        if len(a) != len(b):
            bad.append(f"{k}: measured {len(a)} times, published {len(b)} times")
            continue
        try:
            a = sorted(a, key=lambda m: (m["med"], m["mean"], m["iqr"]))
            b = sorted(b, key=lambda c: (float(c[5]), float(c[6]), float(c[7])))
            for m, c in zip(a, b):
                for v, t, what in ((m["med"], c[5], "median"), (m["mean"], c[6], "mean"), (m["iqr"], c[7], "IQR")):
                    if abs(float(t) - v * 1e6) > 0.0501 + 1e-9 * v * 1e6:
                        bad.append(f"{k}: {what} {t}, measured {v * 1e6!r} µs")
                if not m["lo"] <= int(c[0]) <= m["hi"]:
                    bad.append(f"{k}: rank {c[0]}, should be {m['lo']}" + (f"..{m['hi']}" if m["hi"] > m["lo"] else ""))
                if abs(float(c[8].rstrip("x")) - m["speed"]) > 0.0501 + 1e-9 * m["speed"]:
                    bad.append(f"{k}: speed-up {c[8]}, should be {m['speed']:.3f}x")
        except ValueError as e:
            bad.append(f"{k}: unreadable row: {e}")
    # within one case every rank is used once
    ranks = {}
    for g, sc, c in rows:
        if len(c) == 10:
            ranks.setdefault((g, sc, c[2], c[3], c[4]), []).append(c[0])
    per = {}
    for m in expected(docs):
        name, M, pro, low = m["case"]
        per.setdefault((title(m["g"], GROUPS), title(name, CASES), str(M), "Yes" if pro else "No", "low" if low else "high"), {}).setdefault(m["case"], []).append(m)
    for k, cases in per.items():
        exp = sorted(r for ms in cases.values() for r in range(1, len(ms) + 1))
        have = sorted(int(x) for x in ranks.get(k, []) if re.fullmatch(r"\d+", x))
        if exp != have and not bad:
            bad.append(f"{k}: ranks {have}, should be {exp}")
    return bad


def split(b):
    """Content -> (before, section, after) around the first marker pair, or None."""
    s, e = START.encode(), END.encode()
    i = b.find(s)
    if i < 0:
        return None
    j = b.find(e, i)
    if j < 0:
        return None
    return b[:i], b[i : j + len(e)], b[j + len(e):]


def sel(rng):
    u = rng.random()
    if u < 0.3:
        return ["pos", rng.random()]
    if u < 0.75:
        return ["tail", rng.random()]
    return ["name", rng.random(), rng.random()]


def fault(rng):
    """One or more things going wrong in one process."""
    u = rng.random()
    if u < 0.62:
        return [{"sel": sel(rng), "kind": "errno", "e": rng.random()}]
    if u < 0.75:
        return [{"sel": sel(rng), "kind": "sticky", "e": rng.random()}]
    if u < 0.9:
        return [{"sel": ["name", rng.random(), rng.random()], "kind": "short", "e": rng.random()} for _ in range(rng.choice([1, 3]))] + [{"sel": sel(rng), "kind": "errno", "e": rng.random()}]
    return [{"sel": sel(rng), "kind": "errno", "e": rng.random()} for _ in range(2)]


def intr(rng):
    kind = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "MemoryError"])
    if rng.random() < 0.5:
        return {"kind": kind, "sel": sel(rng), "late": int(rng.random() < 0.5)}
    return {"kind": kind, "f": rng.random() if rng.random() < 0.5 else 1 - rng.random() * 0.08}


def env(rng):
    """Innocent differences between hosts."""
    p = {}
    if rng.random() < 0.5:
        p["order"] = rng.choice([1, 2, 3, 4, 5])
    if rng.random() < 0.4:
        p["chunk"] = rng.choice([1, 7, 100, 1000, 5000])
        p["chunk_seed"] = rng.randrange(1000)
        if p["chunk"] < 100:
            p["chunk"] = rng.choice([100, 333])
    if rng.random() < 0.3:
        p["pid"] = rng.choice([1, 77, 31000])
    if rng.random() < 0.25:
        p["clock"] = rng.choice(["coarse", "frozen"])
    if rng.random() < 0.25:
        p["enc"] = rng.choice(["cp1252", "iso8859-1", "ascii", "cp932"])
    return p


TZS = ["UTC", "UTC", "America/Los_Angeles", "Asia/Kolkata", "XYZ-14", "ABC+12", "Europe/Madrid"]


class ReportProp:
    components = {
        "real": ["scripts/generate_benchmark_report.py, executed unmodified from the working tree", "json, pathlib, re, argparse, tempfile, shutil"],
        "simulated": ["the file system: system calls, page cache, journal, power loss, disk errors, short reads and writes, listing order", "process scheduling, signals, kill -9", "time, time zone, process id, working directory, os.urandom"],
        "stub": ["CI and pytest-benchmark: artifacts are generated in its JSON format", "people editing the README"],
    }
    assumptions = [
        "sampled, not enumerated: a clean batch is evidence, not proof",
        "power loss keeps a prefix of the directory operations since the last sync, and independently for every file any prefix of its unsynced writes, the last one possibly torn (no ordering between data and directory changes, as POSIX allows)",
        "errors are returned only by system calls that document them; a failing medium that silently returns wrong bytes is not modelled",
    ]
    variant = "report"

    def prepare(self, seed, tier):
        pass

    def tasks(self, seed, tier):
        return []

    def boot(self):
        W.boot()

    def execute(self, spec):
        from . import universe as U

        st, res = U.in_fork(lambda: W.Runner(spec).run(), U.PATIENCE[0])
        if st == "error":
            raise RuntimeError("run failed in the harness:\n" + str(res))
        if st in ("timeout", "died") and U.PATIENCE[1]:
            st, res = U.in_fork(lambda: W.Runner(spec).run(), U.PATIENCE[1])
            if st == "error":
                raise RuntimeError(str(res))
        if st != "ok":
            return ("hang" if st == "timeout" else "crash"), {"rc": str(res)}
        return st, res

    def judge(self, spec, st, res):
        if st != "ok":
            return [{"cls": st, "text": f"the simulated host did not finish: {st} {res.get('rc')}"}]
        out = []
        for i, r in enumerate(res["records"]):
            if r["op"] == "run" and r["failure"]:
                out.append({"cls": r["failure"][0], "text": f"step {i}: {r['failure'][1]}"})
        out += self.check(spec, res)
        return out

    def undisturbed(self, st):
        return not (any(p.get("fault") or p.get("intr") for p in st["procs"]) or st.get("crash") or st.get("env") or st.get("free") is not None)

    def progress(self, spec, res):
        """A run that nothing disturbs, over complete artifacts, succeeds."""
        out = []
        arts = dict(spec.get("arts", {}))
        for i, (st, r) in enumerate(zip(spec["steps"], res["records"])):
            if st["op"] == "arts":
                arts.update(st["arts"])
            if st["op"] != "run":
                continue
            cur = r["before"].decode("utf-8", "surrogateescape") if r["before"] is not None else None
            if healthy({k: v for k, v in arts.items() if v is not None}, cur):
                for p, s in zip(r["procs"], r["shadows"]):
                    if s["exit"] != 0:
                        out.append({"cls": "no-success", "text": f"step {i}: an undisturbed run over complete artifacts fails: exit {s['exit']} {s['err'] or ''}"})
                if len(st["procs"]) == 1 and self.undisturbed(st) and r["procs"][0]["exit"] != 0 and r["shadows"][0]["exit"] == 0:
                    out.append({"cls": "no-success", "text": f"step {i}: a run that nothing disturbs fails: {r['procs'][0]['err']}"})
            for st2 in r["env"]:
                if st2["do"] == "delete":
                    arts.pop(st2["path"].rsplit("/", 1)[-1], None)
                elif st2["do"] == "add":
                    arts[st2["path"].rsplit("/", 1)[-1]] = st2["doc"]
                else:
                    arts[st2["path"].rsplit("/", 1)[-1]] = {"raw": ""}
        return out

    def nontrivial(self, spec, res):
        return bool(res["fired"]) or res["switches"] > 0

    # -- shrinking -----------------------------------------------------------------
    def shrinks(self, spec):
        steps = spec["steps"]
        runs = [i for i, s in enumerate(steps) if s["op"] == "run"]
        for i in range(len(steps)):
            if steps[i]["op"] != "run" or len(runs) > 1:
                yield {**spec, "steps": steps[:i] + steps[i + 1:]}

        def put(i, st):
            return {**spec, "steps": steps[:i] + [st] + steps[i + 1:]}

        for i in runs:
            st = steps[i]
            if len(st["procs"]) > 1:
                for n in range(len(st["procs"])):
                    q = {**st, "procs": st["procs"][:n] + st["procs"][n + 1:], "first": 0}
                    q["pre"] = [[a - (a > n), k, (t - (t > n)) if t is not None else None] for a, k, t in st.get("pre", ()) if a != n and t != n]
                    if st.get("crash"):
                        if st["crash"]["node"] == n:
                            q.pop("crash")
                        else:
                            q["crash"] = {**st["crash"], "node": st["crash"]["node"] - (st["crash"]["node"] > n)}
                    q["env"] = [{**e, "node": 0} for e in st.get("env", ())]
                    yield put(i, q)
            for k in ("crash", "free", "tz", "later", "first"):
                if st.get(k):
                    yield put(i, {a: b for a, b in st.items() if a != k})
            for k in ("pre", "env"):
                for j in range(len(st.get(k, ()))):
                    yield put(i, {**st, k: st[k][:j] + st[k][j + 1:]})
            for n, p in enumerate(st["procs"]):
                for k in list(p):
                    if k == "fault" and len(p[k]) > 1:
                        for j in range(len(p[k])):
                            yield put(i, {**st, "procs": st["procs"][:n] + [{**p, k: p[k][:j] + p[k][j + 1:]}] + st["procs"][n + 1:]})
                    gone = ("cwd", "argv") if k in ("cwd", "argv") else (k,)  # the paths are relative to the directory
                    yield put(i, {**st, "procs": st["procs"][:n] + [{a: b for a, b in p.items() if a not in gone}] + st["procs"][n + 1:]})
        for i, st in enumerate(steps):
            if st["op"] == "edit" and len(st["edits"]) > 1:
                for j in range(len(st["edits"])):
                    yield put(i, {**st, "edits": st["edits"][:j] + st["edits"][j + 1:]})
        arts = spec.get("arts", {})
        for k in arts:
            yield {**spec, "arts": {a: b for a, b in arts.items() if a != k}}
        for k, d in arts.items():
            if d and d.get("bench"):
                bs = d["bench"]
                size = len(bs) // 2
                while size >= 1:
                    for a in range(0, len(bs), size):
                        yield {**spec, "arts": {**arts, k: {**d, "bench": bs[:a] + bs[a + size:]}}}
                    size //= 2
                for f in ("pad", "cpu", "py", "ascii", "mtime"):
                    if f in d:
                        yield {**spec, "arts": {**arts, k: {x: y for x, y in d.items() if x != f}}}
        t = spec.get("readme")
        if t and len(t) > 1:
            size = len(t) // 2
            while size >= max(1, len(t) // 64):
                for a in range(0, len(t), size):
                    c = t[:a] + t[a + size:]
                    if t.count(START) == c.count(START) and t.count(END) == c.count(END):
                        yield {**spec, "readme": c}
                size //= 2
        for k in ("link", "mode"):
            if spec.get(k):
                yield {a: b for a, b in spec.items() if a != k}


def show(b):
    return "absent" if b is None else f"{len(b)} bytes ({base.sha(b.hex())[:8]})"


class C07(ReportProp):
    """The README is replaced atomically."""

    id = "C07"
    rule = "1-2 runs of the real script over generated artifacts and READMEs, each disturbed by kill -9 or power loss before a system call, an I/O error, a full disk, short or torn writes, or an asynchronous exception at a system call or bytecode; README content observed after every system call and after recovery. Non-trivial: a disturbance fired; distinct by fault placement and outcome."
    quick, thorough = 9000, 200000

    def gen(self, rng, i, tier):
        spec = {"seed": rng.randrange(1 << 30), "readme": gen_readme(rng), "arts": gen_arts(rng), "t0": rng.randrange(10**7)}
        if rng.random() < 0.15:
            spec["link"] = 1
        if rng.random() < 0.2:
            spec["mode"] = rng.choice([0o664, 0o600, 0o755])
        steps = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            p = env(rng) if rng.random() < 0.4 else {}
            st = {"op": "run", "procs": [p]}
            u = rng.random()
            if u < 0.32:
                st["crash"] = {"kind": "power", "node": 0, "sel": sel(rng)}
                st["loss"] = rng.randrange(1 << 30)
            elif u < 0.42:
                st["crash"] = {"kind": "kill", "node": 0, "sel": sel(rng)}
            elif u < 0.48:
                p["fault"] = [{"sel": ["name", rng.random(), rng.random()], "kind": "torn-kill", "e": rng.random()}]
                p.setdefault("chunk", 4000)
            elif u < 0.74:
                p["fault"] = fault(rng)
            elif u < 0.80:
                st["free"] = rng.choice([0, 1, 500, 4096, rng.randrange(9000)])
            elif u < 0.94:
                p["intr"] = intr(rng)
            else:
                st["later"] = rng.randrange(1, 1 << 30)
            steps.append(st)
            if rng.random() < 0.3:
                steps.append({"op": "tick", "s": rng.choice([60, 3600, 86400])})
        if rng.random() < 0.06:
            damage(rng, spec["arts"])
        spec["steps"] = steps
        return spec

    def check(self, spec, res):
        out = self.progress(spec, res)
        earlier = []
        for i, (st, r) in enumerate(zip(spec["steps"], res["records"])):
            if r["op"] != "run":
                continue
            s, p = r["shadows"][0], r["procs"][0]
            old = r["before"]
            earlier.append(old)
            new = s["readme"] if s["exit"] == 0 else old
            for c in s["transitions"]:
                if c not in (old, new):
                    out.append({"cls": "torn", "text": f"step {i}: while being updated without any fault, the README holds {show(c)}; before {show(old)}, complete new content {show(new)}"})
                    break
            for idx, k, c in r["transitions"]:
                if c not in (old, new):
                    out.append({"cls": "torn", "text": f"step {i}: after system call {k} the README holds {show(c)}; before {show(old)}, complete new content {show(new)} ({', '.join(p['fired']) or 'no fault'})"})
                    break
            # a machine that loses power may forget recent updates, each entirely
            if r["after"] not in (old, new) and not (r["power"] and r["after"] in earlier):
                out.append({"cls": "torn", "text": f"step {i}: finally the README holds {show(r['after'])}; before {show(old)}, complete new content {show(new)} ({', '.join(p['fired'])}{'; ' + r['power'] if r['power'] else ''})"})
                continue
            if p["exit"] == 0 and not r["power"] and r["after"] != new:
                out.append({"cls": "silent-failure", "text": f"step {i}: the run reports success but the README was not updated ({', '.join(p['fired'])})"})
            if p["exit"] == 0 and s["exit"] != 0:
                out.append({"cls": "silent-failure", "text": f"step {i}: the run reports success although it cannot succeed ({s['err']})"})
            if p["exit"] not in (0, "killed") and not r["power"] and r["after"] == new != old:
                at = max((k for _, k, _ in r["transitions"]), default=-1)
                if not any(k >= at for k in p["fired_at"]):
                    out.append({"cls": "failed-but-changed", "text": f"step {i}: the run failed ({p['err']}) but the README was changed ({', '.join(p['fired'])})"})
            if p["exit"] != "killed" and not r["power"] and r["new_files"] and not r["intr"] and not any(f.split(":")[-1] in ("unlink", "rmdir", "stat", "fstat", "opendir", "scandir", "readdir") for f in p["fired"]):
                out.append({"cls": "litter", "text": f"step {i}: the run left {r['new_files'][:3]} behind ({', '.join(p['fired']) or 'no fault'}; exit {p['exit']})"})
        return out

    def nontrivial(self, spec, res):
        return bool(res["fired"])


class C08(ReportProp):
    """Every measurement is published exactly once, or the run fails."""

    id = "C08"
    rule = "1-2 runs over generated artifacts: some torn, emptied, zero-filled or incomplete beforehand, some deleted, truncated, zeroed or delivered while the run is between two system calls, with I/O errors while listing, opening and reading, short reads and shuffled listings; the published tables are parsed and compared with an independent reading of the artifacts. Non-trivial: a fault fired, an artifact was damaged, or an artifact changed during the run; distinct by fault placement and outcome."
    quick, thorough = 9000, 200000

    def gen(self, rng, i, tier):
        spec = {"seed": rng.randrange(1 << 30), "readme": gen_readme(rng), "arts": gen_arts(rng), "t0": rng.randrange(10**7)}
        steps = []
        p = env(rng)
        st = {"op": "run", "procs": [p]}
        u = rng.random()
        names = sorted(a for a in spec["arts"] if counts(a))
        if u < 0.3:
            damage(rng, spec["arts"])
        elif u < 0.62:
            st["env"] = []
            for _ in range(rng.choice([1, 1, 2])):
                do = rng.choice(["delete", "truncate", "zero", "delete", "truncate", "add"])
                nm = names.pop(rng.randrange(len(names))) if names else None
                if nm is None and do != "add" or any(x["do"] == do == "add" for x in st["env"]):
                    continue
                e = {"node": 0, "sel": ["head", rng.random()], "do": do, "path": f"{HOME}/.benchmarks/{nm}", "f": rng.choice([0.0, rng.random(), 1.0])}
                if do == "add":
                    e["path"] = f"{HOME}/.benchmarks/late.json"
                    e["doc"] = {"bench": gen_bench(rng)}
                st["env"].append(e)
        elif u < 0.85:
            p["fault"] = [{"sel": ["head", rng.random()], "kind": rng.choice(["errno", "errno", "errno", "sticky", "short"]), "e": rng.random()} for _ in range(rng.choice([1, 1, 2]))]
        steps.append(st)
        if rng.random() < 0.35:
            steps.append({"op": "arts", "arts": {**gen_arts(rng), **({rng.choice(sorted(spec["arts"])): None} if rng.random() < 0.5 else {})}})
            steps.append({"op": "run", "procs": [env(rng)]})
        spec["steps"] = steps
        return spec

    def check(self, spec, res):
        out = self.progress(spec, res)
        arts = dict(spec.get("arts", {}))
        for i, (st, r) in enumerate(zip(spec["steps"], res["records"])):
            if st["op"] == "arts":
                arts.update(st["arts"])
                arts = {k: v for k, v in arts.items() if v is not None}
            if r["op"] != "run":
                continue
            now = dict(arts)
            for e in st.get("env", ()):
                nm = e["path"].rsplit("/", 1)[-1]
                if e["do"] == "add":
                    now[nm] = e["doc"]
            p = r["procs"][0]
            if p["exit"] == 0:
                sets = [sorted(n for n in names if n in now and counts(n)) for d, names in p["scans"] if d == HOME + "/.benchmarks"]
                if not sets:
                    sets = [sorted(n for n in now if counts(n))]
                best = None
                for names in sets:
                    docs = [now[n] for n in names]
                    if not docs or not all(sound(d) for d in docs):
                        bad = [f"a complete-looking report was published although {[n for n in names if not sound(now[n])] or 'no artifact'} is not a complete artifact"]
                    else:
                        sp = split(r["after"] or b"")
                        bad = compare(parse(sp[1].decode("utf-8", "replace")), docs) if sp else ["no section was published"]
                    if best is None or len(bad) < len(best):
                        best = bad
                if best:
                    out.append({"cls": "rows", "text": f"step {i}: {best[0]}" + (f" (and {len(best) - 1} more)" if len(best) > 1 else "") + f" ({', '.join(p['fired']) or 'no fault'})"})
            elif r["after"] != r["before"] and not any(k >= max((t[1] for t in r["transitions"]), default=0) for k in p["fired_at"]):
                out.append({"cls": "failed-but-changed", "text": f"step {i}: the run failed ({p['err']}) but the README was changed"})
            for e in r["env"]:
                nm = e["path"].rsplit("/", 1)[-1]
                if e["do"] == "delete":
                    arts.pop(nm, None)
                elif e["do"] == "add":
                    arts[nm] = e["doc"]
                elif nm in arts:
                    # how much of it is left depends on when it happened
                    arts[nm] = {"raw": ""}
        return out

    def nontrivial(self, spec, res):
        return bool(res["fired"]) or any(st.get("env") for st in spec["steps"]) or not all(d is None or sound(d) for k, d in spec["arts"].items() if counts(k))


class C09(ReportProp):
    """The report depends on its inputs only; overlapping runs do not mix."""

    id = "C09"
    rule = "either one run on a host with another listing order, time zone, hash seed, working directory, spelling of paths, chunking of I/O, process id, file times and locale encoding, compared byte for byte with the run on a reference host (another process and hash seed); or 2-4 overlapping runs preempted at 1-8 system calls, one of them sometimes killed or failing, whose final README must be one run's complete output. Non-trivial: an environment difference or a preemption took place; distinct by environment, schedule and outcome."
    quick, thorough = 9000, 200000
    helper = None

    def gen(self, rng, i, tier):
        spec = {"seed": rng.randrange(1 << 30), "readme": gen_readme(rng), "arts": gen_arts(rng), "t0": rng.randrange(10**7)}
        if rng.random() < 0.5:
            p = env(rng)
            spec["t0"] += rng.choice([0, 0, 86400 * rng.randrange(1, 300)])
            u = rng.random()
            if u < 0.3:
                p["cwd"] = rng.choice(["/srv/sim", "/", HOME + "/docs"])
                p["argv"] = ["x", "--benchmarks-dir", HOME + "/.benchmarks", "--readme", HOME + "/README.md"]
            elif u < 0.5:
                p["cwd"] = HOME + "/docs"
                p["argv"] = ["x", "--readme=../README.md", "--benchmarks-dir=../.benchmarks/"]
            elif u < 0.6:
                p["argv"] = ["x", "--readme", "./docs/../README.md"]
            order = sorted(spec["arts"])
            rng.shuffle(order)
            spec["arts"] = {k: {**spec["arts"][k], "mtime": rng.randrange(10**9, 2 * 10**9)} for k in order}
            spec["steps"] = [{"op": "run", "procs": [p], "tz": rng.choice(TZS)}]
            spec["style"] = "env"
            return spec
        spec["style"] = "overlap"
        n = rng.choice([2, 2, 2, 3, 4])
        procs = []
        for k in range(n):
            p = env(rng) if rng.random() < 0.5 else {}
            p.pop("pid", None)
            if k and rng.random() < 0.7:
                d = f"bench{k}"
                for nm, doc in gen_arts(rng).items():
                    spec["arts"][f"{d}/{nm}"] = doc
                p["argv"] = ["x", "--benchmarks-dir", d]
            if rng.random() < 0.4:
                p["dt"] = rng.choice([60, 120, 3600])
            procs.append(p)
        pre = [[rng.randrange(n), rng.choice([["tail", rng.random()], ["tail", rng.random()], ["pos", rng.random()]]), None] for _ in range(rng.choice([1, 2, 3, 5, 8]))]
        for x in pre:
            x[2] = rng.choice([m for m in range(n) if m != x[0]])
        st = {"op": "run", "procs": procs, "pre": pre, "first": rng.randrange(n)}
        u = rng.random()
        if u < 0.15:
            st["crash"] = {"kind": "kill", "node": rng.randrange(n), "sel": ["tail", rng.random()]}
        elif u < 0.3:
            procs[rng.randrange(n)]["fault"] = [{"sel": ["tail", rng.random()], "kind": "errno", "e": rng.random()}]
        elif u < 0.36:
            procs[rng.randrange(n)]["intr"] = intr(rng)
        spec["steps"] = [st]
        if rng.random() < 0.2:
            spec["steps"].append({"op": "run", "procs": [{}]})
        return spec

    def raw(self, spec):
        """The README this spec ends with (asked of the reference host)."""
        st, res = self.execute(spec)
        if st != "ok" or res["records"][-1]["procs"][0]["exit"] != 0:
            return None
        b = res["records"][-1]["after"]
        return base64.b64encode(b).decode() if b is not None else None

    def reference(self, spec):
        ref = {"seed": 1, "readme": spec.get("readme"), "t0": spec["t0"], "arts": {k: {a: b for a, b in (d or {}).items() if a != "mtime"} for k, d in sorted(spec["arts"].items())},
               "steps": [{"op": "run", "procs": [{}], "tz": "UTC"}]}
        if C09.helper is None:
            C09.helper = pool.fresh(self.id, 0, "quick", 424242)
        r = C09.helper.ask({"cmd": "raw", "spec": ref})
        if "error" in r:
            raise RuntimeError(r["error"])
        return base64.b64decode(r["raw"]) if r["raw"] is not None else None

    def check(self, spec, res):
        out = self.progress(spec, res)
        r = res["records"][0]
        st = spec["steps"][0]
        if spec.get("style") == "env":
            p = r["procs"][0]
            want = self.reference(spec)
            if p["exit"] == 0 and want is not None and r["after"] != want:
                out.append({"cls": "environment", "text": f"the README differs from the one the reference host publishes: {first_diff(want, r['after'])} (host: {json.dumps({k: v for k, v in st['procs'][0].items()})}, TZ={st.get('tz')}, file order {list(spec['arts'])})"})
            elif p["exit"] != 0 and want is not None and not p["fired"]:
                out.append({"cls": "environment", "text": f"the run fails with {p['err']}, while the reference host publishes a report (host: {json.dumps(st['procs'][0])}, TZ={st.get('tz')})"})
            return out
        outs = [s["readme"] for s in r["shadows"] if s["exit"] == 0]
        old = r["before"]
        for idx, k, c in r["transitions"]:
            if c != old and c not in outs:
                out.append({"cls": "mixed", "text": f"after system call {k} of run {idx} the README holds {show(c)}, which no run alone would publish ({[show(x) for x in outs]}; before {show(old)})"})
                break
        if r["after"] != old and r["after"] not in outs:
            out.append({"cls": "mixed", "text": f"after all overlapping runs the README holds {show(r['after'])}, which is no run's complete output ({[show(x) for x in outs]})"})
        done = [i for i, p in enumerate(r["procs"]) if p["exit"] == 0]
        if done and r["after"] == old and old not in outs:
            out.append({"cls": "lost", "text": f"runs {done} report success, but the README is unchanged"})
        if self.undisturbed(st) and not done and outs:
            out.append({"cls": "no-success", "text": f"all overlapping runs failed: {[p['err'] for p in r['procs']]}"})
        return out

    def nontrivial(self, spec, res):
        return res["switches"] > 0 or spec.get("style") == "env"


def first_diff(a, b):
    if a is None or b is None:
        return f"{show(a)} / {show(b)}"
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else b"(end)"
        y = lb[i] if i < len(lb) else b"(end)"
        if x != y:
            return f"line {i + 1}: {x[:120]!r} there, {y[:120]!r} here"
    return "no difference"


class C10(ReportProp):
    """Human text survives every history; exactly one, current section."""

    id = "C10"
    rule = "histories of 3-9 steps: runs (half of them killed, powered off, failing, interrupted or out of disk space), human edits outside the section (inserted, deleted, re-ended with CRLF, appended without newline), new or changed artifacts, time. After every run the README is split at the markers and each part compared with what it must be. Non-trivial: at least two runs and either a disturbance or an edit; distinct by history and outcomes."
    quick, thorough = 6000, 150000

    def gen(self, rng, i, tier):
        spec = {"seed": rng.randrange(1 << 30), "readme": gen_readme(rng), "arts": gen_arts(rng), "t0": rng.randrange(10**7)}
        if rng.random() < 0.03:
            spec["readme"] += "\udce9"
        if rng.random() < 0.15:
            spec["link"] = 1
        if rng.random() < 0.3:
            spec["mode"] = rng.choice([0o664, 0o600, 0o755])
        steps = []
        n = rng.choice([2, 3, 4, 6])
        for k in range(n):
            p = env(rng) if rng.random() < 0.3 else {}
            st = {"op": "run", "procs": [p], "canon": 1}
            u = rng.random()
            if u < 0.12:
                st["crash"] = {"kind": "power", "node": 0, "sel": sel(rng)}
                st["loss"] = rng.randrange(1 << 30)
            elif u < 0.22:
                st["crash"] = {"kind": "kill", "node": 0, "sel": sel(rng)}
            elif u < 0.38:
                p["fault"] = fault(rng)
            elif u < 0.43:
                st["free"] = rng.choice([0, 500, rng.randrange(9000)])
            elif u < 0.5:
                p["intr"] = intr(rng)
            if rng.random() < 0.1:
                st["tz"] = rng.choice(TZS)
            steps.append(st)
            v = rng.random()
            if v < 0.35:
                steps.append({"op": "edit", "edits": [self.edit(rng) for _ in range(rng.choice([1, 1, 2, 3]))]})
            elif v < 0.5:
                steps.append({"op": "arts", "arts": {**gen_arts(rng), **{rng.choice(sorted(spec["arts"])): None}} if rng.random() < 0.5 else gen_arts(rng)})
            elif v < 0.65:
                steps.append({"op": "tick", "s": rng.choice([1, 60, 86400])})
            elif v < 0.8:
                steps.append({"op": "run", "procs": [{}], "canon": 1})
        steps.append({"op": "run", "procs": [{}], "canon": 1})
        spec["steps"] = steps
        return spec

    def edit(self, rng):
        do = rng.choice(["insert", "insert", "append", "prepend", "delete", "crlf", "strip"])
        e = {"do": do, "side": rng.randrange(2), "at": rng.random()}
        if do in ("insert", "append", "prepend"):
            e["text"] = rng.choice(["", "\n", "\r\n"]) + rng.choice(NASTY) + rng.choice(["", "\n", "\r\n", "\n\n"])
        if do == "delete":
            e["n"] = rng.choice([1, 3, 20])
        return e

    def check(self, spec, res):
        out = self.progress(spec, res)
        last = None  # (content, now, artifacts version) of the last successful run
        version = 0
        mode = spec.get("mode", 0o644)
        kind = "l" if spec.get("link") else "f"
        earlier = []
        for i, (st, r) in enumerate(zip(spec["steps"], res["records"])):
            if r["op"] == "arts":
                version += 1
            if r["op"] != "run":
                continue
            p = r["procs"][0]
            old, new = r["before"], r["after"]
            if old is None:
                continue
            ok = p["exit"] == 0 and not r["power"]
            tag = f"step {i} ({'success' if ok else p['exit']}{'; ' + ', '.join(p['fired']) if p['fired'] else ''})"
            if new is None:
                out.append({"cls": "lost-text", "text": f"{tag}: the README is gone"})
                continue
            if r["mode"] != mode or r["link"] != kind:
                out.append({"cls": "file-kind", "text": f"{tag}: README is now {r['link']} with mode {r['mode']:o}, was {kind} with mode {mode:o}"})
            if r["power"] and new in earlier:
                last = None
                continue
            earlier.append(old)
            if new != old or ok:
                out += self.text(tag, old, new, r["canon"])
            if ok and last == (old, r["now"], version) and new != old:
                out.append({"cls": "not-idempotent", "text": f"{tag}: repeating a successful run with the same artifacts and clock changed the README: {first_diff(old, new)}"})
            if ok:
                last = (new, r["now"], version)
        return out

    def text(self, tag, old, new, canon):
        s, e = START.encode(), END.encode()
        b = split(new)
        if b is None or new.count(s) != 1 or new.count(e) != 1:
            return [{"cls": "sections", "text": f"{tag}: the README has {new.count(s)} start and {new.count(e)} end markers"}]
        a = split(old)
        out = []
        if a is not None:
            if b[0] != a[0]:
                out.append({"cls": "lost-text", "text": f"{tag}: text before the section changed: {first_diff(a[0], b[0])}"})
            if b[2] != a[2]:
                out.append({"cls": "lost-text", "text": f"{tag}: text after the section changed: {a[2][:60]!r} became {b[2][:60]!r}"})
        else:
            kept = _rstrip(old)
            glue = split(canon)[0][1:] if canon is not None and split(canon) else None
            if not b[0].startswith(kept):
                out.append({"cls": "lost-text", "text": f"{tag}: text before the appended section changed: {first_diff(kept, b[0][:len(kept)])}"})
            elif glue is not None and b[0][len(kept):].strip() != glue.strip():
                out.append({"cls": "lost-text", "text": f"{tag}: unexpected text {b[0][len(kept):][:80]!r} before the appended section"})
            if b[2].strip():
                out.append({"cls": "lost-text", "text": f"{tag}: text after the appended section: {b[2][:60]!r}"})
        if canon is not None and split(canon) and b[1].replace(b"\r\n", b"\n") != split(canon)[1].replace(b"\r\n", b"\n"):
            out.append({"cls": "stale-section", "text": f"{tag}: the section is not the one these artifacts yield: {first_diff(split(canon)[1], b[1])}"})
        return out

    def nontrivial(self, spec, res):
        runs = sum(r["op"] == "run" for r in res["records"])
        return runs >= 2 and (bool(res["fired"]) or any(s["op"] == "edit" for s in spec["steps"]))


def _rstrip(b):
    try:
        return b.decode("utf-8").rstrip().encode("utf-8")
    except UnicodeDecodeError:
        return b.rstrip()


PROPS = {p.id: p for p in (C07(), C08(), C09(), C10())}
