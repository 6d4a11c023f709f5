"""Properties of the solver API: generators of runs, and judges of their histories."""

import math

from . import base, ops, problems as P, universe as U


def _f(v):
    return [float.fromhex(x) for x in v[2]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def pick_loc(rng, r, flag=None):
    """A step of a call, chosen evenly over code locations, not over time.

    With a bias to functions that touch module-level mutable state, to what
    comes after such a function first ran, and to steps that hold a lock.
    """
    if not len(r.locs):
        return None
    if flag is not None:
        locs = r.having(flag)
    else:
        u = rng.random()
        if r.held and u < 0.5:
            a, b = rng.choice(r.held)
            return rng.randint(a, max(a, b))
        if u < 0.1:
            return rng.randint(1, r.n)
        locs = r.locs
        hot = r.having(4)
        if len(hot):
            if u < 0.35:
                locs = hot
            elif u < 0.65:
                # the state has been touched and is perhaps still in use
                t = int(hot[:, 0].min())
                locs = r.locs[r.locs[:, 1] > t]
                if len(locs):
                    a, b, n, _ = (int(x) for x in locs[rng.randrange(len(locs))])
                    return max(a, t + 1) if rng.random() < 0.5 else b if n == 1 else rng.randint(max(a, t + 1), b)
                locs = r.locs
    if not len(locs):
        return None
    a, b, n, fl = (int(x) for x in locs[rng.randrange(len(locs))])
    u = rng.random()
    if n == 1 or u < 0.5:
        return a
    if u < 0.65 or flag is not None:
        return b
    return rng.randint(a, b)


class Catalogue:
    """Per seed: K base calls per solver, each with J neighbours, with references.

    Entry (solver, k, j) is a pure function of (seed, variant, solver, k, j) and
    the code; computing it early or late, here or in another worker, is the same.
    """

    K, J = 12, 10

    def __init__(self, seed, variant, tier):
        self.seed, self.variant = seed, variant
        self.entries = {}
        self.indexes = {}
        if tier == "thorough":
            self.K = 48

    def solvers(self):
        if self.variant == "svc":
            return ["der2011", "thorne2004", "arora2013"]
        return ops.SOLVERS + ["utils"] if self.variant == "gen" else ops.SOLVERS

    def pick(self, rng):
        """A solver for a run; now and then the public helper functions."""
        if self.variant == "gen" and rng.random() < 0.04:
            return "utils"
        return P.pick_solver(rng)

    def size(self, s):
        """Fewer base calls for the instruction-hungry solvers."""
        return max(3, int(self.K * {"pan2016": 0.5, "negrete2024": 0.4, "gauss1809": 0.5, "utils": 3.25}.get(s, 1.0)))

    def tasks(self):
        t = [(s, k) for s in self.solvers() for k in range(self.size(s))]
        return sorted(t, key=lambda x: (-{"pan2016": 3, "negrete2024": 2, "gauss1809": 2}.get(x[0], 1), x))

    def get(self, s, k, j):
        e = self.entries.get((s, k, j))
        if e is None:
            e = self.entries[(s, k, j)] = self.make(s, k, j)
        return e

    def index(self, s):
        if s not in self.indexes:
            d = self.indexes[s] = {}
            for k in range(self.size(s)) if s in self.solvers() else ():
                for j in range(self.J + 1):
                    d.setdefault(base.canon(self.get(s, k, j)), k)
        return self.indexes[s]

    def make(self, s, k, j):
        rng = base.rng_for(self.seed, "catalogue", self.variant, s, k, j)
        parent = self.get(s, k, 0) if j else None
        for t in range(40):
            if j == 0:
                o = self.fresh(rng, s, k)
            elif j >= self.J - 1:
                o = P.bad_op(rng, None, s)
            else:
                o = P.neighbour(rng, parent, (None, "flags", "budget", "tolerance", "argument", "revolutions", "symmetry", "kind", None)[j])
            if o["k"].get("full_output") and self.variant == "gen":
                o["clk"] = clock_for(rng)
            r = U.ref(o)
            if r is None or (r.n > 20_000 and t < 2 and rng.random() > 30_000 / r.n):
                continue
            if j == 0 and r.out[0] != "ok" and rng.random() < 0.9:
                continue
            if self.variant == "svc" and j == 0 and not r.svc:
                continue
            return o
        return parent or P.make_op(rng, None, "gooding1990")

    def fresh(self, rng, s, k=None):
        if s == "utils":
            return P.util_op(rng, None if k is None else list(ops.UTILS)[k % len(ops.UTILS)])
        if s == "pan2016" and k is not None:
            # few base calls: make them different ones
            if k < 2:
                mu, a, b, t = P.BOOK[k]
                return P.make_op(rng, {"mu": mu, "r1": list(a), "r2": list(b), "tof": t, "M": 0}, s, full=self.variant == "full" or None)
            p = P.problem(rng)
            while any(p["r1"] == x[1] for x in P.BOOK[:2]):
                p = P.problem(rng)
            return P.make_op(rng, p, s, full=self.variant == "full" or None)
        c = None if k is None or self.variant != "gen" or s in ("gauss1809", "pan2016") else k % 6
        if c == 1 and s not in P.MULTIREV:
            c = None
        if c in (1, 2, 3, 4):
            # every solver several times in each of its regimes
            p = P.problem_for(rng, s)
            o = P.make_op(rng, p, s)
            pro = o["k"].get("is_prograde", True)
            tp, sp = P.parabolic_tof(p["mu"], p["r1"], p["r2"], pro)
            o["k"].pop("M", None)
            if c == 1:
                o["k"]["M"] = M = rng.choice([1, 1, 2])
                o["tof"] = 2 * math.pi * math.sqrt((sp / 2) ** 3 / p["mu"]) * (M + rng.uniform(0.05, 1.8))
            elif c == 2:
                o["tof"] = tp * rng.uniform(0.15, 0.9)  # hyperbolic
            elif c == 3:
                o["tof"] = tp * (1 + rng.choice([0.0, 1e-10, 1e-4, 1e-2]) * rng.choice([-1, 1]))  # about parabolic
            else:
                o["tof"] = tp * math.exp(rng.uniform(0.7, 3.5))
            return o
        if self.variant == "full":
            return P.make_op(rng, None, s, full=rng.random() < 0.92)
        if self.variant == "svc":
            p = P.problem_for(rng, s)
            o = P.make_op(rng, p, s)
            if s in ("arora2013", "der2011") and rng.random() < 0.6 and not o["k"].get("M"):
                # multi-revolution: the services look for the minimum first
                tp, sp = P.parabolic_tof(p["mu"], p["r1"], p["r2"])
                M = rng.choice([1, 1, 2])
                o["k"]["M"] = M
                o["tof"] = 2 * math.pi * math.sqrt((sp / 2) ** 3 / p["mu"]) * (M + rng.uniform(0.05, 1.8))
            return o
        return P.make_op(rng, None, s)


class SolverProp:
    id = None
    budget = 30_000  # instructions per run, on average
    components = {
        "real": ["all 14 solvers and their helpers, interpreted (NUMBA_DISABLE_JIT=1, the project's CI mode)", "numpy", "scipy.optimize unless a fault is injected"],
        "simulated": ["thread scheduling (one real thread released at a time)", "threading locks, thread start, SimpleQueue", "time.* and datetime.now", "delivery of asynchronous exceptions", "scipy.optimize / numpy.linalg failures"],
        "stub": [],
    }
    assumptions = [
        "compiled (numba) execution is not simulated: native code cannot be interleaved or interrupted at chosen points; the same source is run interpreted",
        "sampled, not enumerated: a clean batch is evidence, not proof",
        "a call that needs more than 800,000 instructions is left out of the workload",
    ]

    variant = "gen"
    cat = None

    def prepare(self, seed, tier):
        self.cat = Catalogue(seed, self.variant, tier)

    def tasks(self, seed, tier):
        return Catalogue(seed, self.variant, tier).tasks()

    def warm(self, s, k):
        """Compute one base call, its neighbours and their references."""
        for j in range(self.cat.J + 1):
            self.cat.get(s, k, j)

    def dump(self, path):
        import pickle

        with open(path, "wb") as f:
            pickle.dump((self.cat.entries, U.REFS), f, protocol=5)

    def load(self, paths):
        import pickle

        for p in paths:
            with open(p, "rb") as f:
                e, r = pickle.load(f)
            self.cat.entries.update(e)
            U.REFS.update(r)
        U.LOCAL.clear()

    def base_op(self, rng, solver=None):
        """A call with a known reference; now and then one never seen before."""
        s = solver or self.cat.pick(rng)
        if s not in self.cat.solvers() or rng.random() < 0.08:
            for _ in range(20):
                o = self.cat.fresh(rng, s)
                r = U.ref(o)
                if r is not None and r.n < 20_000:
                    return o
        return P.clone(self.cat.get(s, rng.randrange(self.cat.size(s)), 0))

    def near_op(self, rng, op=None, solver=None):
        """A neighbour of a call (of `op` itself when that is a base entry)."""
        if op is not None and rng.random() < 0.12:
            for _ in range(20):
                o = P.neighbour(rng, op)
                r = U.ref(o)
                if r is not None and r.n < 20_000:
                    return o
        s, k = self.find(op) if op is not None else (None, None)
        if s is None:
            s, k = solver or self.cat.pick(rng), rng.randrange(self.cat.size(s))
            if s not in self.cat.solvers():
                s = rng.choice(self.cat.solvers())
        return P.clone(self.cat.get(s, k, rng.randrange(self.cat.J - 1)))

    def find(self, op):
        """The entry an op is; the first one, whatever was computed first."""
        index = self.cat.index(op["s"])
        n = index.get(base.canon(op))
        return (op["s"], n) if n is not None else (None, None)

    def like(self, rng, op):
        """Another problem for the same solver, asked in the same way."""
        for _ in range(6):
            o = self.base_op(rng, op["s"])
            if op["s"] == "utils" or o["s"] != op["s"]:
                break
            for f in ("M", "is_prograde", "is_low_path", "full_output"):
                o["k"].pop(f, None)
                if f in op["k"]:
                    o["k"][f] = op["k"][f]
            r = U.ref(o)
            if r is not None and r.n < 20_000 and r.out[0] == "ok":
                return o
        return self.near_op(rng, op)

    def bad_op(self, rng, solver=None):
        s = solver if solver in self.cat.solvers() else rng.choice(self.cat.solvers())
        return P.clone(self.cat.get(s, rng.randrange(self.cat.size(s)), rng.choice([self.cat.J - 1, self.cat.J])))

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, spec):
        """-> (status, result); status ok | hang | crash."""
        st, res = U.execute(spec, U.PATIENCE[0])
        if st == "error":
            raise RuntimeError("run failed in the harness:\n" + str(res))
        if st in ("timeout", "died") and U.PATIENCE[1]:
            st2, res2 = U.execute(spec, U.PATIENCE[1])
            if st2 == "error":
                raise RuntimeError(str(res2))
            if st2 == "ok":
                return "ok", res2
            st, res = st2, res2
        if st != "ok":
            return ("hang" if st == "timeout" else "crash"), {"rc": res}
        return "ok", res

    # anomalies this property is about, as opposed to the others'
    kinds = ()

    def judge(self, spec, st, res):
        out = []
        if st != "ok":
            out.append({"cls": st, "text": f"the simulated process did not finish: {st} {res.get('rc')}"})
            return out
        if res["failure"]:
            out.append({"cls": res["failure"][0], "text": res["failure"][1]})
        for a in res["anom"]:
            if a["kind"] in self.kinds:
                out.append({"cls": a["kind"], "text": f"op {a['node']}.{a['op']}: {a['text']}"})
        return out

    def describe(self, o):
        return f"{o['s']}({', '.join(f'{k}={v}' for k, v in o.get('k', {}).items())})"

    def mismatches(self, spec, res, skip=lambda rec: False):
        """Calls whose outcome is not the one of a solo first call."""
        out = []
        rows = U.resolve(spec)
        for (n, i), rec in sorted(res["records"].items()):
            if skip(rec):
                continue
            o = rows[n][i]
            r = U.ref(o)
            if r is None:
                continue
            if rec["out"] != r.out:
                out.append({"cls": "outcome", "text": f"op {n}.{i} {self.describe(o)} returned {short(rec['out'])}; alone in a fresh process it returns {short(r.out)}"})
        for n, i, s, o, got in res["nested"]:
            r = U.ref(o)
            if r is not None and got != r.out:
                out.append({"cls": "outcome", "text": f"nested call {self.describe(o)} inside op {n}.{i} returned {short(got)}; alone it returns {short(r.out)}"})
        return out

    # -- shrinking ------------------------------------------------------------
    def shrinks(self, spec):
        """Smaller specs, most drastic first."""
        stops = spec.get("stops", [])
        nodes = spec["nodes"]
        if len(nodes) > 1:
            for n in range(len(nodes)):
                yield drop_node(spec, n)
        for n, items in enumerate(nodes):
            m = len(items)
            size = m // 2
            while size >= 1:
                for a in range(0, m, size):
                    if m - min(size, m - a) >= 1 or len(nodes) > 1:
                        yield drop_items(spec, n, a, min(a + size, m))
                size //= 2
        for j in range(len(stops)):
            yield {**spec, "stops": stops[:j] + stops[j + 1:]}
        for n, items in enumerate(nodes):
            for i, it in enumerate(items):
                if it.get("c") == "fork":
                    for sub in self.shrinks(it["spec"]):
                        yield edit(spec, n, i, {**it, "spec": sub})
        for j, x in enumerate(stops):
            if x[3] == "fork":
                for sub in self.shrinks(x[4]):
                    yield {**spec, "stops": stops[:j] + [x[:4] + [sub]] + stops[j + 1:]}
        if spec.get("quantum"):
            yield {**spec, "quantum": 0}
        for kk in ("prange", "rng", "first", "observe", "init"):
            if spec.get(kk):
                yield {k: v for k, v in spec.items() if k != kk}
        for n, items in enumerate(nodes):
            for i, it in enumerate(items):
                if it.get("c") == "burst":
                    lo, hi = it["range"]
                    w = hi - lo
                    while w > 1:
                        w //= 2
                        for rg in ([lo, lo + w], [hi - w, hi]):
                            yield edit(spec, n, i, {**it, "range": rg})
                    if len(it["ops"]) > 1:
                        for j in range(len(it["ops"])):
                            yield edit(spec, n, i, {**it, "ops": it["ops"][:j] + it["ops"][j + 1:]})
                if "s" not in it:
                    continue
                for kk in list(it.get("k", {})):
                    yield edit(spec, n, i, {**it, "k": {a: b for a, b in it["k"].items() if a != kk}})
                if it.get("clk"):
                    yield edit(spec, n, i, {k: v for k, v in it.items() if k != "clk"})
                for f in ("r1", "r2"):
                    if "p" in it[f]:
                        lit = {**spec["pool"][it[f]["p"]]}
                        yield edit(spec, n, i, {**it, f: lit})
                    elif it[f].get("l", "c") != "c":
                        yield edit(spec, n, i, {**it, f: {**it[f], "l": "c"}})
        for j, s in enumerate(stops):
            if s[2] > 1:
                for t in (1, s[2] // 2, s[2] - 1):
                    yield {**spec, "stops": stops[:j] + [[s[0], s[1], t, s[3], s[4]]] + stops[j + 1:]}


def short(out):
    if out[0] == "exc":
        return f"{out[1].split('.')[-1]}({out[2][:80]!r})"
    v = out[1]
    if isinstance(v, str):
        return v
    try:
        parts = [[float(f"{float.fromhex(x):.17g}") for x in a[2]] if isinstance(a, list) and len(a) == 3 else (float.fromhex(a) if isinstance(a, str) and "0x" in a else a) for a in v]
        return str(parts)
    except Exception:
        return str(out)[:200]


def edit(spec, n, i, item):
    nodes = [list(x) for x in spec["nodes"]]
    nodes[n][i] = item
    return {**spec, "nodes": nodes}


def drop_items(spec, n, a, b):
    nodes = [list(x) for x in spec["nodes"]]
    del nodes[n][a:b]
    w = b - a

    def mv(i):
        return i if i < a else i - w

    stops = [[s[0], mv(s[1]) if s[0] == n else s[1], s[2], s[3], s[4]] for s in spec.get("stops", []) if not (s[0] == n and a <= s[1] < b)]
    svc = {}
    for k, v in spec.get("svc", {}).items():
        x, y = map(int, k.split(","))
        if x == n and a <= y < b:
            continue
        svc[f"{x},{mv(y) if x == n else y}"] = v
    return {**spec, "nodes": nodes, "stops": stops, "svc": svc}


def drop_node(spec, n):
    nodes = [x for j, x in enumerate(spec["nodes"]) if j != n]
    stops = []
    for s in spec.get("stops", []):
        if s[0] == n:
            continue
        arg = s[4]
        if s[3] == "pre" and isinstance(arg, int) and arg >= 0:
            if arg == n:
                continue
            arg = arg - (arg > n)
        stops.append([s[0] - (s[0] > n), s[1], s[2], s[3], arg])
    svc = {}
    for k, v in spec.get("svc", {}).items():
        x, y = map(int, k.split(","))
        if x != n:
            svc[f"{x - (x > n)},{y}"] = v
    return {**spec, "nodes": nodes, "stops": stops, "svc": svc, "first": 0}


def share_arrays(rng, nodes):
    """Callers that hand the very same array objects to several calls."""
    pool = {}
    names = {}
    out = []
    for items in nodes:
        row = []
        for it in items:
            if "s" in it:
                it = dict(it)
                for f in ("r1", "r2"):
                    k = base.canon(it[f])
                    if it[f].get("l") in ("list", "tuple"):
                        continue
                    if k not in names:
                        names[k] = f"a{len(names)}"
                        pool[names[k]] = it[f]
                    it[f] = {"p": names[k]}
            row.append(it)
        out.append(row)
    return out, pool


def clock_for(rng):
    return {"seed": rng.randrange(1000), "mode": rng.choice(["fine", "fine", "fine", "coarse", "stall"])}


class C01(SolverProp):
    """Concurrent and re-entrant calls do not interfere."""

    id = "C01"
    rule = '2-4 threads each make 1-2 solver calls (65% the same solver; neighbours differing in one argument; in 22% all threads ask one solver in the same way, revolutions and flags, about different problems); 1-6 preemptions at instructions chosen evenly over distinct code locations with a bias to functions touching module-level mutable state, or round-robin with a small quantum, or whole nested calls at an instruction. Every outcome is compared bit for bit with the same call made first in a fresh fork. Non-trivial: at least one preemption or nested call took place inside a call; distinct by calls and schedule.'
    kinds = ("result-changed", "alias", "input-mutated")
    quick, thorough = 7000, 80000

    def gen(self, rng, i, tier):
        nn = rng.choice([2, 2, 2, 2, 3, 3, 4])
        same = rng.random() < 0.65
        solver = self.cat.pick(rng)
        seedop = self.base_op(rng, solver)
        ops_ = [seedop]
        alike = rng.random() < 0.22

        def mk():
            u = rng.random()
            if alike:
                return self.like(rng, seedop)
            if u < 0.35:
                return self.near_op(rng, rng.choice(ops_))
            if u < 0.43:
                return self.bad_op(rng, solver if same else None)
            if u < 0.5:
                return P.clone(rng.choice(ops_))
            return self.base_op(rng, solver if same else None)

        nodes = []
        for n in range(nn):
            row = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                if n == 0 and not row:
                    o = seedop
                else:
                    o = mk()
                    ops_.append(o)
                row.append(P.clone(o))
            nodes.append(row)
        stops = []
        spec = {"gran": "op", "rng": rng.randrange(1 << 30), "first": rng.randrange(nn)}
        style = rng.random()
        if style < 0.15:
            spec["quantum"] = rng.choice([1, 2, 3, 5, 11, 29, 83, 211, 557])
        elif style < 0.4:
            # re-entrant: a handler or finaliser runs a whole solve in the middle
            for _ in range(rng.choice([1, 2, 3, 5])):
                n = rng.randrange(nn)
                it = rng.randrange(len(nodes[n]))
                u = rng.random()
                # the same code path again, from within, or something else
                o = P.clone(nodes[n][it]) if u < 0.35 else self.near_op(rng, nodes[n][it]) if u < 0.55 else mk()
                s = pick_loc(rng, U.ref(nodes[n][it]))
                if s:
                    stops.append([n, it, s, "nest", o])
        if style >= 0.2 and not spec.get("quantum"):
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
                n = rng.randrange(nn)
                it = rng.randrange(len(nodes[n]))
                s = pick_loc(rng, U.ref(nodes[n][it]))
                if s:
                    stops.append([n, it, s, "pre", rng.choice([m for m in range(nn) if m != n])])
            # let the others be cut short too, so that windows overlap
            if rng.random() < 0.5:
                for n in range(nn):
                    s = pick_loc(rng, U.ref(nodes[n][0]))
                    if s:
                        stops.append([n, 0, s, "pre", -1])
        if rng.random() < 0.4:
            nodes, spec["pool"] = share_arrays(rng, nodes)
        if rng.random() < 0.3:
            spec["prange"] = rng.randrange(1, 1 << 20)
        spec["nodes"], spec["stops"] = nodes, stops
        spec["cap"] = 200_000 + 8 * sum(U.ref(o).n for o in U.all_ops(spec) if U.ref(o))
        return spec

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st == "ok":
            out += self.mismatches(spec, res)
        return out

    def nontrivial(self, spec, res):
        return res["fired"].get("preemption", 0) + res["fired"].get("nested-call", 0) > 0


class C02(SolverProp):
    """What a call does depends on its arguments alone, whatever came before."""

    id = "C02"
    rule = 'a history of 3-24 calls (repeats, one-argument neighbours, failing calls, bursts of up to 1100 calls; 25% one solver in one regime: early calls, then runs of 1-34 failing or 9-1100 ever different calls, then the early ones again), some buffers refilled in place, results overwritten, RNGs reseeded, gc; on 1-3 threads in turn. Every outcome is compared bit for bit with the same call made first in a fresh fork. Non-trivial: at least two judged calls; distinct by history.'
    kinds = ("result-changed", "alias", "input-mutated")
    quick, thorough = 2400, 40000

    def regime(self, rng, tier):
        """One solver in one regime: long runs of like calls, then an early one again."""
        s = rng.choice(P.MULTIREV) if rng.random() < 0.6 else self.cat.pick(rng)
        o = self.base_op(rng, s)
        for _ in range(8):
            if s not in P.MULTIREV or o["k"].get("M"):
                break
            o = self.base_op(rng, s)
        like = [o]
        for _ in range(rng.choice([0, 1, 2])):
            like.append(self.near_op(rng, o) if rng.random() < 0.7 else self.base_op(rng, s))
        bad = []
        for _ in range(rng.choice([1, 2])):
            b = P.clone(o)
            if s in P.MULTIREV and rng.random() < 0.6:
                b["k"]["M"] = max(1, o["k"].get("M", 0)) + rng.choice([0, 1, 6])
                b["tof"] *= rng.choice([1e-2, 0.1, 0.5])
            else:
                b = self.bad_op(rng, s)
            if U.ref(b) is not None and U.ref(b).out[0] == "exc":
                bad.append(b)
        row = [P.clone(x) for x in like]
        for _ in range(rng.choice([1, 1, 2])):
            u = rng.random()
            if u < 0.45 or not bad:
                k = rng.choice([9, 18, 27, 40, 70, 140] + ([270, 520, 1100] if U.ref(o).n < 5000 else []))
                b = {"c": "burst", "ops": [P.clone(o)], "range": [1, k]}
                if rng.random() < 0.9:
                    b["drift"] = rng.choice([1e-9, 1e-6, 1e-4])
                    b["of"] = rng.choice(["tof", "mu", "r", "r", "atol", "rtol"])
                row.append(b)
            else:
                k = rng.choice([1, 2, 3, 4, 6, 8, 12, 20, 34])
                many = rng.choice(bad) if rng.random() < 0.7 else None
                row += [P.clone(many or rng.choice(bad)) for _ in range(min(k, 4))]
                if k > 4:
                    row.append({"c": "burst", "ops": [P.clone(many or x) for x in bad], "range": [0, k - 4]})
            row += [P.clone(x) for x in like]
        return [row]

    def gen(self, rng, i, tier):
        if rng.random() < 0.25:
            return {"gran": "none", "rng": rng.randrange(1 << 30), "nodes": self.regime(rng, tier)}
        solver = self.cat.pick(rng) if rng.random() < 0.75 else None
        base_ops = [self.base_op(rng, solver) for _ in range(rng.choice([1, 2, 3]))]
        alphabet = list(base_ops)
        for _ in range(rng.choice([2, 4, 6])):
            u = rng.random()
            if u < 0.62:
                alphabet.append(self.near_op(rng, rng.choice(base_ops)))
            elif u < 0.78:
                alphabet.append(self.bad_op(rng, solver))
            else:
                alphabet.append(self.base_op(rng, solver))
        for o in base_ops:
            s, k = self.find(o)
            if s is not None and s != "utils":
                alphabet.append(P.clone(self.cat.get(s, k, 2)))  # too few iterations
        failing = [o for o in alphabet if U.ref(o).out[0] == "exc"]
        nn = rng.choice([1, 1, 1, 2, 3])
        nodes = []
        for n in range(nn):
            row = []
            length = rng.choice([3, 5, 8, 14, 24])
            style = rng.random()
            for j in range(length):
                u = rng.random()
                o = P.clone(rng.choice(alphabet if u < 0.7 else base_ops))
                if style < 0.3 and j and u < 0.5 and "s" in row[-1]:
                    o = P.clone(row[-1])  # repeats: counters, warm starts, hit paths
                elif 0.3 <= style < 0.6:
                    # every good call right after one that failed
                    o = P.clone(rng.choice((failing if j % 2 == 0 and failing else base_ops)))
                row.append(o)
                v = rng.random()
                if v < 0.05:
                    row.append({"c": "seed", "v": rng.randrange(1000)})
                elif v < 0.10:
                    row.append({"c": "drop"})
                elif v < 0.14:
                    row.append({"c": "scribble"})
                elif v < 0.26 and nn > 1:
                    row.append({"c": "yield"})
            if rng.random() < 0.14:
                k = rng.choice([12, 40, 70, 140, 270, 520] + ([1100, 2200, 4500] if tier == "thorough" else [1100]))
                bops = [o for o in alphabet if U.ref(o).n < 9000] or None
                if bops:
                    if rng.random() < 0.4:
                        bops = [rng.choice(bops)]
                    fails = [o for o in bops if U.ref(o).out[0] == "exc"]
                    if fails and rng.random() < 0.4:
                        bops = fails
                    b = {"c": "burst", "ops": [P.clone(o) for o in bops], "range": [0, k]}
                    if rng.random() < 0.6:
                        b["drift"] = rng.choice([1e-13, 1e-9, 1e-6, 1e-4])
                    row.insert(rng.randrange(len(row)), b)
            nodes.append(row)
        spec = {"gran": "none", "rng": rng.randrange(1 << 30), "nodes": nodes}
        if rng.random() < 0.35 and nn == 1:
            self.reuse(rng, spec)
        elif rng.random() < 0.3:
            spec["nodes"], spec["pool"] = share_arrays(rng, nodes)
        return spec

    def reuse(self, rng, spec):
        """One pair of buffers, refilled in place before every call."""
        row = []
        cur = None
        pool = {}
        for it in spec["nodes"][0]:
            if "s" in it and len(it["r1"]["d"]) == 3 and len(it["r2"]["d"]) == 3:
                if not pool:
                    pool = {"a": {"d": list(it["r1"]["d"])}, "b": {"d": list(it["r2"]["d"])}}
                    cur = [it["r1"]["d"], it["r2"]["d"]]
                for nm, f, c in (("a", "r1", 0), ("b", "r2", 1)):
                    if cur[c] != it[f]["d"]:
                        row.append({"c": "poke", "a": nm, "d": list(it[f]["d"])})
                        cur[c] = it[f]["d"]
                it = dict(it)
                it["r1"], it["r2"] = {"p": "a"}, {"p": "b"}
            row.append(it)
        spec["pool"] = pool
        spec["nodes"] = [row]

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st == "ok":
            out += self.mismatches(spec, res)
        return out

    def nontrivial(self, spec, res):
        return len(res["records"]) >= 2


KINDS = ["KeyboardInterrupt", "KeyboardInterrupt", "SimTimeout", "TimeoutError", "MemoryError", "SystemExit", "SimCancel"]


class C03(SolverProp):
    """Interruption anywhere propagates and leaves nothing behind."""

    id = "C03"
    rule = 'a call is interrupted 1-3 times at instructions where CPython delivers asynchronous exceptions (or where an allocation can fail), chosen evenly over code locations, with KeyboardInterrupt, SystemExit, MemoryError, a deadline exception or a BaseException cancellation; 30% with another thread parked inside its own call. The exception must reach the caller unchanged; every other call must be bit-identical to a fresh process and nothing may block. Non-trivial: an interrupt really fired inside a call; distinct by calls and interrupt points.'
    kinds = ("result-changed",)
    quick, thorough = 9000, 60000

    def gen(self, rng, i, tier):
        solver = self.cat.pick(rng)
        victim = self.base_op(rng, solver) if rng.random() < 0.9 else self.bad_op(rng, solver)
        r = U.ref(victim)
        spec = {"gran": "op", "rng": rng.randrange(1 << 30), "stops": []}
        row = []
        if rng.random() < 0.35:
            row.append(self.near_op(rng, victim))
        hits = rng.choice([1, 1, 1, 2, 3])
        for _ in range(hits):
            v = P.clone(victim)
            row.append(v)
            kind = rng.choice(KINDS)
            s = pick_loc(rng, r, 2 if kind == "MemoryError" and rng.random() < 0.6 else 1)
            if s:
                spec["stops"].append([0, len(row) - 1, s, "intr", kind])
        follow = [P.clone(victim)]
        for _ in range(rng.choice([0, 1, 2])):
            u = rng.random()
            follow.append(self.near_op(rng, victim) if u < 0.6 else self.base_op(rng, None if u < 0.8 else solver))
        if rng.random() < 0.3:
            rng.shuffle(follow)
        row += follow
        nodes = [row]
        if rng.random() < 0.3:
            # another thread is in the middle of its own call when it happens
            o = self.base_op(rng, solver)
            nodes.append([o, P.clone(victim)])
            spec["first"] = rng.choice([0, 1])
            s = pick_loc(rng, U.ref(o))
            if s:
                spec["stops"].append([1, 0, s, "pre", 0])
            s = pick_loc(rng, r)
            if s:
                spec["stops"].append([0, len(row) - len(follow) - 1, s, "pre", 1])
        if rng.random() < 0.3:
            nodes, spec["pool"] = share_arrays(rng, nodes)
        spec["nodes"] = nodes
        return spec

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st != "ok":
            return out
        rows = U.resolve(spec)
        for (n, i), rec in sorted(res["records"].items()):
            if rec["same"] is False:
                out.append({"cls": "swallowed", "text": f"op {n}.{i} {self.describe(rows[n][i])} was interrupted at {rec['at']} but the exception did not reach the caller: {short(rec['out'])}"})
        out += self.mismatches(spec, res, skip=lambda rec: rec["same"] is not None)
        return out

    def nontrivial(self, spec, res):
        return any(k.startswith("interrupt") for k in res["fired"])


class C04(SolverProp):
    """A call leaves the caller's arrays and the process alone."""

    id = "C04"
    rule = "1-3 calls (valid, invalid, with failing services, interrupted) with the caller's arrays compared after every 1-7 instructions and process-wide state (warnings filters, RNGs, environment, signal handlers, numpy error state, stdio, fds, module attributes, files opened; 70% not as at start-up: collector off, floating-point traps, filters, digits, hooks, handlers) before, at three points inside, and after. Non-trivial: at least one observation inside a running call; distinct by calls and fault points."
    kinds = ("input-mutated", "state-changed", "side-effect", "alias")
    quick, thorough = 5000, 40000

    def gen(self, rng, i, tier):
        solver = self.cat.pick(rng)
        spec = {"gran": "op", "rng": rng.randrange(1 << 30), "stops": [], "state": 1, "svc": {}}
        row = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            u = rng.random()
            row.append(self.base_op(rng, solver) if u < 0.6 else self.bad_op(rng, solver) if u < 0.75 else self.near_op(rng, None, solver) if u < 0.9 else self.base_op(rng))
        if rng.random() < 0.45 and len(row) > 1:
            row[-1] = P.clone(row[0])
        for j, o in enumerate(row):
            r = U.ref(o)
            if rng.random() < 0.35:
                kind = rng.choice(KINDS)
                s = pick_loc(rng, r, 1)
                if s:
                    spec["stops"].append([0, j, s, "intr", kind])
            for _ in range(3):
                s = pick_loc(rng, r)
                if s:
                    spec["stops"].append([0, j, s, "obs", None])
            if r.svc and rng.random() < 0.4:
                spec["svc"][f"0,{j}"] = {str(rng.randrange(len(r.svc))): rng.choice(["runtime", "sign", "late"])}
            for f in ("r1", "r2"):
                if o[f]["l"] == "ro" and rng.random() < 0.8:
                    o[f]["l"] = "c"  # a writable array cannot protect itself
        big = any(U.ref(o).n > 20000 for o in row)
        if rng.random() < 0.75:
            spec["observe"] = rng.choice([37, 101]) if big else rng.choice([1, 2, 3, 7])
        spec["nodes"] = [row]
        if rng.random() < 0.5:
            spec["nodes"], spec["pool"] = share_arrays(rng, spec["nodes"])
        if rng.random() < 0.7:
            # not every process runs with everything as it was at start-up
            spec["init"] = {
                "gc": rng.random() < 0.5,
                "err": {k: rng.choice(["ignore", "warn", "raise", "warn"]) for k in ("divide", "over", "under", "invalid")},
                "filters": rng.choice(["default", "always", "once", None]),
                "digits": rng.choice([3, 8, 17]),
                "recursion": rng.choice([1000, 1500, 5000]),
                "showwarning": rng.random() < 0.3, "hook": rng.random() < 0.3, "signal": rng.random() < 0.3,
                "prec": rng.choice([10, 28]), "umask": rng.choice([0o022, 0o077]), "errcall": rng.random() < 0.2,
            }
        return spec

    def nontrivial(self, spec, res):
        return res["glimpses"] > 0

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        return [v for v in out if v["cls"] not in ("no-progress",)]


class C05(SolverProp):
    """When a numeric service fails, the call fails or is still right."""

    variant = "svc"

    id = "C05"
    rule = '1-2 calls of solvers that rely on numeric services, with the k-th service call failing as the service documents (no convergence, same-sign bracket, unsuccessful minimisation) or floating-point traps armed by the caller, which fire where they do or at 1-6 arithmetic operations chosen evenly over code locations; outcome must be an exception, the undisturbed answer (1e-3) or a solution by independent two-body propagation. Non-trivial: a fault fired or traps were armed; distinct by calls and fault plan.'
    quick, thorough = 8000, 40000
    USERS = ["der2011", "thorne2004", "arora2013", "der2011", "arora2013"]

    def gen(self, rng, i, tier):
        spec = {"gran": "none", "rng": rng.randrange(1 << 30), "stops": [], "svc": {}}
        row = []
        trap = rng.random() < 0.3
        if rng.random() < 0.3:
            # the traps fire at an operation of the simulator's choice
            spec["gran"] = "op"
            for j in range(rng.choice([1, 1, 2])):
                s = self.cat.pick(rng) if rng.random() < 0.4 else rng.choice(self.USERS)
                o = self.base_op(rng, s) if rng.random() < 0.7 else self.near_op(rng, None, s)
                row.append(o)
                for _ in range(rng.choice([1, 1, 1, 2, 6])):
                    at = pick_loc(rng, U.ref(o), 8)
                    if at:
                        spec["stops"].append([0, j, at, "intr", "FloatingPointError"])
            spec["nodes"] = [row]
            return spec
        for j in range(rng.choice([1, 1, 2])):
            if trap:
                solver = self.cat.pick(rng)
                o = self.base_op(rng, solver) if rng.random() < 0.8 else self.near_op(rng, None)
            else:
                solver = rng.choice(self.USERS)
                o = self.base_op(rng, solver) if rng.random() < 0.6 else self.near_op(rng, None, solver)
            row.append(o)
            r = U.ref(o)
            if trap:
                # only the armed copy differs; the reference ran without traps
                o = row[-1] = P.clone(o)
                o["err"] = rng.choice([{"all": "raise"}, {"invalid": "raise"}, {"divide": "raise", "over": "raise"}, {"invalid": "raise", "divide": "raise", "over": "raise"}])
            elif r.svc or rng.random() < 0.3:
                kind = rng.choice(["runtime", "sign", "late"])
                which = rng.choice([str(rng.randrange(max(1, len(r.svc)))), "all"])
                spec["svc"][f"0,{j}"] = {which: kind}
        spec["nodes"] = [row]
        return spec

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st != "ok":
            return out
        rows = U.resolve(spec)
        for (n, i), rec in sorted(res["records"].items()):
            o = rows[n][i]
            if not (rec["svc_fired"] or "err" in o or rec["at"]):
                continue
            r = U.ref(o)
            got = rec["out"]
            if got[0] == "exc" or got == r.out:
                continue
            if r.out[0] == "exc":
                if r.out[1] in ("builtins.ValueError", "builtins.RuntimeError", "builtins.AssertionError", "builtins.TypeError", "builtins.IndexError", "builtins.ZeroDivisionError"):
                    v1 = _f(got[1][0])
                    if not (all(map(math.isfinite, v1)) and ops.arrives(o, v1, 1e-3)):
                        out.append({"cls": "wrong-answer", "text": f"op {n}.{i} {self.describe(o)} fails without the fault ({short(r.out)}), yet with it returned {short(got)}"})
                continue
            a, b = got[1][:2], r.out[1][:2]
            va, vb = _f(a[0]) + _f(a[1]), _f(b[0]) + _f(b[1])
            if not all(map(math.isfinite, vb)):
                continue  # the undisturbed call itself has no answer
            scale = max(abs(x) for x in vb)
            if len(va) == len(vb) and all(abs(x - y) <= 1e-3 * scale for x, y in zip(va, vb)):
                continue
            if len(va) == 6 and ops.arrives(o, va[:3], 2e-3) and ops.arrives({**o, "r1": o["r2"], "r2": o["r1"]}, [-x for x in va[3:]], 2e-3):
                # another solution of the problem, but not another path than the one asked for
                same = sum(x * y for x, y in zip(cross(o["r1"]["d"], va[:3]), cross(o["r1"]["d"], vb[:3]))) > 0
                if same and not o.get("k", {}).get("M") or all(abs(x - y) <= 0.05 * scale for x, y in zip(va, vb)):
                    continue
            if not ops.arrives(o, vb[:3], 1e-2):
                continue  # nothing to compare with: the undisturbed answer is no solution
            out.append({"cls": "wrong-answer", "text": f"op {n}.{i} {self.describe(o)}: after the injected failure it returned {short(got)}, which is not a solution; undisturbed: {short(r.out)}"})
        return out

    def nontrivial(self, spec, res):
        return bool(res["fired"]) or any("err" in it for row in spec["nodes"] for it in row)


class C06(SolverProp):
    """The clock decides nothing but the reported time per iteration."""

    variant = "full"

    id = "C06"
    rule = 'the same call under one simulated clock at other rates (powers of two), origins, wall-clock jumps and time zones, plus another clock (coarse, stalling, frozen, advancing per instruction), 30% with a second thread running in between. Non-trivial: the call read the clock; distinct by calls and clocks.'
    quick, thorough = 8000, 40000

    def gen(self, rng, i, tier):
        solver = self.cat.pick(rng)
        row = []
        o = self.base_op(rng, solver) if rng.random() < 0.7 else self.near_op(rng, None, solver)
        seed = rng.randrange(1000)
        mode = rng.choice(["fine", "fine", "coarse", "stall", "stall", "frozen", "step"])
        pert = []
        # the same call under the same clock at other rates, origins, wall jumps
        pert.append({"mode": mode, "seed": seed})
        pert.append({"mode": mode, "seed": seed, "scale": 2.0 ** rng.choice([-10, -3, 4, 12])})
        pert.append({"mode": mode, "seed": seed, "base": rng.choice([0.0, 5.0, 2.0**31, -3600.0])})
        pert.append({"mode": mode, "seed": seed, "jump": 1, "tz": rng.choice([0, 3600 * rng.randint(-11, 12)])})
        pert.append({"mode": rng.choice(["fine", "coarse", "stall", "frozen", "step"]), "seed": rng.randrange(1000), "jump": rng.randrange(2)})
        for c in pert:
            c2 = P.clone(o)
            c2["clk"] = c
            row.append(c2)
        if rng.random() < 0.3:
            row = [row[0]] + [P.clone(row[0])] + row[1:]
        nodes = [row]
        spec = {"gran": "op" if mode == "step" or any(c["mode"] == "step" for c in pert) else "none", "rng": rng.randrange(1 << 30), "stops": []}
        if rng.random() < 0.3:
            other = self.base_op(rng, solver if rng.random() < 0.7 else None)
            nodes.append([P.clone(other)])
            nodes[1][0]["clk"] = {"mode": "step" if spec["gran"] == "op" else "fine", "seed": 5}
            spec["gran"] = "op"
            for j in range(len(row)):
                s = pick_loc(rng, U.ref(o))
                if s:
                    spec["stops"].append([0, j, s, "pre", 1])
            s = pick_loc(rng, U.ref(other))
            if s:
                spec["stops"].append([1, 0, s, "pre", 0])
        spec["nodes"] = nodes
        return spec

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st != "ok":
            return out
        rows = U.resolve(spec)
        sig = {}
        for (n, i), rec in sorted(res["records"].items()):
            o = rows[n][i]
            c = o.get("clk", {})
            got = rec["out"]
            plain = dict(o)
            plain.pop("clk", None)
            r = U.ref(plain)
            if r is None:
                continue
            full = o.get("k", {}).get("full_output")
            a = got[1][:3] if got[0] == "ok" and full else got
            b = r.out[1][:3] if r.out[0] == "ok" and full else r.out
            if a != b:
                out.append({"cls": "outcome", "text": f"op {n}.{i} {self.describe(o)} under clock {c}: {short(got)}; under an ordinary clock {short(r.out)}"})
                continue
            if full:
                # asking for the full output changes nothing else
                q = P.clone(plain)
                del q["k"]["full_output"]
                r0 = U.ref(q)
                if r0 is not None:
                    x = ("ok", got[1][:2]) if got[0] == "ok" else got
                    if base.canon(x) != base.canon(r0.out):
                        out.append({"cls": "full-output", "text": f"op {n}.{i} {self.describe(o)}: {short(got)}; without full_output {short(r0.out)}"})
                        continue
            if got[0] != "ok" or not full:
                continue
            if len(got[1]) < 4:
                out.append({"cls": "tpi", "text": f"op {n}.{i} {self.describe(o)}: no time per iteration in the full output"})
                continue
            num, tpi = got[1][2], got[1][3]
            try:
                tpi = float.fromhex(tpi) if isinstance(tpi, str) else float(tpi)
            except (TypeError, ValueError):
                out.append({"cls": "tpi", "text": f"op {n}.{i}: time per iteration is not a number: {tpi!r}"})
                continue
            if not (math.isfinite(tpi) and tpi >= 0):
                out.append({"cls": "tpi", "text": f"op {n}.{i} {self.describe(o)} under clock {c}: time per iteration {tpi!r}"})
                continue
            el = rec["elapsed"]
            slack = 1e-9 * max(el, 1e-12) + 4 * math.ulp(abs(c.get("base", 1000.0)) + abs(el))
            if isinstance(num, int) and tpi * max(num, 1) > el + slack * max(num, 1):
                out.append({"cls": "tpi", "text": f"op {n}.{i} {self.describe(o)} under clock {c}: {num} iterations of {tpi!r} s, but only {el!r} s passed during the call"})
            if c.get("mode") == "frozen" and tpi != 0.0:
                out.append({"cls": "tpi", "text": f"op {n}.{i} {self.describe(o)}: the clock stood still, yet time per iteration is {tpi!r}"})
            rd = rec["reads"]
            if len(rd) >= 2 and isinstance(num, int) and num > 0 and c.get("mode") != "step":
                last = rd[-1] - rd[-2]
                if tpi * num < last / 4 - slack:
                    out.append({"cls": "tpi", "text": f"op {n}.{i} {self.describe(o)}: {num} iterations of {tpi!r} s do not account for the {last!r} s between the last two clock readings"})
            if c.get("mode") != "step":
                # same clock at another rate or origin: exactly proportional
                k = (n, c.get("mode"), c.get("seed"), base.canon([o["s"], o["mu"], o["tof"], o["k"], o["r1"]["d"], o["r2"]["d"]]))
                sc = c.get("scale", 1.0)
                v = tpi / sc
                err = 4 * math.ulp(abs(c.get("base", 1000.0)) + abs(rec["t"])) / sc
                if k in sig:
                    w, werr, wc = sig[k]
                    if abs(v - w) > 1e-9 * max(abs(v), abs(w)) + err + werr:
                        out.append({"cls": "tpi", "text": f"op {n}.{i} {self.describe(o)}: rescaled time per iteration {v!r} under clock {c}, {w!r} under clock {wc}, which differs only in rate, origin or wall time"})
                else:
                    sig[k] = (v, err, c)
        return out

    def nontrivial(self, spec, res):
        return any(r["reads"] for r in res["records"].values())


class C11(SolverProp):
    """Forked workers do not inherit what their parent was in the middle of."""

    id = "C11"
    rule = "1-3 threads make 1-3 calls each; at 1-3 points, most of them while other threads are parked inside a call (chosen like C01's preemptions, with a bias to held locks and module-level state) or inside a signal handler, the process forks. Only the forking thread exists in the child, which makes 1-3 calls on 1-2 threads, preempted in turn, and may fork again. Every outcome in parent and children is compared bit for bit with the same call made first in a fresh process. Non-trivial: a fork happened while a call was in progress; distinct by calls and schedule."
    kinds = ("result-changed", "alias", "input-mutated")
    quick, thorough = 4000, 60000

    def worker(self, rng, near, depth=0):
        """What the forked child does."""
        nodes = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            row = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                u = rng.random()
                o = rng.choice(near)
                row.append(P.clone(o) if u < 0.5 else self.near_op(rng, o) if u < 0.75 else self.base_op(rng, o["s"] if rng.random() < 0.6 else None))
            nodes.append(row)
        spec = {"gran": "op" if len(nodes) > 1 else "none", "rng": rng.randrange(1 << 30), "stops": [], "nodes": nodes}
        if len(nodes) > 1:
            for n in range(2):
                s = pick_loc(rng, U.ref(nodes[n][0]))
                if s:
                    spec["stops"].append([n, 0, s, "pre", 1 - n])
        if depth == 0 and rng.random() < 0.08:
            nodes[0].insert(rng.randrange(len(nodes[0])), {"c": "fork", "spec": self.worker(rng, near, 1)})
        return spec

    def gen(self, rng, i, tier):
        nn = rng.choice([1, 2, 2, 2, 3])
        solver = self.cat.pick(rng)
        first = self.base_op(rng, solver)
        nodes, stops, ops_ = [], [], [first]
        for n in range(nn):
            row = []
            for _ in range(rng.choice([1, 1, 2])):
                u = rng.random()
                o = P.clone(first) if not n and not row else self.near_op(rng, first) if u < 0.4 else self.bad_op(rng, solver) if u < 0.5 else self.base_op(rng, solver if u < 0.85 else None)
                ops_.append(o)
                row.append(P.clone(o))
            nodes.append(row)
        spec = {"gran": "op", "rng": rng.randrange(1 << 30)}
        if nn > 1 and rng.random() < 0.8:
            # the others are parked inside their calls when the last thread forks
            k = nn - 1
            at = rng.randrange(len(nodes[k]) + 1)
            for _ in range(rng.choice([1, 1, 2])):
                nodes[k].insert(at, {"c": "fork", "spec": self.worker(rng, ops_)})
            if at == 0 or rng.random() < 0.5:
                spec["first"] = 0
            for n in range(k):
                it = rng.randrange(len(nodes[n]))
                s = pick_loc(rng, U.ref(nodes[n][it]))
                if s:
                    stops.append([n, it, s, "pre", n + 1])
        else:
            for _ in range(rng.choice([1, 1, 2])):
                n = rng.randrange(nn)
                it = rng.randrange(len(nodes[n]))
                s = pick_loc(rng, U.ref(nodes[n][it]))
                if s:
                    stops.append([n, it, s, "fork", self.worker(rng, ops_)])
                    if nn > 1 and rng.random() < 0.6:
                        m = (n + 1) % nn
                        s = pick_loc(rng, U.ref(nodes[m][0]))
                        if s:
                            stops.append([m, 0, s, "pre", n])
                            spec["first"] = m
        if rng.random() < 0.3:
            nodes, spec["pool"] = share_arrays(rng, nodes)
        spec["nodes"], spec["stops"] = nodes, stops
        spec["cap"] = 200_000 + 8 * sum(U.ref(o).n for o in U.all_ops(spec) if U.ref(o))
        return spec

    def judge(self, spec, st, res, who=""):
        out = super().judge(spec, st, res)
        if st != "ok":
            return out
        out += self.mismatches(spec, res)
        for n, i, sub, st2, val, busy in res["forks"]:
            for v in self.judge(sub, st2, val if st2 == "ok" else {"rc": val}):
                out.append({"cls": v["cls"], "text": f"worker forked by thread {n} at its operation {i}{' while a call was in progress' if busy else ''}: {v['text']}"})
        return out

    def nontrivial(self, spec, res):
        return res["fired"].get("fork-mid-call", 0) > 0


class C13(SolverProp):
    """However long the history, the process does not grow."""

    id = "C13"
    rule = "One thread makes hundreds of calls of one kind (a grid of solvers and kinds): calls with ever new arguments (one of mu, positions, time of flight, tolerances drifting), the same calls again and again, failing calls (with the same or ever new arguments), calls interrupted by an asynchronous exception at up to 12 instructions spread over the call in turn, calls whose n-th numeric service fails, or calls each on a thread of its own; in 35% of the histories every call is given the same array objects, refilled in place. After a warm-up the allocated blocks, tracked objects, descriptors and threads are counted (after a full collection), and again after each of two equal stretches. Where both stretches grow by more than 4 % of the number of calls, the history is made again with a warm-up of 1200 calls and stretches of 300, and only that history is judged: growth by more than 12 + 4 % in both stretches is a violation. Caches bounded to about a thousand entries are thus allowed. Non-trivial: the history ran to its end; distinct by kind, calls and fault points."
    kinds = ()
    quick, thorough = 1400, 20_000
    GRID = ["tof", "intr", "fail", "r", "thread", "intr", "same", "mu", "intr", "tol", "failnew", "svc"]

    def gen(self, rng, i, tier):
        names = ops.SOLVERS + ["utils"]
        s = names[i % len(names)]
        mode = self.GRID[(i // len(names)) % len(self.GRID)]
        if mode == "svc" and s not in ("der2011", "thorne2004", "arora2013"):
            if rng.random() < 0.5:
                s = rng.choice(["der2011", "thorne2004", "arora2013"])
            else:
                mode = "intr"
        multi = rng.random() < 0.5
        todo, spare = [], []
        for _ in range(40):
            o = self.bad_op(rng, s) if mode in ("fail", "failnew") else self.base_op(rng, s) if rng.random() < 0.6 else self.near_op(rng, None, s)
            r = U.ref(o)
            if r is None or r.n > (40_000 if s == "pan2016" else 15_000) or (mode in ("fail", "failnew")) != (r.out[0] == "exc") or (mode == "svc" and not r.svc):
                continue
            for f in ("r1", "r2"):
                if o[f].get("l") in ("ro", "list", "tuple") and mode not in ("same", "fail"):
                    o[f] = {**o[f], "l": "c"}
            if multi and not o["k"].get("M"):
                spare.append(o)
                continue
            todo.append(o)
            if len(todo) >= (1 if mode in ("intr", "svc") else rng.choice([1, 2, 3])):
                break
        todo = todo or spare[:2]
        if not todo:
            mode, todo = "same", [self.base_op(rng, "izzo2015")]
        n = max(U.ref(o).n for o in todo)
        it = {"c": "grow", "mode": mode, "ops": todo, "warm": 60, "n": 60 if n > 4000 else 120}
        if mode in ("tof", "r", "mu"):
            it["drift"] = mode
        elif mode == "failnew":
            it["drift"] = rng.choice(["tof", "r", "mu"])
        elif mode == "tol":
            it["drift"] = rng.choice(["rtol", "atol"]) if s != "utils" else "tof"
        elif mode == "intr":
            it["ops"] = todo[:1]
            r, it["at"] = U.ref(todo[0]), []
            for q in range(12):
                kind = rng.choice(KINDS)
                lvl = 2 if kind == "MemoryError" and rng.random() < 0.6 else 1
                p = pick_loc(rng, r, lvl) if rng.random() < 0.4 else 1 + int((q + rng.random()) * r.n / 12)
                if p:
                    it["at"].append([p, kind])
        elif mode == "svc":
            it["ops"] = todo[:1]
            it["svc"] = [rng.randrange(len(U.ref(todo[0]).svc)), rng.choice(["runtime", "sign", "late"])]
        elif mode == "thread":
            it["thread"] = 1
        spec = {"gran": "op" if it["mode"] == "intr" else "none", "grow": 1, "rng": rng.randrange(1 << 30), "stops": [], "nodes": [[it]],
                "cap": 1 << 40}
        if rng.random() < 0.35:
            spec["keep"] = 1  # the caller's two buffers, the whole history long
        return spec

    KINDS_OF_CALL = {"same": "calls", "fail": "failing calls", "failnew": "failing calls with new arguments", "intr": "interrupted calls", "svc": "calls with a failing service", "thread": "calls, each on a thread of its own"}

    def grown(self, it, sizes, slack):
        if len(sizes) != 3:
            return []
        a, b, c = sizes
        most = 0.04 * it["n"] + slack
        return [k for k in ("blocks", "objects", "descriptors", "threads") if b[k] - a[k] > (most if k == "blocks" else 0.04 * it["n"]) and c[k] - b[k] > (most if k == "blocks" else 0.04 * it["n"])]

    def execute(self, spec):
        st, res = super().execute(spec)
        it = spec["nodes"][0][0]
        if st == "ok" and not res["failure"] and it.get("c") == "grow" and it["warm"] < 1200 and self.grown(it, res["sizes"], 4):
            st, res = super().execute({**spec, "nodes": [[{**it, "warm": 1200, "n": 300}]]})
            if st == "ok":
                res["long"] = True
        return st, res

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st != "ok" or res["failure"] or not (res.get("long") or spec["nodes"][0][0].get("warm", 0) >= 1200):
            return out
        it = {**spec["nodes"][0][0], "n": 300}
        for k in self.grown(it, res["sizes"], 12):
            a, b, c = res["sizes"]
            out.append({"cls": "growth", "text": f"after 1200 calls, 300 {self.KINDS_OF_CALL.get(it['mode'], 'calls with new arguments')} ({self.describe(it['ops'][0])}) add {b[k] - a[k]} {'memory blocks' if k == 'blocks' else k}, the next 300 another {c[k] - b[k]}"})
        return out

    def shrinks(self, spec):
        it = spec["nodes"][0][0]
        for k in ("ops", "at"):
            if len(it.get(k, ())) > 1:
                for j in range(len(it[k])):
                    yield edit(spec, 0, 0, {**it, k: [it[k][j]]})
        for kk in list(it["ops"][0].get("k", {})):
            yield edit(spec, 0, 0, {**it, "ops": [{**o, "k": {a: b for a, b in o.get("k", {}).items() if a != kk}} for o in it["ops"]]})

    def nontrivial(self, spec, res):
        return len(res["sizes"]) == 3


PROPS = {p.id: p for p in (C01(), C02(), C03(), C04(), C05(), C06(), C11(), C13())}
