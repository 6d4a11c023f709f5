"""Importing the package as a simulated activity.

The zygote has numpy, scipy and numba loaded but never imported lamberthub; its
modules are compiled beforehand, so that their bodies carry scheduling points.
Each run happens in a fork: threads import modules in some order, are preempted
or interrupted inside module bodies, module files fail to be read, calls are
made in between, and in the end the package is imported once more and examined.
"""

import gc
import importlib
import importlib.machinery
import inspect
import json
import os
import random
import subprocess
import sys
import types

import numpy as np

from . import base, ops, problems as P, sched, solverprops, state, universe as U

CODE = {}  # path -> compiled module body
NAMES = []  # dotted names of all modules
FAULTS = {}  # module name -> [remaining reads before the fault, exception factory, thread-fired list]
RUNNER = [None]

READ = {
    "EIO": lambda p: OSError(5, "Input/output error", p),
    "EMFILE": lambda p: OSError(24, "Too many open files", p),
    "EACCES": lambda p: PermissionError(13, "Permission denied", p),
    "MemoryError": lambda p: MemoryError(),
    "KeyboardInterrupt": lambda p: KeyboardInterrupt(),
}

_get_code = importlib.machinery.SourceFileLoader.get_code


def get_code(self, fullname):
    path = self.get_filename(fullname)
    r = RUNNER[0]
    if r is not None and fullname.split(".")[0] == "lamberthub":
        r.reading(fullname, path)
    co = CODE.get(os.path.realpath(path))
    return co if co is not None else _get_code(self, fullname)


_listdir, _scandir = os.listdir, os.scandir


def _shuffled(path, names, key):
    """A file system lists a directory in whatever order it likes."""
    r = RUNNER[0]
    seed = r.spec.get("dirs") if r is not None else None
    if seed is None or not isinstance(path, (str, os.PathLike)) or not os.path.realpath(path).startswith(base.SRC.rstrip(os.sep)):
        return names
    names = sorted(names, key=key)
    random.Random(seed).shuffle(names)
    r.hit("directory-listed")
    return names


def listdir(path="."):
    return _shuffled(path, _listdir(path), None)


class scandir:
    """os.scandir, in the order the simulated file system chose."""

    def __init__(self, path="."):
        with _scandir(path) as d:
            self.entries = iter(_shuffled(path, list(d), lambda e: e.name))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.entries = iter(())


def walk(co, out):
    out.append(co)
    for k in co.co_consts:
        if isinstance(k, types.CodeType):
            walk(k, out)


def boot():
    U.boot(load=False)
    assert not any(n.split(".")[0] == "lamberthub" for n in sys.modules)
    import decimal  # noqa: F401  (state snapshots look at it)
    import scipy.optimize  # noqa: F401

    root = base.SRC.rstrip(os.sep)
    codes = []
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.dirname(root))[:-3].replace(os.sep, ".")
            name = rel[:-9] if rel.endswith(".__init__") else rel
            co = importlib.machinery.SourceFileLoader(name, p).source_to_code(open(p, "rb").read(), p)
            CODE[os.path.realpath(p)] = co
            NAMES.append(name)
            walk(co, codes)
    importlib.machinery.SourceFileLoader.get_code = get_code
    os.listdir, os.scandir = listdir, scandir
    sched.CODES[:] = [(c, {}) for c in codes]
    for c in codes:
        U._CODE[c] = U.CodeInfo(c, {})
    sched.instrument("op")


# -- what a user sees of the package ------------------------------------------

def describe(v, depth=0):
    if isinstance(v, types.FunctionType) or (callable(v) and not isinstance(v, type)):
        f = inspect.unwrap(v)
        try:
            sig = str(inspect.signature(v))
        except (TypeError, ValueError):
            sig = "?"
        return ["fn", getattr(f, "__module__", "?"), getattr(f, "__qualname__", "?"), sig]
    if isinstance(v, type):
        return ["class", v.__module__, v.__qualname__]
    if isinstance(v, (list, tuple)) and depth < 4:
        return [type(v).__name__] + [describe(x, depth + 1) for x in v]
    if isinstance(v, dict) and depth < 4:
        return ["dict"] + [[describe(k, depth + 1), describe(x, depth + 1)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted(json.dumps(describe(x, depth + 1)) for x in v)
    if isinstance(v, (str, bytes, int, float, bool, type(None), np.ndarray, np.generic)):
        return ops.enc(v)
    return ["object", type(v).__name__]


def public(mod):
    out = {}
    for n, v in vars(mod).items():
        if isinstance(v, types.ModuleType) or (n.startswith("_") and n not in ("__version__", "__author__", "__all__")):
            continue
        f = inspect.unwrap(v) if callable(v) else v
        home = getattr(f, "__module__", None)
        if isinstance(home, str) and not home.startswith("lamberthub"):
            continue  # borrowed from numpy, time and the like
        out[n] = describe(v)
    return out


def fingerprint():
    """-> (description of the public surface, inconsistencies)."""
    import lamberthub as L

    pkg = public(L)
    mods = {}
    for n in NAMES[1:]:
        mods[n] = public(importlib.import_module(n))
    wrong = []
    for n in pkg:
        v = getattr(L, n)
        for f in v if isinstance(v, (list, tuple)) else ():
            if callable(f) and getattr(L, getattr(f, "__name__", "?"), None) is not f:
                wrong.append(f"{n} holds a {getattr(f, '__name__', f)!s} that is not lamberthub.{getattr(f, '__name__', f)!s}")
    star = {}
    exec("from lamberthub import *", star)
    for n in list(star):
        if n.startswith("__") or isinstance(star[n], types.ModuleType):
            star.pop(n)
    return {"package": pkg, "modules": mods, "star": sorted(star)}, wrong


def difference(a, b, path=""):
    """First difference between two descriptions, as text."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in b:
                return f"{path}{k} is missing"
            if k not in a:
                return f"{path}{k} appeared"
            d = difference(a[k], b[k], f"{path}{k}: ")
            if d:
                return d
        return None
    return None if a == b else f"{path}{json.dumps(a)[:160]} became {json.dumps(b)[:160]}"


class Runner(U.Runner):
    def __init__(self, spec):
        super().__init__(spec)
        self.faults = {}
        for name, nth, kind in spec.get("faults", ()):
            self.faults[(name, nth)] = kind
        self.reads = {}
        self.imports = []
        self.done = {}
        self.api = None
        self.wrong = []
        self.quiet = False

    def reading(self, name, path):
        if self.quiet:
            return
        k = self.reads[name] = self.reads.get(name, 0) + 1
        th = sched.me()
        self.log.add("read", th.idx if th else None, name, k)
        kind = self.faults.get((name, k))
        if kind is not None and th is not None:
            e = READ[kind](path)
            self.hit(f"read-fault:{kind}")
            self.injected[(th.idx, th.op)] = (e, f"reading {name}")
            raise e

    def one(self, th, n, i, it):
        if not self.usable():
            self.log.add("skipped", n, i)
            return
        U.lh = sys.modules["lamberthub"]
        super().one(th, n, i, it)

    def usable(self):
        m = sys.modules.get("lamberthub")
        return m is not None and not getattr(m.__spec__, "_initializing", False)

    def control(self, th, n, it):
        c = it["c"]
        if c == "junk":
            self.junk(it["v"])
            return
        if c == "purge":
            for k in [k for k in sys.modules if k.split(".")[0] == "lamberthub"]:
                del sys.modules[k]
            U.lh = None
            self.hit("purge")
            self.log.add("purge", n)
            return
        if c != "import":
            super().control(th, n, it)
            return
        i = th.op
        self.arm(th)
        alone = len(self.sim.threads) == 1
        st = state.full() if alone else None
        if alone:
            out0 = U._stdio_size()
            state.EVENTS.clear()
            state.audit(True)
        exc = None
        self.log.add("import", n, i, it["m"], it.get("f"))
        try:
            th.mute = False
            try:
                self.load(it)
            finally:
                th.mute = True
        except sched.SimAbort:
            raise
        except BaseException as e:
            if self.sim.failure is not None:
                raise sched.SimAbort
            exc = e
        state.audit(False)
        inj = self.injected.get((n, i))
        self.imports.append({
            "node": n, "op": i, "m": it["m"], "f": it.get("f"), "steps": th.steps,
            "out": None if exc is None else ops.outcome_exc(exc)[1:],
            "inj": None if inj is None else [type(inj[0]).__name__, inj[1], exc is inj[0]],
        })
        self.log.add("imported", n, i, th.steps, None if exc is None else ops.outcome_exc(exc)[1])
        exc = inj = None
        if alone:
            for d in state.diff(st, state.full()):
                self.bad("state-changed", th, f"after importing {it['m']}: {d}")
            for e in state.EVENTS[:3]:
                self.bad("side-effect", th, f"while importing {it['m']}: {e}")
            if U._stdio_size() != out0:
                self.bad("side-effect", th, f"importing {it['m']} wrote to standard output or standard error")

    def load(self, it):
        f, m = it.get("f", "import"), it["m"]
        if f == "import":
            __import__(m)
        elif f == "reload":
            if m in sys.modules:
                importlib.reload(sys.modules[m])
            else:
                importlib.import_module(m)
        elif f == "from":
            __import__(m, fromlist=it["names"])
        elif f == "star":
            exec(f"from {m} import *", {})

    def junk(self, v):
        """Earlier allocations: objects made from now on get other addresses."""
        rng = random.Random(v)
        keep = []
        for _ in range(rng.randrange(50, 400)):
            k = rng.random()
            keep.append((lambda: 0) if k < 0.5 else [0] * rng.randrange(20) if k < 0.8 else {})
        rng.shuffle(keep)
        del keep[: len(keep) // 2]
        self.keep = keep
        self.log.add("junk", v)

    def run(self):
        RUNNER[0] = self
        for k, v in self.spec.get("env", {}).items():
            if k == "cwd":
                os.chdir(v)
            else:
                os.environ[k] = v
        U._stdio_capture()
        U._seed_globals(self.spec.get("rng", 7))
        first = state.full()
        res = super().run()
        # one last import, by a process in which nothing disturbs any more
        self.quiet = True
        if not res["failure"]:
            try:
                U.lh = None
                self.api, self.wrong = fingerprint()
            except Exception as e:
                self.wrong = [f"importing the package afterwards fails: {type(e).__name__}: {e}"]
            for d in state.diff(first, state.full()):
                self.anom.append({"kind": "state-changed", "node": None, "op": None, "text": f"after the last import: {d}"})
        self.log.add("api", base.sha(self.api), self.wrong)
        res.update(imports=self.imports, api=self.api, wrong=self.wrong, digest=self.log.digest(), events=self.log.events, nev=self.log.n,
                   faulted=bool(self.injected), nreads=dict(self.reads))
        return res


def execute(spec, timeout=60.0):
    def go():
        U.PATIENCE[0] = timeout
        return Runner(spec).run()

    return U.in_fork(go, timeout)


HASH_SEEDS = (1, 2, 3)  # runs themselves have 0


def reference_api(hash_seed):
    """The public surface after one plain import, in a new interpreter."""
    code = ("import os, sys, json; from dst import importworld as w; w.boot(); w.RUNNER[0] = None; "
            "a, b = w.fingerprint(); print('API' + json.dumps([a, b]))")
    env = {**os.environ, "PYTHONHASHSEED": str(hash_seed)}
    r = subprocess.run([sys.executable, "-s", "-c", code], env=env, cwd=base.VERIF, capture_output=True, text=True, timeout=300)
    for line in r.stdout.splitlines():
        if line.startswith("API"):
            return json.loads(line[3:])
    raise RuntimeError("plain import failed:\n" + r.stderr[-3000:])


def profile(m):
    """Instructions a plain first import of module m executes."""
    def go():
        log = base.Log()
        sim = sched.Sim(U.REF_CAP, "op", log)
        locs = {}

        def on_step(th, code, off):
            v = locs.get((code, off))
            if v is None:
                locs[(code, off)] = [th.steps, th.steps, 1, U.info(code)]
            else:
                v[1] = th.steps
                v[2] += 1

        sim.on_step = on_step
        box = {}

        def body():
            th = sched.me()
            th.mute = False
            try:
                __import__(m)
            finally:
                th.mute = True
            box["n"] = th.steps

        sim.add(body)
        failure = sim.run()
        if failure or "n" not in box:
            raise RuntimeError(f"plain import of {m}: {failure}")
        rows = sorted([a, b, c, (1 if off in i.legal else 0) | (2 if off in i.alloc else 0)] for (co, off), (a, b, c, i) in locs.items())
        return {"n": box["n"], "locs": rows}

    st, val = U.in_fork(go, 120.0)
    if st != "ok":
        raise RuntimeError(f"plain import of {m}: {st} {val}")
    return val


class C12(solverprops.SolverProp):
    """Importing is repeatable, and interrupting it does no lasting harm."""

    id = "C12"
    rule = "1-3 threads import the package or its modules in random forms and orders (import, from, star, reload, after removal from sys.modules), with other objects allocated before, directories listed in any order, from any working directory and environment; preempted at 1-6 instructions of module bodies, interrupted by an asynchronous exception where CPython can deliver one or an allocation can fail, or unable to read a module file once; calls in between and afterwards; then one last import. The public surface (names, signatures, constants, order of the solver lists) is compared with plain imports in three other interpreters under other hash seeds, the calls with plain runs, process-wide state with before. Non-trivial: at least one import was preempted, interrupted or failed; distinct by steps, faults and schedule."
    kinds = ("result-changed", "alias", "input-mutated", "state-changed", "side-effect")
    quick, thorough = 6000, 100000

    def prepare(self, seed, tier):
        super().prepare(seed, tier)
        self.cat.K = 3 if tier == "quick" else 8
        self.profiles = {}

    def tasks(self, seed, tier):
        c = solverprops.Catalogue(seed, self.variant, tier)
        c.K = 3 if tier == "quick" else 8
        return c.tasks() + [("api", h) for h in HASH_SEEDS]

    def warm(self, s, k):
        if s == "api":
            U.REFS["api", k] = reference_api(k)
        else:
            super().warm(s, k)

    def prof(self, m):
        if m not in self.profiles:
            self.profiles[m] = profile(m)
        return self.profiles[m]

    def execute(self, spec):
        st, res = execute(spec, U.PATIENCE[0])
        if st in ("timeout", "died") and U.PATIENCE[1]:
            st, res = execute(spec, U.PATIENCE[1])
        if st == "error":
            raise RuntimeError("run failed in the harness:\n" + str(res))
        if st != "ok":
            return ("hang" if st == "timeout" else "crash"), {"rc": res}
        return "ok", res

    def imp(self, rng, odd=False, top=False):
        u = rng.random()
        m = "lamberthub" if top or u < 0.6 else rng.choice(NAMES)
        it = {"c": "import", "m": m}
        v = rng.random()
        if v < 0.15:
            it.update(f="star")
        elif v < 0.35 and m != "lamberthub":
            it = {"c": "import", "m": m.rpartition(".")[0], "f": "from", "names": [m.rpartition(".")[2]]}
        elif v < 0.35:
            it.update(f="from", names=rng.sample(ops.SOLVERS + ["ALL_SOLVERS", "ROBUST_SOLVERS", "ZERO_REV_SOLVERS"], 2))
        elif odd and v < 0.6:
            it = {"c": "import", "m": "lamberthub", "f": "reload"}
        return it

    def where(self, rng, flag=None):
        p = self.prof("lamberthub")
        rows = [r for r in p["locs"] if flag is None or r[3] & flag]
        u = rng.random()
        if not rows or u < 0.15 and flag is None:
            return rng.randint(1, p["n"])
        a, b, n, _ = rng.choice(rows)
        return a if n == 1 or rng.random() < 0.6 else b if flag is not None or rng.random() < 0.3 else rng.randint(a, b)

    def calls(self, rng, k):
        return [self.base_op(rng) if rng.random() < 0.9 else self.bad_op(rng) for _ in range(k)]

    def fault(self, rng, spec, n, i):
        """Disturb import step i of thread n."""
        if rng.random() < 0.65:
            kind = rng.choice(solverprops.KINDS)
            s = self.where(rng, 2 if kind == "MemoryError" and rng.random() < 0.6 else 1)
            spec["stops"].append([n, i, s, "intr", kind])
        else:
            spec.setdefault("faults", []).append([rng.choice(NAMES), 1 if rng.random() < 0.85 else 2, rng.choice(list(READ))])

    def gen(self, rng, i, tier):
        spec = {"gran": "op", "rng": rng.randrange(1 << 30), "stops": []}
        u = rng.random()
        nodes = []
        if u < 0.4:  # one thread; the import is disturbed, then tried again
            # after a failed import the package itself has to come first: CPython
            # keeps its finished submodules and would not run it for them
            row = [self.imp(rng, top=True)]
            self.fault(rng, spec, 0, 0)
            while rng.random() < 0.4 and len(row) < 5:
                row.append(self.imp(rng, True, top=True))
                if rng.random() < 0.6:
                    self.fault(rng, spec, 0, len(row) - 1)
            row.append(self.imp(rng, top=True))
            row += self.calls(rng, rng.choice([0, 1, 2])) + [self.imp(rng)] + self.calls(rng, rng.choice([1, 1, 2]))
            if rng.random() < 0.2:
                row += [{"c": "purge"}, self.imp(rng)] + self.calls(rng, 1)
            nodes = [row]
        elif u < 0.85:  # several threads
            nn = rng.choice([2, 2, 2, 3])
            for n in range(nn):
                # CPython itself gives up (_DeadlockError) when one thread imports a
                # package that imports its submodules and another a submodule
                row = [self.imp(rng, top=True)]
                if rng.random() < 0.4:
                    row.append(self.imp(rng))
                row += self.calls(rng, rng.choice([0, 1, 1, 2]))
                nodes.append(row)
            for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
                n = rng.randrange(nn)
                spec["stops"].append([n, 0, self.where(rng), "pre", rng.choice([-1, (n + 1) % nn])])
            if rng.random() < 0.12:
                spec["quantum"] = rng.choice([3, 7, 23, 61, 157])
            spec["first"] = rng.randrange(nn)
            if rng.random() < 0.3:
                n = rng.randrange(nn)
                self.fault(rng, spec, n, 0)
                nodes[n].insert(1, self.imp(rng, top=True))
        else:
            row = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                if row and rng.random() < 0.3:
                    row.append({"c": "purge"})
                row.append(self.imp(rng, True))
                row += self.calls(rng, rng.choice([0, 0, 1]))
            row += self.calls(rng, 1)
            nodes = [row]
        if rng.random() < 0.6:
            n = rng.randrange(len(nodes))
            junk = {"c": "junk", "v": rng.randrange(1 << 20)}
            nodes[n].insert(0, junk)
            spec["stops"] = [[s[0], s[1] + (s[0] == n), *s[2:]] for s in spec["stops"]]
        if rng.random() < 0.6:
            spec["dirs"] = rng.randrange(1 << 20)
        if rng.random() < 0.4:
            spec["env"] = {"cwd": rng.choice(["/", "/dev", base.SRC, os.path.dirname(base.SRC.rstrip("/"))]), "LANG": rng.choice(["C", "tr_TR.UTF-8", "de_DE"]), "TZ": rng.choice(["UTC", "Asia/Kathmandu"]), "HOME": rng.choice(["/nonexistent", "/root"])}
        spec["nodes"] = nodes
        spec["cap"] = 400_000 + 8 * sum(U.ref(o).n for o in U.all_ops(spec) if U.ref(o))
        return spec

    def judge(self, spec, st, res):
        out = super().judge(spec, st, res)
        if st != "ok" or res["failure"]:
            return out
        alone = len(spec["nodes"]) == 1
        for r in res["imports"]:
            name = f"import step {r['node']}.{r['op']} ({r.get('f') or 'import'} {r['m']})"
            if r["inj"] is not None:
                kind, where, same = r["inj"]
                if r["out"] is None:
                    out.append({"cls": "swallowed", "text": f"{name} completed although {kind} was raised at {where}"})
                elif not same:
                    out.append({"cls": "replaced", "text": f"{kind} raised at {where} reached the caller of {name} as {r['out']}"})
            elif r["out"] is not None and (alone or not res["faulted"]):
                out.append({"cls": "import-failed", "text": f"{name} failed: {r['out']}"})
        for w in res["wrong"]:
            out.append({"cls": "incomplete", "text": w})
        if res["api"] is not None:
            api = json.loads(json.dumps(res["api"]))
            for h in HASH_SEEDS:
                if ("api", h) not in U.REFS:
                    U.REFS["api", h] = reference_api(h)
                d = difference(U.REFS["api", h][0], api)
                if d:
                    out.append({"cls": "surface", "text": f"compared with a plain import under hash seed {h}, after the last import {d}"})
                    break
        return out + self.mismatches(spec, res)

    def shrinks(self, spec):
        f = spec.get("faults", [])
        for j in range(len(f)):
            yield {**spec, "faults": f[:j] + f[j + 1:]}
        for k in ("env", "dirs"):
            if k in spec:
                yield {a: b for a, b in spec.items() if a != k}
        yield from super().shrinks(spec)

    def nontrivial(self, spec, res):
        return bool(res["fired"].get("preemption") or res["faulted"])


PROPS = {"C12": C12()}
