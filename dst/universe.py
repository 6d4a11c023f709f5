"""One simulated process: runs a spec, in a fork of a process that never called the library."""

import _thread
import dis
import gc
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading

import numpy as np

from . import base, clocks, ops, sched, services, state

lh = None  # the package under test, set by boot()

REF_CAP = 800_000  # instructions; longer calls are left out of the workload
RUN_FACTOR = 12


def boot(load=True):
    """Install every seam, then import the package under test."""
    import numba
    import scipy.optimize  # noqa: F401
    import warnings

    warnings.simplefilter("ignore")
    clocks.install()
    sched.install()
    services.install()
    if hasattr(numba, "prange"):
        numba.prange = _prange
    state.audit_install()
    if load:
        load_package()
        sched.survey()
        for co, g in sched.CODES:
            _CODE[co] = CodeInfo(co, g)
        sched.instrument("op")  # inherited by every fork


def load_package():
    global lh
    import importlib

    lh = importlib.import_module("lamberthub")
    want = os.path.join(base.SRC, "__init__.py")
    if os.path.realpath(lh.__file__) != os.path.realpath(want):
        raise SystemExit(f"wrong package under test: {lh.__file__}")


PRANGE_SEED = [None]


def _prange(*a):
    """Parallel loops may run their iterations in any order."""
    r = list(range(*a))
    if PRANGE_SEED[0] is not None:
        random.Random(PRANGE_SEED[0]).shuffle(r)
    return iter(r)


# -- forking -----------------------------------------------------------------

PATIENCE = [60.0, 150.0]  # real seconds a simulated process may take, and again before it counts as hung


def in_fork(fn, timeout=120.0):
    """Run fn() in a fork and return its result; ('timeout',) or ('died', rc)."""
    r, w = os.pipe()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()
            try:
                res = ("ok", fn())
            except BaseException as e:
                import traceback

                res = ("error", "".join(traceback.format_exception(e)))
            data = pickle.dumps(res, protocol=4)
            mv = memoryview(struct.pack("<Q", len(data)) + data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = clocks.real_perf_counter() + timeout
    out = None
    while True:
        left = end - clocks.real_perf_counter()
        if left <= 0:
            out = ("timeout", None)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if out is not None:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if out is not None:
        return out
    if len(buf) >= 8:
        (n,) = struct.unpack("<Q", buf[:8])
        if len(buf) >= 8 + n:
            return pickle.loads(bytes(buf[8 : 8 + n]))
    return ("died", st)


# -- code locations ------------------------------------------------------------

_CODE = {}


class CodeInfo:
    __slots__ = ("name", "legal", "hot", "alloc", "arith")

    def __init__(self, co, g):
        short = co.co_filename[len(base.SRC):]
        self.name = f"{short}:{co.co_qualname}"
        legal, alloc, arith = set(), set(), set()
        prev = None
        for ins in dis.get_instructions(co, show_caches=False):
            n = ins.opname
            if n in ("RESUME", "JUMP_BACKWARD") or prev in ("CALL", "CALL_FUNCTION_EX"):
                legal.add(ins.offset)
            if n in ("BINARY_OP", "UNARY_NEGATIVE", "BUILD_LIST", "BUILD_TUPLE", "BUILD_MAP"):
                alloc.add(ins.offset)
            if n == "BINARY_OP":
                arith.add(ins.offset)
            prev = n
        self.legal = legal
        self.alloc = alloc
        self.arith = arith
        self.hot = self._hot(co, g)

    @staticmethod
    def _hot(co, g):
        mut = (np.ndarray, list, dict, set, bytearray)

        def m(v):
            if isinstance(v, mut):
                return True
            t = type(v)
            return getattr(t, "__module__", "").startswith(("lamberthub", "collections", "threading", "weakref", "queue", "functools", "dst.sched")) and not isinstance(v, type)

        for n in co.co_names:
            if n in g and (m(g[n]) or (isinstance(g[n], (int, float, type(None))) and n.upper() != n)):
                return True
            if n in g and isinstance(g[n], type) and g[n].__module__.startswith("lamberthub"):
                return True
        if co.co_freevars and "<locals>" not in co.co_qualname:
            return True
        f = g.get(co.co_name)
        for d in getattr(f, "__defaults__", None) or ():
            if isinstance(d, mut):
                return True
        return False


def info(code):
    i = _CODE.get(code)
    if i is None:
        i = _CODE[code] = CodeInfo(code, {})
    return i


def where(code, off):
    return f"{info(code).name}+{off}"


# -- reference executions --------------------------------------------------------

class Ref:
    """What one call does as the very first call of a fresh process."""

    __slots__ = ("out", "n", "locs", "svc", "reads", "elapsed", "held", "_by")

    def having(self, flag):
        """Rows (first step, last step, count, flags) of locations with a flag."""
        if not hasattr(self, "_by"):
            self._by = {}
        if flag not in self._by:
            self._by[flag] = self.locs[(self.locs[:, 3] & flag) != 0] if flag else self.locs
        return self._by[flag]

    def __getstate__(self):
        return (self.out, self.n, self.locs, self.svc, len(self.reads), self.elapsed, self.held)

    def __setstate__(self, t):
        self.out, self.n, self.locs, self.svc, self.reads, self.elapsed, self.held = t


def _profile(op):
    def go():
        if lh is None:
            load_package()
        log = base.Log()
        sim = sched.Sim(REF_CAP, "op", log)
        locs = {}

        def on_step(th, code, off):
            k = (code, off)
            v = locs.get(k)
            if v is None:
                locs[k] = [th.steps, th.steps, 1, info(code)]
            else:
                v[1] = th.steps
                v[2] += 1

        sim.on_step = on_step
        held, since = [], {}

        def on_lock(th, lock, taken):
            if taken:
                since[id(lock)] = th.steps
            elif id(lock) in since:
                held.append((since.pop(id(lock)) + 1, th.steps))

        sim.on_lock = on_lock
        box = {}

        def body():
            th = sched.me()
            _seed_globals(op_seed=1)
            r1, r2 = ops.build_array(op["r1"]), ops.build_array(op["r2"])
            box.update(_one(sim, th, op, r1, r2, {}))

        sim.add(body)
        failure = sim.run()
        if failure:
            return {"fail": list(failure)}
        table = []
        for (co, off), (a, b, n, inf) in locs.items():
            fl = (1 if off in inf.legal else 0) | (2 if off in inf.alloc else 0) | (4 if inf.hot else 0) | (8 if off in inf.arith else 0)
            table.append((a, b, n, fl))
        table.sort()
        table = np.array(table, dtype=np.int32).reshape(-1, 4)
        return {"fail": None, "out": box["out"], "n": box["steps"], "locs": table,
                "held": held[:50], "svc": box["svc"], "reads": box["reads"], "elapsed": box["elapsed"]}

    return go


REFS = {}
LOCAL = []
STATS = {"refs": 0, "refs_dropped": 0}


def ref(op):
    """Reference outcome and instruction profile; None if the call is too long."""
    k = ops.key(op)
    if k in REFS:
        return REFS[k]
    st, val = in_fork(_profile(op), 60.0)[:2]
    STATS["refs"] += 1
    if st == "error":
        raise RuntimeError("reference run: " + str(val))
    if st != "ok" or val["fail"]:
        if st == "ok" and val["fail"][0] == "harness":
            raise RuntimeError(val["fail"][1])
        STATS["refs_dropped"] += 1
        REFS[k] = None
        return None
    r = Ref()
    r.out, r.n, r.locs, r.svc, r.reads, r.elapsed, r.held = (
        val["out"], val["n"], val["locs"], val["svc"], val["reads"], val["elapsed"], val["held"])
    if len(LOCAL) > 3000:
        for kk in LOCAL:
            REFS.pop(kk, None)
        LOCAL.clear()
    LOCAL.append(k)
    REFS[k] = r
    return r


def _seed_globals(op_seed):
    random.seed(op_seed)
    np.random.seed(op_seed & 0x7FFFFFFF)


def _one(sim, th, op, r1, r2, plan, mute=False):
    """Run one op on thread th under the simulator; returns its record."""
    ident = _thread.get_ident()
    clk = clocks.SimClock(op.get("clk", {}), stepper=lambda: sim.steps)
    if "tz" in op.get("clk", {}):
        clk.utc_offset = op["clk"]["tz"]
    svc = services.OpServices(plan)
    old = clocks.CURRENT.get(ident), services.STATE.get(ident)
    clocks.CURRENT[ident] = clk
    services.STATE[ident] = svc
    t0 = clk.mono()
    res = None
    exc = None
    err = op.get("err")
    saved = np.geterr() if err else None
    try:
        if err:
            np.seterr(**err)
        th.mute = mute
        try:
            res = ops.call(lh, op, r1, r2)
        finally:
            th.mute = True
        out = ops.outcome_ok(res)
    except sched.SimAbort:
        raise
    except BaseException as e:
        if sim.failure is not None:
            raise sched.SimAbort
        exc = e
        out = ops.outcome_exc(e)
    finally:
        if err:
            np.seterr(**saved)
    t1 = clk.mono()
    if old[0] is None:
        clocks.CURRENT.pop(ident, None)
        services.STATE.pop(ident, None)
    else:
        clocks.CURRENT[ident], services.STATE[ident] = old
    return {"out": out, "res": res, "exc": exc, "steps": th.steps, "svc": list(svc.calls),
            "svc_fired": list(svc.fired), "reads": clk.reads[1:-1], "elapsed": t1 - t0, "wall": clk.wall_reads,
            "jumps": clk.jumps, "t": clk.t * clk.scale}


# -- simulated runs -----------------------------------------------------------------

class SimTimeout(Exception):
    """What a caller's deadline (an alarm handler) raises in the running call."""


class SimCancel(BaseException):
    """A cancellation that only BaseException handlers may see."""


INTR = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
    "SystemExit": lambda: SystemExit(3),
    "MemoryError": lambda: MemoryError("Unable to allocate 24.0 B for an array with shape (3,)"),
    "FloatingPointError": lambda: FloatingPointError("underflow encountered in scalar multiply"),
    "TimeoutError": lambda: TimeoutError("deadline exceeded"),
    "SimTimeout": lambda: SimTimeout("deadline exceeded"),
    "SimCancel": lambda: SimCancel("cancelled"),
}


def resolve(spec):
    """Ops with literal arrays, as each call will see them."""
    out = []
    for items in spec["nodes"]:
        pool = {k: dict(v) for k, v in spec.get("pool", {}).items()}
        row = []
        for it in items:
            if it.get("c") == "poke":
                pool[it["a"]] = {**pool[it["a"]], "d": it["d"]}
            if "s" in it:
                o = dict(it)
                for f in ("r1", "r2"):
                    if "p" in o[f]:
                        o[f] = pool[o[f]["p"]]
                row.append(o)
            else:
                row.append(None)
        out.append(row)
    return out


def all_ops(spec):
    """Every op whose reference a run needs, nested ones included."""
    for row in resolve(spec):
        for o in row:
            if o is not None:
                yield o
    for st in spec.get("stops", ()):
        if st[3] == "nest":
            yield st[4]


def _bytes(a):
    """What a caller can see of an argument: contents, form, whether it may be written to."""
    if isinstance(a, np.ndarray):
        return a.tobytes() + repr((a.shape, a.strides, a.dtype.str, a.flags.writeable)).encode()
    return repr(a).encode()


def initial(d):
    """Give the process a state other than the one at start-up."""
    import warnings

    gc.set_threshold(1_000_000, 50, 50)
    (gc.enable if d["gc"] else gc.disable)()
    if d["filters"]:
        warnings.simplefilter(d["filters"], UserWarning)
    np.set_printoptions(precision=d["digits"])
    sys.setrecursionlimit(d["recursion"])
    if d["showwarning"]:
        warnings.showwarning = _ignore
    if d["hook"]:
        sys.excepthook = _ignore
    if d["signal"]:
        for x in (signal.SIGINT, signal.SIGALRM, signal.SIGUSR1):
            signal.signal(x, _ignore)
    os.umask(d["umask"])


def initial_thread(d):
    """The part of it that every thread has for itself."""
    import decimal

    if d["errcall"]:
        np.seterrcall(_ignore)
    np.seterr(**d["err"])
    decimal.getcontext().prec = d["prec"]


def _ignore(*a, **k):
    pass


def drifted(o, what, by):
    """The same call with one argument a little different."""
    f = 1 + by
    o = {**o, "k": dict(o["k"])}
    if what in ("tof", "mu"):
        o[what] *= f
    elif what == "r":
        for x in ("r1", "r2"):
            o[x] = {**o[x], "d": [v * f for v in o[x]["d"]]}
    else:
        o["k"][what] = o["k"].get(what, 1e-5) * f
    return o


class Runner:
    def __init__(self, spec):
        self.spec = spec
        self.anom = []
        self.records = {}
        self.nested = []
        self.forks = []
        self.fired = {}
        self.log = base.Log()
        self.locs = set()
        self.kept = []
        self.live = []  # arrays callers own: (label, array, bytes)
        self.cap = int(spec.get("cap", 2_000_000))
        self.sim = sched.Sim(self.cap, spec.get("gran", "op"), self.log)
        self.sim.on_stop = self.on_stop
        self.sim.quantum = spec.get("quantum", 0)
        self.pool = {k: ops.build_array(v) for k, v in spec.get("pool", {}).items()}
        self.watch = [(f"pool:{k}", a, _bytes(a)) for k, a in self.pool.items()]
        self.injected = {}
        self.stops = {}
        for n, i, s, act, arg in spec.get("stops", ()):
            self.stops.setdefault((n, i), {}).setdefault(s, []).append((act, arg))
        self.observe = spec.get("observe", 0)
        self.glimpses = 0
        self.base_state = None
        self.fullstate = bool(spec.get("state"))

    def hit(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- stops ---------------------------------------------------------------
    def arm(self, th):
        d = self.stops.get((th.idx, th.op), {})
        th.stops = sorted(d)
        self.next(th)

    def next(self, th):
        q = self.sim.quantum
        nxt = None
        while th.stops and th.stops[0] <= th.steps:
            th.stops.pop(0)
        if th.stops:
            nxt = th.stops[0]
        if q:
            at = (th.steps // q + 1) * q
            nxt = at if nxt is None else min(nxt, at)
        th.next_stop = nxt if nxt is not None else -1

    def on_stop(self, th, code, off):
        acts = self.stops.get((th.idx, th.op), {}).get(th.steps, ())
        step = th.steps
        where = f"{info(code).name}+{off}"
        exc = None
        pre = None
        for act, arg in acts:
            if act == "pre":
                pre = arg if arg is not None else -1
            elif act == "obs":
                self.look(th, where)
            elif act == "nest":
                self.nest(th, arg, where)
            elif act == "fork":
                self.fork(th, arg, where)
            elif act == "intr":
                exc = INTR[arg]()
                self.hit(f"interrupt:{arg}")
                self.injected[(th.idx, th.op)] = (exc, where)
                self.log.add("interrupt", th.idx, th.op, step, where, arg)
            self.locs.add(where)
        th.stops = [s for s in th.stops if s > step]
        self.next(th)
        q = self.sim.quantum
        if pre is not None or (q and step % q == 0):
            if len(self.sim.runnable()) > 1:
                self.hit("preemption")
                self.locs.add(where)
                self.sim.yield_to(th, pre if pre is not None and pre >= 0 else None)
        if exc is not None:
            raise exc

    def nest(self, th, op, where):
        """A signal handler, callback or finaliser that itself calls a solver."""
        saved = th.steps, th.op, th.stops, th.next_stop
        r1, r2 = ops.build_array(op["r1"]), ops.build_array(op["r2"])
        self.log.add("nested", th.idx, th.op, saved[0], where, op["s"])
        try:
            rec = _one(self.sim, th, op, r1, r2, {}, mute=True)
        finally:
            th.mute = False
            th.steps, th.op, th.stops, th.next_stop = saved
        self.hit("nested-call")
        self.nested.append((th.idx, th.op, saved[0], op, rec["out"]))
        self.log.add("nested-return", base.sha(rec["out"]))

    def fork(self, th, spec, where):
        """The process forks here; the child is a worker that solves problems."""
        busy = sum(t is not th and t.state != "done" and t.steps > 0 and t.op >= 0 and not t.idle for t in self.sim.threads) + (where is not None)
        self.log.add("fork", th.idx, th.op, th.steps, where)

        def child():
            clocks.CURRENT.clear()
            services.STATE.clear()
            return Runner(spec).run()

        PATIENCE[0] *= 0.5
        st, val = in_fork(child, PATIENCE[0])
        PATIENCE[0] *= 2
        if st == "error":
            raise RuntimeError("forked worker: " + str(val))
        self.hit("fork-mid-call" if busy else "fork-between-calls")
        self.forks.append((th.idx, th.op, spec, st, val, busy))
        self.log.add("worker", st, val["digest"] if st == "ok" else None)

    def look(self, th, where, full=True):
        """Observer: what another thread would see at this instant."""
        self.glimpses += 1
        for label, a, b in self.watch:
            if _bytes(a) != b:
                self.bad("input-mutated", th, f"argument {label} differs while the call runs, at {where}")
                self.watch = [(l, x, _bytes(x)) for l, x, _ in self.watch]
                break
        if full and self.base_state is not None:
            d = state.diff(self.base_state, state.cheap())
            if d:
                self.bad("state-changed", th, f"process-wide state differs while the call runs, at {where}: {d[0]}")
                self.base_state = state.cheap()

    def bad(self, kind, th, text):
        self.anom.append({"kind": kind, "node": th.idx if th else None, "op": th.op if th else None, "text": text})

    # -- nodes -----------------------------------------------------------------
    def node(self, n, items):
        sim = self.sim
        init = self.spec.get("init")

        def body():
            th = sched.me()
            if init:
                initial_thread(init)
            for i, it in enumerate(items):
                th.op, th.steps = i, 0
                th.stops, th.next_stop = [], -1
                if "c" in it:
                    self.control(th, n, it)
                    continue
                th.idle = False
                self.one(th, n, i, it)
                th.idle = True

        return body

    def arrays(self, it):
        out = []
        for f in ("r1", "r2"):
            a = self.pool[it[f]["p"]] if "p" in it[f] else ops.build_array(it[f])
            out.append(a)
        return out

    def one(self, th, n, i, it):
        sim = self.sim
        r1, r2 = self.arrays(it)
        before = [("r1", r1, _bytes(r1)), ("r2", r2, _bytes(r2))]
        mine = [w for w in before if not any(w[1] is x for _, x, _ in self.watch)]
        self.watch = self.watch + mine
        self.arm(th)
        self.log.add("invoke", n, i, it["s"])
        st = None
        if self.fullstate:
            st = state.full()
            self.base_state = {k: st[k] for k in state.cheap()}
            out0 = _stdio_size()
            state.EVENTS.clear()
            nthreads = threading.active_count()
            state.audit(True)
        plan = self.spec.get("svc", {}).get(f"{n},{i}", {})
        rec = _one(sim, th, it, r1, r2, plan)
        if self.fullstate:
            state.audit(False)
            for d in state.diff(st, state.full()):
                self.bad("state-changed", th, f"after the call: {d}")
            for e in state.EVENTS[:3]:
                self.bad("side-effect", th, e)
            if _stdio_size() != out0:
                self.bad("side-effect", th, "wrote to standard output or standard error")
            extra = [t for t in sim.threads if t.child and t.state != "done"]
            if extra:
                self.bad("side-effect", th, f"{len(extra)} thread(s) left behind")
            self.base_state = None
        for label, a, b in before:
            if _bytes(a) != b:
                self.bad("input-mutated", th, f"argument {label} changed by the call")
        self.watch = [w for w in self.watch if not any(w is m for m in mine)]
        res = rec["res"]
        arrs = [x for x in (res if isinstance(res, tuple) else (res,)) if isinstance(x, np.ndarray)]
        for a in arrs:
            for label, b, _ in before + self.watch:
                if isinstance(b, np.ndarray) and np.shares_memory(a, b):
                    self.bad("alias", th, f"a returned array shares memory with argument {label}")
            for b in arrs:
                if b is not a and np.shares_memory(a, b):
                    self.bad("alias", th, "the two returned arrays share memory")
                    break
            for (kn, ki), old, _ in self.kept:
                if any(np.shares_memory(a, o) for o in old):
                    self.bad("alias", th, f"a returned array shares memory with the result of op {kn}.{ki}")
        if arrs:
            self.kept.append(((n, i), arrs, ops.enc(tuple(arrs))))
        for k in rec["svc_fired"]:
            self.hit(f"service:{k}")
        inj = self.injected.get((n, i))
        same = None
        if inj is not None:
            same = rec["exc"] is inj[0]
        self.records[(n, i)] = {
            "out": rec["out"], "steps": rec["steps"], "same": same, "at": inj[1] if inj else None,
            "reads": rec["reads"], "elapsed": rec["elapsed"], "svc": len(rec["svc"]), "svc_fired": rec["svc_fired"],
            "wall": rec["wall"], "jumps": rec["jumps"], "t": rec["t"],
        }
        self.log.add("return", n, i, rec["steps"], base.sha(rec["out"]))
        rec["exc"] = None

    def control(self, th, n, it):
        c = it["c"]
        if c == "poke":
            a = self.pool[it["a"]]
            a[...] = np.array(it["d"], dtype=a.dtype)
            self.watch = [(l, x, _bytes(x)) for l, x, _ in self.watch]
            self.hit("array-reuse")
        elif c == "seed":
            random.seed(it["v"])
            np.random.seed(it["v"])
            self.hit("reseed")
        elif c == "scribble":  # the caller overwrites results it was given
            for _, arrs, _ in self.kept:
                for a in arrs:
                    if a.flags.writeable:
                        a[...] = 1e300
            self.kept = [(k, arrs, ops.enc(tuple(arrs))) for k, arrs, _ in self.kept]
            self.hit("results-overwritten")
        elif c == "drop":
            self.verify_kept(th)
            self.kept = []
            gc.collect()
            self.hit("gc")
        elif c == "fork":
            self.fork(th, it["spec"], None)
        elif c == "yield":
            self.sim.yield_to(th, it.get("t"))
        elif c == "burst":  # many calls in a row; only side effects matter here
            lo, hi = it["range"]
            for j in range(lo, hi):
                o = it["ops"][j % len(it["ops"])]
                if "drift" in it:
                    o = drifted(o, it.get("of", "tof"), it["drift"] * j)
                r1, r2 = ops.build_array(o["r1"]), ops.build_array(o["r2"])
                _one(self.sim, th, o, r1, r2, {}, mute=True)
                self.hit("burst-call")
        elif c == "env":
            np.seterr(**it["v"])
        self.log.add("control", n, c)

    def verify_kept(self, th):
        for k, arrs, e in self.kept:
            if ops.enc(tuple(arrs)) != e:
                self.bad("result-changed", th, f"the result of op {k[0]}.{k[1]} changed after it was returned")

    def run(self):
        spec = self.spec
        _seed_globals(spec.get("rng", 7))
        PRANGE_SEED[0] = spec.get("prange")
        if spec.get("init"):
            initial(spec["init"])
        if self.fullstate:
            _stdio_capture()
        if self.observe:
            q = self.observe
            sim = self.sim

            def on_step(th, code, off):
                if th.steps % q == 0:
                    self.look(th, f"{info(code).name}+{off}", False)

            sim.on_step = on_step
        for n, items in enumerate(spec["nodes"]):
            self.sim.add(self.node(n, items))
        if spec.get("gran", "op") != "op":
            sched.instrument(spec["gran"])
        failure = self.sim.run(spec.get("first", 0))
        if failure and failure[0] == "harness":
            raise RuntimeError(failure[1])
        if not failure:
            self.verify_kept(None)
        return {
            "records": self.records, "nested": self.nested, "forks": self.forks, "anom": self.anom, "failure": failure,
            "digest": self.log.digest(), "events": self.log.events, "nev": self.log.n, "fired": self.fired, "switches": self.sim.switches,
            "steps": self.sim.steps, "locs": sorted(self.locs), "glimpses": self.glimpses,
            "vtime": self.sim.vtime + sum(r["t"] for r in self.records.values()),
        }


class GrowthRunner(Runner):
    """A long history of one kind of event, with the process's size taken three times."""

    def control(self, th, n, it):
        if it["c"] != "grow":
            return super().control(th, n, it)
        todo, sizes, outs = it["ops"], [], set()
        self.log.keep = 60
        for part, count in enumerate((it["warm"], it["n"], it["n"])):
            for j in range(count):
                k = part * it["warm"] + max(0, part - 1) * it["n"] + j
                o = todo[k % len(todo)]
                if it.get("drift"):
                    o = drifted(o, it["drift"], 1e-7 * (k + 1))
                th.op, th.steps, th.stops, th.next_stop = k, 0, [], -1
                stop = it["at"][k % len(it["at"])] if it.get("at") else None
                if stop is not None:
                    self.stops = {(th.idx, k): {stop[0]: [("intr", stop[1])]}}
                    self.arm(th)
                plan = {str(it["svc"][0]): it["svc"][1]} if it.get("svc") else {}
                if it.get("thread"):
                    t = threading.Thread(target=self.once, args=(o, plan, None))
                    t.start()
                    t.join()
                    t = None
                    self.sim.threads = [x for x in self.sim.threads if not x.child or x.state != "done"]
                else:
                    self.once(o, plan, th)
                self.injected.clear()
                if k % 128 == 0:
                    gc.collect()
            sizes.append(self.size())
        self.sizes = sizes
        self.hit("long-history-call", it["warm"] + 2 * it["n"])

    def once(self, o, plan, th):
        r1, r2 = self.pair(o)
        t = sched.me()
        rec = _one(self.sim, t, o, r1, r2, plan, mute=th is None or t.next_stop < 0)
        for k in rec["svc_fired"]:
            self.hit(f"service:{k}")
        self.log.add("call", rec["out"][0], base.sha(rec["out"]))

    def pair(self, o):
        """New arrays for every call, or (a buffer reused) the same ones, refilled."""
        if not self.spec.get("keep"):
            return ops.build_array(o["r1"]), ops.build_array(o["r2"])
        out = []
        for f in ("r1", "r2"):
            s = o[f]
            key = (f, s.get("t", "f8"), s.get("l", "c"), len(s["d"]))
            a = self.buffers.get(key)
            if a is None:
                a = self.buffers[key] = ops.build_array(s)
            elif isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = s["d"]
            elif isinstance(a, list):
                a[:] = s["d"]
            else:
                a = ops.build_array(s)
            out.append(a)
        return out

    def size(self):
        sys._clear_type_cache()  # it holds the names looked up by C code, up to 4096 of them
        gc.collect()
        return {"blocks": sys.getallocatedblocks(), "objects": len(gc.get_objects()), "descriptors": len(os.listdir("/proc/self/fd")),
                "threads": sum(t.child and t.state != "done" for t in self.sim.threads)}

    def run(self):
        self.sizes, self.buffers = [], {}
        res = super().run()
        res["sizes"] = self.sizes
        return res


_STDIO = []


def _stdio_capture():
    for fd in (1, 2):
        m = os.memfd_create(f"std{fd}")
        os.dup2(m, fd)
        os.close(m)
    _STDIO.append(1)


def _stdio_size():
    for f in (sys.stdout, sys.stderr):
        try:
            f.flush()
        except Exception:
            pass
    return tuple(os.fstat(fd).st_size for fd in (1, 2))


def execute(spec, timeout=60.0):
    """Run a spec in a fork of this pristine process."""

    def go():
        PATIENCE[0] = timeout
        return (GrowthRunner if spec.get("grow") else Runner)(spec).run()

    return in_fork(go, timeout)
