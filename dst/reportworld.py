"""A simulated CI host: one file system, report-generator processes, people.

A history is a list of steps (runs, human edits, artifact deliveries, time).
Each run step starts one or several processes executing the real script; a
fault-free shadow of each process, on a copy of the disk, tells how many system
calls it makes and what it would publish.
"""

import copy
import gc
import io
import json
import os
import random
import sys
import time

from . import base, clocks, sched, simfs

SCRIPT = os.path.join(base.REPO, "scripts", "generate_benchmark_report.py")
CODE = None
HOME = "/srv/sim/repo"
README = HOME + "/README.md"
START = "<!-- performance-comparison:start -->"
END = "<!-- performance-comparison:end -->"
_LEGAL = {}


def boot():
    """Install the seams and compile the script; it runs once per process."""
    global CODE
    import argparse, datetime, fcntl, glob, pathlib, re, shutil, tempfile, uuid, secrets, string, contextlib, functools, itertools, collections, textwrap, statistics, subprocess, errno  # noqa: F401,E401
    import _strptime  # noqa: F401

    clocks.install()
    clocks.install_formatting()
    sched.install()
    simfs.install()
    sys.path.insert(0, os.path.dirname(SCRIPT))
    with simfs.REAL["io.open"](SCRIPT, "rb") as f:
        src = f.read()
    CODE = compile(src, SCRIPT, "exec", dont_inherit=True)
    _find_code()
    sched.instrument("op")
    sys.argv = Argv()
    # the first reference fills caches of re, argparse and friends
    Runner({"readme": "x\n", "arts": {}, "steps": [{"op": "run", "procs": [{}]}]}).run()


def _find_code():
    import dis
    import types

    out = {}

    def walk(co):
        out[co] = {}
        legal = set()
        prev = None
        for ins in dis.get_instructions(co, show_caches=False):
            if ins.opname in ("RESUME", "JUMP_BACKWARD") or prev in ("CALL", "CALL_FUNCTION_EX"):
                legal.add(ins.offset)
            prev = ins.opname
        _LEGAL[co] = legal
        for k in co.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    walk(CODE)
    sched.CODES[:] = list(out.items())


class Argv(list):
    """sys.argv of whichever simulated process asks."""

    def _v(self):
        p = simfs.me()
        return p.argv if p is not None else ["dst"]

    def __getitem__(self, i):
        return self._v()[i]

    def __iter__(self):
        return iter(self._v())

    def __len__(self):
        return len(self._v())


def legal(code):
    return _LEGAL.get(code, ())


INTR = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": lambda: SystemExit(143), "MemoryError": MemoryError}


def artifact(doc):
    """The JSON pytest-benchmark writes, from a compact description."""
    if "raw" in doc:
        return doc["raw"].encode("utf-8", "surrogateescape")
    out = {
        "machine_info": {"node": doc.get("host", "runner"), "processor": "x86_64", "machine": "x86_64", "python_implementation": "CPython", "python_version": doc.get("py", "3.12.3"),
                         "system": doc.get("os", "Linux"), "cpu": {"arch": "X86_64", "brand_raw": doc.get("cpu", "AMD EPYC 7763 64-Core Processor"), "count": 4}},
        "commit_info": {"id": doc.get("commit", "a3af78b1af9a0000000000000000000000000000"), "dirty": False, "branch": "main"},
        "benchmarks": [],
        "datetime": doc.get("when", "2026-06-14T15:40:11.123456+00:00"), "version": "5.2.3",
    }
    if doc.get("pad"):
        out["machine_info"]["flags"] = ["sse2"] * doc["pad"]
    for b in doc["bench"]:
        group, name, M, pro, low, solver, median, mean, iqr, rounds = b[:10]
        e = {
            "group": group, "name": f"test_{group}[{solver}-{name}]", "fullname": f"tests/test_benchmarks.py::test_{group}[{solver}-{name}]",
            "params": {"case": {"name": name, "M": M, "is_prograde": pro, "is_low_path": low, "mu": 398600.4418, "tof": 3600.0},
                       "solver": f"CPUDispatcher(<function {solver} at 0x7f2a{abs(hash_(solver)) % 0xffff:04x}>)" if rounds % 2 else f"<function {solver} at 0x7f1b4c0d{rounds % 10000:04d}>"},
            "param": f"{solver}-{name}", "extra_info": {}, "options": {"disable_gc": True, "timer": "perf_counter", "min_rounds": 5, "warmup": True},
            "stats": {"min": median * 0.9, "max": mean * 3, "mean": mean, "stddev": iqr * 2, "rounds": rounds, "median": median, "iqr": iqr, "q1": median - iqr / 2, "q3": median + iqr / 2,
                      "iqr_outliers": 3, "stddev_outliers": 2, "outliers": "2;3", "ld15iqr": median * 0.9, "hd15iqr": mean * 2, "ops": 1e6, "total": mean * rounds, "iterations": 1},
        }
        for k in b[10:]:  # a field this entry lost
            _drop(e, k)
        out["benchmarks"].append(e)
    return json.dumps(out, indent=4, ensure_ascii=doc.get("ascii", True)).encode()


def hash_(s):
    return int(base.sha(s)[:8], 16)


def _drop(e, path):
    *head, last = path.split(".")
    for h in head:
        e = e[h]
    e.pop(last, None)


class World:
    def __init__(self, disk, log, seed):
        self.disk, self.log = disk, log
        self.rng = random.Random(seed)
        self.outside = []
        self.procs = []
        self.sim = None
        self.pre = {}
        self.crash = None
        self.env = {}
        self.powered = True
        self.transitions = []
        self.readme = disk.get(README)
        self.kills = []
        self.switched = 0
        self.intr_fired = []
        self.env_done = []

    def changed(self, p):
        c = self.disk.get(README)
        if c != self.readme:
            self.readme = c
            self.transitions.append([p.idx, p.n - 1, c])
            self.log.add("readme", p.idx, p.n - 1, base.sha(c.hex() if c is not None else None))

    def kill(self, p):
        p.die()
        self.kills.append(p.idx)

    def unlock(self, node):
        node.locked = None
        if self.sim is not None:
            self.sim.wake(node)

    def before(self, p, k, name):
        for act in self.env.pop((p.idx, k), ()):
            self.act(act)
        c = self.crash
        if c is not None and c["node"] == p.idx and c["k"] == k:
            self.crash = None
            if c["kind"] == "kill":
                p.fired.append(f"kill:{name}")
                self.kill(p)
            else:
                p.fired.append(f"power:{name}")
                self.powered = False
                for q in self.procs:
                    if not q.dead:
                        self.kill(q)
            self.log.add("crash", p.idx, k, c["kind"])
            raise simfs.SimKill
        i = p.intr
        if i is not None and i.get("sys") == k and not i.get("late"):
            self.interrupt(p, name)
        t = self.pre.get((p.idx, k))
        if t is not None and len(self.sim.runnable()) > 1:
            self.switched += 1
            self.sim.yield_to(sched.me(), t)

    def after(self, p, k):
        i = p.intr
        if i is not None and i.get("sys") == k and i.get("late"):
            self.interrupt(p, "late")

    def interrupt(self, p, name):
        i = p.intr
        p.intr = None
        p.fired.append(f"interrupt:{i['kind']}")
        self.intr_fired.append([p.idx, p.n, name])
        p.fired_at.append(p.n - 1)
        self.log.add("interrupt", p.idx, p.n, i["kind"])
        raise INTR[i["kind"]]()

    def act(self, a):
        """Somebody else touches the artifacts while a run is reading them."""
        path = a["path"]
        n = self.disk.node(path)
        self.log.add("env", a["do"], path)
        self.env_done.append(a)
        if a["do"] == "delete" and n is not None:
            self.disk.remove(path)
        elif a["do"] == "truncate" and n is not None:
            del n.data[int(a["f"] * max(0, len(bytes(n.data).rstrip()) - 1)):]
        elif a["do"] == "zero" and n is not None:
            at = int(a["f"] * max(0, len(n.data) - 1))
            n.data[at:] = b"\0" * (len(n.data) - at)
        elif a["do"] == "add":
            self.disk.put(path, artifact(a["doc"]))


class Runner:
    def __init__(self, spec):
        self.spec = spec
        self.log = base.Log()
        self.disk = simfs.Disk(spec.get("seed", 0))
        self.fired = {}
        self.out = []
        self.steps = 0
        self.calls = 0
        self.vtime = 0.0
        self.now = 1_781_000_000.0 + spec.get("t0", 0.0)
        self.switches = 0
        self.inter = []

    def hit(self, k, n=1):
        self.fired[k] = self.fired.get(k, 0) + n

    def setup(self):
        s = self.spec
        d = self.disk
        d.mkdirs(HOME + "/.benchmarks")
        d.mkdirs(HOME + "/docs")
        rd = s.get("readme")
        if rd is not None:
            data = rd.encode("utf-8", "surrogateescape")
            if s.get("link"):
                d.put(HOME + "/docs/index.md", data, s.get("mode", 0o644))
                d.symlink("docs/index.md", README)
            else:
                d.put(README, data, s.get("mode", 0o644))
        self.deliver(s.get("arts", {}))
        d.put(HOME + "/pyproject.toml", b"[project]\n")

    def deliver(self, arts):
        for name, doc in arts.items():
            if "/" not in name:
                path = f"{HOME}/.benchmarks/{name}"
            else:
                path = f"{HOME}/{name}"
                self.disk.mkdirs(path.rsplit("/", 1)[0])
            if doc is None:
                self.disk.remove(path)
            elif doc.get("dir"):
                self.disk.mkdirs(path)
            else:
                self.disk.put(path, artifact(doc), mtime=doc.get("mtime"))

    # -- one group of overlapping processes --------------------------------------
    def group(self, disk, procs, plan, shadow):
        """Run processes to completion (or death) on `disk`."""
        w = World(disk, base.Log() if shadow else self.log, self.spec.get("seed", 0) + len(self.out))
        simfs.WORLD = w
        sim = sched.Sim(3_000_000, "op", w.log)
        w.sim = sim
        res = []
        for idx, ps in enumerate(procs):
            p = simfs.Proc(w, idx, ps)
            w.procs.append(p)
            res.append({"exit": None, "err": None, "calls": p.calls, "fired": p.fired, "fired_at": p.fired_at, "scans": p.scans, "ins": 0, "dead": False})
        w.pre = {(n, k): t for n, k, t in plan.get("pre", ())}
        w.crash = plan.get("crash")
        for e in plan.get("env", ()):
            w.env.setdefault((e["node"], e["k"]), []).append(e)
        if plan.get("free") is not None:
            disk.free = plan["free"]

        def on_step(th, code, off):
            p = th.proc
            i = p.intr
            if i is not None and "ins" in i and th.steps >= i["ins"] and off in legal(code) and not p.dead:
                w.interrupt(p, f"{code.co_qualname}+{off}")

        if any("intr" in ps for ps in procs):
            sim.on_step = on_step
        for idx, p in enumerate(w.procs):
            p.intr = procs[idx].get("intr")
            th = sim.add(self.body(p, procs[idx], res[idx], plan))
            th.proc = p
        failure = sim.run(plan.get("first", 0))
        for k in sorted(w.env):  # what the run did not live to see happens anyway
            for a in w.env[k]:
                w.act(a)
        simfs.WORLD = None
        disk.free = None
        if failure and failure[0] == "harness":
            raise RuntimeError(failure[1])
        for r, th, p in zip(res, sim.threads, w.procs):
            r["ins"], r["dead"], r["n"] = th.total, p.dead, p.n
            self.steps += 0 if shadow else th.total
            self.calls += 0 if shadow else p.n
            if not shadow:
                for f in p.fired:
                    self.hit(f.split(":")[0] + ":" + f.split(":")[1] if ":" in f else f)
        self.switches += 0 if shadow else w.switched
        if w.outside and not shadow:
            self.log.add("outside", w.outside[:5])
        return w, res, failure

    def body(self, p, ps, r, plan):
        def go():
            th = sched.me()
            ident = th.ident
            clk = clocks.SimClock({"mode": ps.get("clock", "fine"), "seed": ps.get("cseed", 1), "base": 50.0})
            clk.wall_off = plan["now"] + ps.get("dt", 0)
            clocks.CURRENT[ident] = clk
            g = {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": __builtins__, "__doc__": None}
            try:
                try:
                    th.mute = False
                    try:
                        exec(CODE, g)
                        code = 0
                    finally:
                        th.mute = True
                        th.total = th.steps
                except simfs.SimKill:
                    code = "killed"
                except sched.SimAbort:
                    raise
                except SystemExit as e:
                    code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                    _strip(e)
                except BaseException as e:
                    code = 1
                    r["err"] = f"{type(e).__name__}: {e}"
                    _strip(e)
                # interpreter exit: open files are flushed and closed, if it can
                g.clear()
                gc.collect()
                if p.dead:
                    code = "killed"
                r["exit"] = code
                p.world.log.add("exit", p.idx, code)
            finally:
                r["vt"] = clk.t
                clocks.CURRENT.pop(ident, None)

        return go

    def run_step(self, st):
        before = self.disk.get(README)
        tree = self.tree()
        tz = st.get("tz", "UTC")
        os.environ["TZ"] = tz
        time.tzset()
        procs = [dict(p) for p in st["procs"]]
        now = self.now
        # what each process alone, undisturbed, would publish
        shadows = []
        for ps in procs:
            q = {k: v for k, v in ps.items() if k in ("cwd", "argv", "pid", "order", "clock", "cseed", "dt", "enc")}
            d = copy.deepcopy(self.disk)
            w, r, f = self.group(d, [q], {"now": now}, True)
            shadows.append({"exit": r[0]["exit"], "err": r[0]["err"], "readme": d.get(README), "calls": r[0]["calls"], "ins": r[0]["ins"], "transitions": [t[2] for t in w.transitions],
                            "first": next((t[1] for t in w.transitions), None), "failure": f})
        canon = None
        if st.get("canon"):
            # the section these artifacts yield in a README of one line
            d = copy.deepcopy(self.disk)
            d.put(README, b"x\n")
            w, r, f = self.group(d, [{}], {"now": now}, True)
            canon = d.get(README) if r[0]["exit"] == 0 else None
        plan = self.place(st, procs, shadows)
        plan["now"] = now
        w, res, failure = self.group(self.disk, procs, plan, False)
        power = None
        if not w.powered:
            power = self.disk.power_loss(random.Random(st.get("loss", 1)))
            self.log.add("power-loss", power)
        elif st.get("later"):
            # the machine loses power some time after the run
            power = self.disk.power_loss(random.Random(st["later"]))
            self.hit("power:after-run")
            self.log.add("power-loss", power)
        after = self.disk.get(README)
        self.vtime += max(r.get("vt") or 0.0 for r in res)
        self.inter.append([p for p in plan.get("pre", ())])
        self.inter.append([r["fired"] for r in res])
        rec = {
            "op": "run", "before": before, "after": after, "shadows": [{k: s[k] for k in ("exit", "err", "readme", "transitions", "first", "failure")} for s in shadows],
            "procs": [{k: r[k] for k in ("exit", "err", "fired", "fired_at", "scans", "dead", "n")} for r in res], "transitions": w.transitions, "power": power, "failure": failure,
            "outside": w.outside, "new_files": sorted(set(self.tree()) - set(tree)), "mode": (self.disk.node(README).mode if self.disk.node(README) else None),
            "link": (self.disk.node(README, False).kind if self.disk.node(README, False) else None), "env": w.env_done, "intr": w.intr_fired, "kills": w.kills,
            "calls": [s["calls"] for s in shadows], "now": now, "canon": canon,
        }
        self.log.add("step", rec["procs"][0]["exit"], base.sha(after.hex() if after is not None else None))
        return rec

    def tree(self):
        """Path -> inode number of every file in the work tree and /tmp."""
        out = {}

        def visit(n, at):
            for k, c in n.entries.items():
                out[at + "/" + k] = c.ino
                if c.kind == "d":
                    visit(c, at + "/" + k)
        for r in simfs.ROOTS:
            visit(self.disk.roots[r], r)
        return out

    def place(self, st, procs, shadows):
        """Turn relative positions into system-call numbers."""
        plan = {"pre": [], "env": []}

        def at(sel, n):
            calls = shadows[n]["calls"]
            m = max(1, len(calls))
            if sel[0] == "abs":
                return sel[1]
            if sel[0] == "pos":
                return int(sel[1] * m)
            if sel[0] == "tail":  # around and after the last read
                reads = [i for i, c in enumerate(calls) if c == "read"]
                lo = max(0, (reads[-1] if reads else 0) - 6)
                return lo + int(sel[1] * (m - lo))
            if sel[0] == "head":
                return int(sel[1] * m * 0.6)
            names = sorted(set(calls)) or ["open"]
            nm = names[int(sel[1] * len(names))]
            idx = [i for i, c in enumerate(calls) if c == nm] or [0]
            return idx[int(sel[2] * len(idx))]

        for n, ps in enumerate(procs):
            calls = shadows[n]["calls"]
            faults = {}
            for f in ps.pop("fault", ()):
                k = at(f["sel"], n)
                nm = calls[k] if k < len(calls) else "write"
                g = dict(f)
                if f["kind"] in ("errno", "sticky") and "errno" not in f:
                    errs = simfs.errors_of(nm)
                    if not errs:
                        continue
                    g["errno"] = errs[int(f["e"] * len(errs))]
                if f["kind"] in ("short", "torn-kill") and "n" not in f:
                    g["n"] = 1 + int(f["e"] * 3000)
                faults[k] = g
            if faults:
                ps["faults"] = faults
            i = ps.get("intr")
            if i is not None:
                i = dict(i)
                if "sel" in i:
                    i["sys"] = at(i["sel"], n)
                elif "f" in i:
                    i["ins"] = int(i["f"] * shadows[n]["ins"])
                ps["intr"] = i
        for n, sel, t in st.get("pre", ()):
            if n < len(procs):
                plan["pre"].append([n, at(sel, n), t])
        c = st.get("crash")
        if c is not None and c["node"] < len(procs):
            plan["crash"] = {"kind": c["kind"], "node": c["node"], "k": at(c["sel"], c["node"])}
        for e in st.get("env", ()):
            if e["node"] < len(procs):
                plan["env"].append({**e, "k": at(e["sel"], e["node"])})
        if st.get("free") is not None:
            plan["free"] = st["free"]
        plan["first"] = min(st.get("first", 0), len(procs) - 1)
        return plan

    # -- people ------------------------------------------------------------------
    def edit_step(self, st):
        """A person edits the README outside the generated section."""
        cur = self.disk.get(README)
        text = cur.decode("utf-8", "surrogateescape") if cur is not None else ""
        a, b = text.find(START), text.find(END)
        if a >= 0 and b >= 0:
            parts = [text[:a], text[a : b + len(END)], text[b + len(END):]]
        else:
            parts = [text, "", ""]
        for e in st["edits"]:
            w = 2 if e["side"] and parts[1] else 0
            s = parts[w]
            k = int(e["at"] * (len(s) + 1))
            if e["do"] == "insert":
                parts[w] = s[:k] + e["text"] + s[k:]
            elif e["do"] == "append":
                parts[w] = s + e["text"]
            elif e["do"] == "prepend":
                parts[w] = e["text"] + s
            elif e["do"] == "delete":
                parts[w] = s[:k] + s[k + e["n"]:]
            elif e["do"] == "crlf":
                parts[w] = s.replace("\r\n", "\n").replace("\n", "\r\n")
            elif e["do"] == "strip":
                parts[w] = s.rstrip() if w == 0 else s.lstrip()
        new = "".join(parts).encode("utf-8", "surrogateescape")
        n = self.disk.node(README)
        if n is None:
            n = self.disk.put(README, b"")
        n.data = bytearray(new)
        n.durable, n.pending = bytes(new), []
        n.mtime = self.disk.tick()
        self.disk.sync_dirs()  # people edit long after the last run
        self.log.add("edit", base.sha(new.hex()))
        return {"op": "edit", "after": new}

    def run(self):
        with_stdio = sys.stdout, sys.stderr, sys.unraisablehook
        sys.stdout, sys.stderr = Terminal("strict"), Terminal("backslashreplace")
        sys.unraisablehook = lambda *_: None
        import tempfile

        tempfile._name_sequence = _Names(self.spec.get("seed", 0))
        tempfile.tempdir = "/tmp"
        random.seed(5)
        try:
            self.setup()
            for st in self.spec["steps"]:
                if st["op"] == "run":
                    self.out.append(self.run_step(st))
                elif st["op"] == "edit":
                    self.out.append(self.edit_step(st))
                elif st["op"] == "arts":
                    self.deliver(st["arts"])
                    self.out.append({"op": "arts"})
                elif st["op"] == "tick":
                    self.now += st["s"]
                    self.vtime += st["s"]
                    if st["s"] >= 60:
                        self.disk.sync_dirs()
                    self.out.append({"op": "tick"})
                elif st["op"] == "sync":
                    self.disk.sync_dirs()
                    self.out.append({"op": "sync"})
        finally:
            sys.stdout, sys.stderr, sys.unraisablehook = with_stdio
        locs = sorted({f"{n}:{c}" for r in self.out if r["op"] == "run" for q in r["procs"] for n in q["fired"] for c in ("",)})
        return {
            "records": self.out, "digest": self.log.digest(), "events": self.log.events, "fired": self.fired, "switches": self.switches, "steps": self.steps, "locs": locs,
            "vtime": self.vtime, "inter": base.sha([self.inter, [base.sha(r.get("after").hex()) if r.get("after") is not None else None for r in self.out]]),
            "extra": {"system_calls": self.calls, "runs_of_script": sum(len(r["procs"]) for r in self.out if r["op"] == "run")},
        }


def _strip(e):
    """Drop the traceback: its frames would keep files of the dead process open."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        nxt = e.__context__ or e.__cause__
        e.__context__ = e.__cause__ = None
        e = nxt


class Terminal:
    """Standard output of whichever simulated process asks, in its encoding."""

    def __init__(self, errors):
        self.errors = errors
        self.of = {}

    def __getattr__(self, name):
        p = simfs.me()
        if p is None:
            t = self.of.setdefault(None, io.StringIO())
        else:
            t = self.of.get(p)
            if t is None:
                t = self.of[p] = io.TextIOWrapper(io.BytesIO(), p.enc, self.errors, write_through=True)
        return getattr(t, name)


class _Names:
    def __init__(self, seed):
        self.r = random.Random(f"names{seed}")

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.r.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))
