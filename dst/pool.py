"""Coordinator: worker processes, run loop, shrinking, replay, evidence."""

import collections
import ctypes
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

from . import base

WORKERS = int(os.environ.get("DST_WORKERS", "8"))


def _no_aslr():
    """Same addresses every time, so even address-dependent bugs replay."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Worker:
    def __init__(self, prop, seed, tier, hashseed):
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LANG": "C.UTF-8",
            "NUMBA_DISABLE_JIT": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(hashseed), "PYTHONPATH": base.VERIF + os.pathsep + os.path.join(base.REPO, "src"),
            "LAMBERTHUB_REPO": base.REPO, "TZ": "UTC",
        }
        self.hashseed = hashseed
        self.p = subprocess.Popen(
            [base.PYTHON, "-s", "-m", "dst.worker", prop, str(seed), tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=base.VERIF, text=True, bufsize=1, preexec_fn=_no_aslr,
        )
        self.busy = None

    def read(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError(f"worker died (exit {self.p.poll()})")
        return json.loads(line)

    def send(self, req):
        self.busy = req
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()

    def ask(self, req):
        self.send(req)
        r = self.read()
        self.busy = None
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class Harness(Exception):
    pass


def fresh(prop, seed, tier, hashseed=0):
    w = Worker(prop, seed, tier, hashseed)
    w.read()
    return w


def spread(ws, reqs):
    """Hand requests out to whichever worker is free."""
    it = iter(reqs)
    live = {}
    sel = selectors.DefaultSelector()
    for w in ws:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        r = next(it, None)
        if r is not None:
            w.send(r)
            live[w] = r
    while live:
        for key, _ in sel.select(timeout=600):
            w = key.data
            x = w.read()
            if "error" in x:
                raise Harness(x["error"])
            live.pop(w, None)
            r = next(it, None)
            if r is not None:
                w.send(r)
                live[w] = r
    sel.close()


def run_batch(prop, seed, tier, total, deadline, workers=None, every_twice=0, stop_on_violation=True, want=None, tasks=()):
    """Execute runs 0..total-1; returns results by index."""
    n = workers or WORKERS
    ws = [Worker(prop, seed, tier, 11 * k + 1) for k in range(n)]
    for w in ws:
        w.read()
    if tasks:
        # the workload catalogue and its reference outcomes, shared out
        tmp = tempfile.mkdtemp(prefix="dst-")
        try:
            files = [os.path.join(tmp, f"{k}.pkl") for k in range(n)]
            spread(ws, [{"cmd": "warm", "args": t} for t in tasks])
            for k, w in enumerate(ws):
                w.send({"cmd": "dump", "args": [files[k]]})
            for w in ws:
                w.read()
            for w in ws:
                w.send({"cmd": "load", "files": files})
            for w in ws:
                w.read()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sel = selectors.DefaultSelector()
    results = {}
    it = iter(range(total))
    stop = False
    live = 0

    def feed(w):
        nonlocal live, stop
        if stop or (deadline and time.monotonic() > deadline):
            stop = True
            return False
        i = next(it, None)
        if i is None:
            return False
        req = {"cmd": "run", "i": i}
        if every_twice and i % every_twice == 0:
            req["twice"] = True
        if want and i in want:
            req["spec_back"] = True
            req["events"] = True
        w.send(req)
        live += 1
        return True

    for w in ws:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        feed(w)
    try:
        while live:
            for key, _ in sel.select(timeout=600):
                w = key.data
                r = w.read()
                live -= 1
                w.busy = None
                if "error" in r:
                    raise Harness(r["error"])
                r["hashseed"] = w.hashseed
                results[r["i"]] = r
                if r["violations"] and stop_on_violation:
                    stop = True
                feed(w)
    finally:
        for w in ws:
            w.close()
    return results


def shrink(prop_obj, prop, seed, tier, spec, cls, hashseed, limit_s):
    """Greedy minimisation: keep any smaller spec that fails the same way."""
    end = time.monotonic() + limit_s
    w = fresh(prop, seed, tier, hashseed)
    tried = 0
    seen = set()
    try:
        best = spec
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for cand in prop_obj.shrinks(best):
                if time.monotonic() > end:
                    break
                k = base.canon(cand)
                if k in seen:
                    continue
                seen.add(k)
                tried += 1
                r = w.ask({"cmd": "exec", "spec": cand, **({"patience": [12.0, 0]} if cls == "hang" else {})})
                if "error" in r:
                    continue  # not a well-formed run
                if any(v["cls"] == cls for v in r["violations"]):
                    best = cand
                    progress = True
                    break
    finally:
        w.close()
    return best, tried
