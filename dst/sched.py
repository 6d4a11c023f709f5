"""Deterministic scheduler: real OS threads, parked and released one at a time.

Every thread of a simulated process waits on its own lock; exactly one is
released.  Who runs next is decided only by the run's explicit schedule: a
list of preemptions (node, op, step, target).  Steps are trace events inside
the package under test (bytecode instructions, or source lines).  Locks,
threads and queues created by the code under test are simulated too, so a
blocked thread is visible to the scheduler and a deadlock is an outcome, not
a hang.
"""

import _thread
import os
import queue as _queue
import sys
import threading as _threading

from . import base, clocks

real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
get_ident = _thread.get_ident

SIM = None  # the active simulation of this process
BYIDENT = {}  # ident -> SimThread


class SimAbort(BaseException):
    """Unwinds a simulated thread when its run is over."""


def me():
    return BYIDENT.get(get_ident())


class SimLock:
    """Lock/RLock whose contention is decided by the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _key(self):
        th = me()
        return th if th is not None else get_ident()

    def acquire(self, blocking=True, timeout=-1):
        key = self._key()
        while True:
            if self.owner is None:
                self.owner, self.count = key, 1
                if SIM is not None and SIM.on_lock is not None and isinstance(key, SimThread):
                    SIM.on_lock(key, self, True)
                return True
            if self.reentrant and self.owner is key or (
                self.reentrant and self.owner == key
            ):
                self.count += 1
                return True
            if not blocking:
                return False
            th = me()
            if SIM is None or th is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("lock held for ever outside a simulated thread")
            deadline = None
            if timeout is not None and timeout >= 0:
                deadline = SIM.vtime + timeout
            if not SIM.block(th, self, deadline):
                return False

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._key():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            if SIM is not None and SIM.on_lock is not None and isinstance(self.owner, SimThread):
                SIM.on_lock(self.owner, self, False)
            self.owner = None
            if SIM is not None:
                SIM.wake(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is not None and self.owner == self._key()

    # Condition support for re-entrant locks
    def _release_save(self):
        n, self.count = self.count, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def _recursion_count(self):
        return self.count if self._is_owned() else 0


class Deadlock(Exception):
    pass


def _mk_lock():
    return SimLock(False)


def _mk_rlock(*a, **k):
    return SimLock(True)


def _start_new_thread(fn, args=(), kwargs=None):
    if SIM is None or me() is None:
        return real_start_new_thread(fn, args, kwargs or {})
    return SIM.spawn(fn, args, kwargs or {})


def install():
    """Route locks and threads created from now on to the simulator."""
    _threading.Lock = _mk_lock
    _threading.RLock = _mk_rlock
    _threading._allocate_lock = _mk_lock
    _thread.allocate_lock = _mk_lock
    _thread.allocate = _mk_lock
    _threading._start_new_thread = _start_new_thread
    _thread.start_new_thread = _start_new_thread
    _queue.SimpleQueue = _queue._PySimpleQueue
    import concurrent.futures.thread as cft

    cft._global_shutdown_lock = SimLock(False)  # made before the seam existed


class SimThread:
    def __init__(self, sim, idx, fn, child=False):
        self.sim = sim
        self.idx = idx
        self.fn = fn
        self.child = child
        self.sem = real_allocate_lock()
        self.sem.acquire()
        self.state = "ready"  # ready | blocked | done
        self.waiting = None
        self.deadline = None
        self.timed_out = False
        self.op = -1
        self.steps = 0
        self.total = 0
        self.next_stop = -1
        self.stops = []
        self.mute = True
        self.idle = True
        self.ident = None


class Sim:
    """One simulated process with several threads."""

    def __init__(self, stepcap, gran="op", log=None):
        self.threads = []
        self.stepcap = stepcap
        self.gran = gran
        self.log = log if log is not None else base.Log()
        self.vtime = 0.0
        self.steps = 0  # global
        self.switches = 0
        self.done = real_allocate_lock()
        self.done.acquire()
        self.failure = None
        self.current = None
        self.on_stop = None  # callback(th, frame, stop) set by the runner
        self.on_step = None
        self.on_lock = None  # callback(th, lock, taken)
        self.order = []
        self.quantum = 0
        self.sched_trace = []

    # -- threads -----------------------------------------------------------
    def add(self, fn, child=False):
        th = SimThread(self, len(self.threads), fn, child)
        self.threads.append(th)
        return th

    def spawn(self, fn, args, kwargs):
        """A thread started by the code under test."""
        def body():
            fn(*args, **kwargs)
        th = self.add(body, child=True)
        self.log.add("spawn", th.idx)
        self._boot(th)
        return th.ident

    def _boot(self, th):
        started = real_allocate_lock()
        started.acquire()

        def main():
            th.ident = get_ident()
            BYIDENT[th.ident] = th
            started.release()
            th.sem.acquire()
            try:
                th.mute = False if th.child else th.mute
                th.fn()
            except SimAbort:
                pass
            except BaseException as e:  # harness error: report, never hide
                if th.child:
                    self.log.add("child-thread-exception", th.idx, type(e).__name__)
                elif self.failure is None:
                    import traceback
                    self.failure = ("harness", traceback.format_exc())
            finally:
                self.finish(th)

        real_start_new_thread(main, ())
        started.acquire()

    def run(self, first=0):
        global SIM
        SIM = self
        for th in list(self.threads):
            self._boot(th)
        self.current = self.threads[first]
        self.log.add("start", first)
        self.current.sem.release()
        self.done.acquire()
        SIM = None
        return self.failure

    def runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def _pick(self, after):
        """Next runnable thread in cyclic order after thread index `after`."""
        n = len(self.threads)
        for d in range(1, n + 1):
            t = self.threads[(after + d) % n]
            if t.state == "ready":
                return t
        return None

    def _go(self, nxt):
        self.switches += 1
        self.current = nxt
        nxt.sem.release()

    def switch(self, th, nxt):
        if nxt is th or nxt is None:
            return
        self.log.add("switch", th.idx, th.op, th.steps, nxt.idx)
        self._go(nxt)
        th.sem.acquire()
        if self.failure is not None:
            raise SimAbort

    def yield_to(self, th, target):
        t = None
        if target is not None and 0 <= target < len(self.threads):
            t = self.threads[target]
            if t.state != "ready":
                t = None
        if t is None:
            t = self._pick(th.idx)
        self.switch(th, t)

    def block(self, th, on, deadline):
        """Park th until `on` is released; False when its deadline passes."""
        th.state, th.waiting, th.deadline = "blocked", on, deadline
        th.timed_out = False
        self.log.add("block", th.idx)
        nxt = self._pick(th.idx) or self._expire()
        if nxt is None:
            self.fail("deadlock", f"thread {th.idx} waits for a lock nobody can release")
            raise SimAbort
        if nxt is not th:
            self._go(nxt)
            th.sem.acquire()
            if self.failure is not None:
                raise SimAbort
        return not th.timed_out

    def _expire(self):
        """Nothing can run: jump virtual time to the earliest deadline."""
        timed = [t for t in self.threads if t.state == "blocked" and t.deadline is not None]
        if not timed:
            return None
        t = min(timed, key=lambda t: (t.deadline, t.idx))
        self.vtime = max(self.vtime, t.deadline)
        t.state, t.waiting, t.deadline, t.timed_out = "ready", None, None, True
        return t

    def wake(self, on):
        for t in self.threads:
            if t.state == "blocked" and t.waiting is on:
                t.state, t.waiting, t.deadline = "ready", None, None

    def finish(self, th):
        th.state = "done"
        BYIDENT.pop(th.ident, None)
        if self.failure is not None:
            self._end()
            return
        if all(t.state == "done" for t in self.threads):
            self._end()
            return
        nxt = self._pick(th.idx) or self._expire()
        if nxt is None:
            if all(t.state == "done" or t.child for t in self.threads):
                self._end()  # only helper threads of the code are left, idle
                return
            self.fail("deadlock", "every remaining thread waits for a lock")
            return
        self.log.add("exit", th.idx, nxt.idx)
        self._go(nxt)

    def _end(self):
        try:
            self.done.release()
        except RuntimeError:
            pass

    def fail(self, kind, text):
        if self.failure is None:
            self.failure = (kind, text)
        self._end()


# -- instrumentation -----------------------------------------------------------
#
# sys.monitoring, not sys.settrace: switching per-thread tracing on while
# another thread is parked inside a trace callback crashes CPython 3.12.
# Events are configured before any simulated thread exists and never change
# during a run.  CPython delivers no events inside a callback, so a nested
# call made from one runs as a single step.

TOOL = 4
CODES = []  # (code, globals) of every function of the package


def _step(code, off):
    th = BYIDENT.get(get_ident())
    if th is None or th.mute:
        return
    sim = th.sim
    th.steps += 1
    sim.steps += 1
    if sim.on_step is not None:
        sim.on_step(th, code, off)
    if th.steps == th.next_stop:
        sim.on_stop(th, code, off)
    elif th.steps >= sim.stepcap:
        sim.fail("no-progress", f"thread {th.idx} op {th.op}: more than {sim.stepcap} steps")
        raise SimAbort


def survey():
    """Find every function of the package, without running any."""
    import gc
    import types

    seen = {}

    def walk(co, g):
        if co not in seen:
            seen[co] = g
            for k in co.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k, g)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(base.SRC):
            walk(o.__code__, o.__globals__)
    CODES[:] = sorted(seen.items(), key=lambda kv: (kv[0].co_filename, kv[0].co_firstlineno, kv[0].co_qualname))


def instrument(gran):
    m = sys.monitoring
    ev = {"op": m.events.INSTRUCTION, "line": m.events.LINE, "none": m.events.NO_EVENTS}[gran]
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "dst")
        m.register_callback(TOOL, m.events.INSTRUCTION, _step)
        m.register_callback(TOOL, m.events.LINE, _step)
    for co, _ in CODES:
        m.set_local_events(TOOL, co, ev)


def _after_fork():
    global SIM
    SIM = None
    BYIDENT.clear()


os.register_at_fork(after_in_child=_after_fork)
