"""Simulated clocks behind the time module.

Each simulated call owns a SimClock.  Code under test that asks the time
module for anything gets that clock; the harness keeps the real functions.
Nothing here reads a real clock or draws from a shared PRNG.
"""

import _thread
import datetime as _dt
import hashlib
import time as _time

REAL = {
    n: getattr(_time, n)
    for n in (
        "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
        "perf_counter_ns", "process_time", "process_time_ns", "thread_time",
        "thread_time_ns", "sleep", "localtime", "gmtime", "strftime", "ctime",
        "asctime",
    )
}
real_perf_counter = REAL["perf_counter"]

CURRENT = {}  # thread ident -> SimClock
DEFAULT = None  # clock of threads that have none


def _unit(seed, k):
    d = hashlib.blake2b(f"{seed}:{k}".encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2.0**64


class SimClock:
    """Monotonic time, plus a wall clock that may jump.

    mode   fine    every read advances a few microseconds
           coarse  as fine, but quantised to a 15.625 ms granule
           frozen  never advances
           stall   every read may be preceded by a stall of up to hours
           step    advances dt per executed instruction of the code under test
    """

    def __init__(self, spec, stepper=None):
        self.mode = spec.get("mode", "fine")
        self.seed = spec.get("seed", 0)
        self.scale = spec.get("scale", 1.0)
        self.base = spec.get("base", 1000.0)
        self.dt = spec.get("dt", 2.0**-20)
        self.jump = spec.get("jump", 0)
        self.stepper = stepper
        self.t = 0.0
        self.k = 0
        self.reads = []
        self.wall_reads = 0
        self.wall_off = 1.7e9
        self.jumps = 0

    def _advance(self):
        k = self.k
        self.k += 1
        m = self.mode
        if m == "frozen":
            return
        if m == "step":
            self.t = (self.stepper() if self.stepper else k) * self.dt
            return
        if m == "stall" and _unit(self.seed, ("s", k)) < 0.5:
            # power-of-two multiples keep scaled runs exactly comparable
            self.t += 2.0 ** int(_unit(self.seed, ("m", k)) * 24 - 8)
        self.t += (1 + int(_unit(self.seed, k) * 63)) * 2.0**-20

    def mono(self):
        self._advance()
        t = self.t
        if self.mode == "coarse":
            t = (t // 2.0**-6) * 2.0**-6
        v = self.base + t * self.scale
        self.reads.append(v)
        return v

    def cpu(self):
        # process CPU time: several busy threads make it outrun elapsed time
        self._advance()
        return 3.0 + self.t * self.scale * 4.0

    def tcpu(self):
        # thread CPU time: falls behind elapsed time while others run
        self._advance()
        return 1.0 + self.t * self.scale * 0.3125

    def wall(self):
        self._advance()
        self.wall_reads += 1
        if self.jump:
            u = _unit(self.seed, ("w", self.wall_reads))
            if u < 0.75:
                self.wall_off += (_unit(self.seed, ("x", self.wall_reads)) - 0.6) * 2e5
                self.jumps += 1
        return self.wall_off + self.t * self.scale

    def sleep(self, s):
        self.t += max(0.0, float(s))


def cur():
    c = CURRENT.get(_thread.get_ident())
    return c if c is not None else DEFAULT


def _mk(name, method, ns):
    real = REAL[name]

    def f():
        c = cur()
        if c is None:
            return real()
        v = getattr(c, method)()
        return int(v * 1e9) if ns else v

    f.__name__ = name
    return f


def _sleep(s):
    c = cur()
    if c is None:
        return REAL["sleep"](s)
    c.sleep(s)


def install():
    for name, method, ns in (
        ("perf_counter", "mono", 0), ("perf_counter_ns", "mono", 1),
        ("monotonic", "mono", 0), ("monotonic_ns", "mono", 1),
        ("time", "wall", 0), ("time_ns", "wall", 1),
        ("process_time", "cpu", 0), ("process_time_ns", "cpu", 1),
        ("thread_time", "tcpu", 0), ("thread_time_ns", "tcpu", 1),
    ):
        setattr(_time, name, _mk(name, method, ns))
    _time.sleep = _sleep
    _install_datetime()


class _Meta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL_DATETIME)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL_DATETIME)


REAL_DATETIME = _dt.datetime


class SimDatetime(REAL_DATETIME, metaclass=_Meta):
    """datetime whose notion of now is the simulated wall clock."""

    @classmethod
    def now(cls, tz=None):
        c = cur()
        if c is None:
            return REAL_DATETIME.now(tz)
        t = c.wall()
        if tz is None:
            off = getattr(c, "utc_offset", None)
            if off is None:  # the process's own time zone
                return REAL_DATETIME.fromtimestamp(t)
            return REAL_DATETIME.fromtimestamp(t + off, _dt.UTC).replace(tzinfo=None)
        return REAL_DATETIME.fromtimestamp(t, tz)

    @classmethod
    def utcnow(cls):
        c = cur()
        if c is None:
            return REAL_DATETIME.fromtimestamp(REAL["time"](), _dt.UTC).replace(tzinfo=None)
        return REAL_DATETIME.fromtimestamp(c.wall(), _dt.UTC).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _install_datetime():
    _dt.datetime = SimDatetime


def install_formatting():
    """time.localtime and friends: "now" is the simulated wall clock."""
    def wall():
        c = cur()
        return REAL["time"]() if c is None else c.wall()

    def secs(name):
        real = REAL[name]

        def f(t=None):
            return real(wall() if t is None else t)
        return f

    for n in ("localtime", "gmtime", "ctime"):
        setattr(_time, n, secs(n))

    def strftime(fmt, t=None):
        return REAL["strftime"](fmt, REAL["localtime"](wall()) if t is None else t)

    def asctime(t=None):
        return REAL["asctime"](REAL["localtime"](wall()) if t is None else t)

    _time.strftime = strftime
    _time.asctime = asctime
