"""Snapshot of process-wide state a library call has no business changing."""

import atexit
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

_WATCH = None


def _h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def modules_fingerprint():
    """Identity of every attribute of the numeric and runtime modules."""
    import builtins
    import math
    import time

    import scipy.optimize

    out = {}
    for m in (np, np.linalg, np.random, math, scipy.optimize, builtins, time, os, os.path, random, threading, signal, warnings, sys, gc):
        out[m.__name__] = {k: id(v) for k, v in vars(m).items() if not k.startswith("__")}
    return out


def cheap():
    """What can be read at every observation point of a running call."""
    # numpy's error state is per context; everything else here is process-wide
    return {
        "warnings.filters": [tuple(map(str, f)) for f in warnings.filters],
        "warnings.showwarning": id(warnings.showwarning),
        "random": _h(random.getstate()),
        "np.random": _h([(x.tobytes() if hasattr(x, "tobytes") else x) for x in np.random.get_state()]),
        "environ": _h(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "stdio": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "recursionlimit": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "printoptions": _h(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "sys.path": _h(sys.path),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
    }


_SYS = {"last_exc", "last_type", "last_value", "last_traceback", "ps1", "ps2", "_"}
_SIGNALS = sorted(signal.valid_signals())


def full():
    s = cheap()
    s["tracing"] = (repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.gettrace()), repr(threading.getprofile()))
    s["sys settings"] = (sys.dont_write_bytecode, sys.get_int_max_str_digits(), sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth(), id(sys.unraisablehook))
    s["import system"] = (_h([id(x) for x in sys.meta_path]), _h([id(x) for x in sys.path_hooks]), _h(sys.argv))
    s["gc hooks"] = (len(gc.callbacks), gc.get_debug())
    s["atexit"] = atexit._ncallbacks()
    s["context"] = _h(sorted((k.name, repr(v)) for k, v in contextvars.copy_context().items() if not k.name.startswith("numpy") and k.name != "decimal_context"))
    s["stack size"] = threading.stack_size()
    s["faulthandler"] = faulthandler.is_enabled()
    s["limits"] = _h([resource.getrlimit(k) for k in (resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_CPU, resource.RLIMIT_DATA, resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK)])
    s["scheduling"] = (os.getpriority(os.PRIO_PROCESS, 0), _h(sorted(os.sched_getaffinity(0))))
    s["time zone"] = (time.tzname, time.timezone)
    s["pickling"] = len(copyreg.dispatch_table)
    s["socket timeout"] = socket.getdefaulttimeout()
    s["temporary directory"] = tempfile.tempdir
    s["scipy.special.geterr"] = _special()
    s["blocked signals"] = _h(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())))
    s["np.geterr"] = np.geterr()
    s["np.geterrcall"] = repr(np.geterrcall())
    s["np.bufsize"] = np.getbufsize()
    s["signals"] = {int(x): repr(signal.getsignal(x)) for x in _SIGNALS}
    s["itimer"] = [signal.getitimer(x)[0] > 0 for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    c = decimal.getcontext()
    s["decimal"] = (c.prec, c.rounding)
    s["locale"] = locale.setlocale(locale.LC_ALL)
    u = os.umask(0o22)
    os.umask(u)
    s["umask"] = u
    s["logging"] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions, logging.getLoggerClass().__name__, logging._warnings_showwarning is None)
    s["fds"] = sorted(os.listdir("/proc/self/fd"))[:-1] and len(os.listdir("/proc/self/fd"))
    s["modules"] = modules_fingerprint()
    return s


def _special():
    import scipy.special

    return _h(sorted(scipy.special.geterr().items()))


def diff(a, b):
    out = []
    for k in a:
        if k == "modules":
            for m in a[k]:
                x, y = a[k][m], b[k][m]
                for n in sorted(set(x) | set(y)):
                    # lazily imported submodules may appear; nothing may change
                    if n in x and x.get(n) != y.get(n) and not (m == "sys" and n in _SYS):
                        out.append(f"{m}.{n} replaced")
            continue
        if a[k] != b.get(k, a[k]):
            out.append(f"{k}: {str(a[k])[:80]} -> {str(b[k])[:80]}")
    return out


EVENTS = []
_ON = [False]
_BAD = {
    "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.chmod", "os.link", "os.symlink",
    "os.putenv", "os.unsetenv", "os.truncate", "os.system", "os.fork", "os.exec", "os.posix_spawn", "os.kill",
    "subprocess.Popen", "socket.connect", "socket.bind", "socket.__new__", "shutil.rmtree", "tempfile.mkstemp",
    "tempfile.mkdtemp", "signal.pthread_kill", "sys.addaudithook", "ctypes.dlopen", "os.utime", "os.setxattr",
    "_thread.start_new_thread",
}


def _hook(name, args):
    if not _ON[0]:
        return
    if name == "open":
        mode, flags = args[1], args[2]
        wr = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if wr and str(args[0]) != "/dev/null":
            EVENTS.append(f"open for writing: {args[0]}")
    elif name in _BAD:
        EVENTS.append(f"{name}{tuple(str(a)[:40] for a in args[:2])}")


def audit_install():
    sys.addaudithook(_hook)


def audit(on):
    _ON[0] = on
