"""Writes MANIFEST.json; CLAIMED lists the properties that have a check."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    "C01": ("deterministic simulation: seeded thread schedules and re-entrant calls at bytecode granularity, outcomes compared with solo runs",
            "Sampled schedules of real, interpreted code on a deterministic scheduler; each outcome is compared bit for bit with the same call alone in a fresh fork. Trusts CPython's bytecode atomicity; compiled (numba) execution is not simulated."),
    "C02": ("deterministic simulation: seeded call histories with caller-side perturbations, outcomes compared with first-call runs",
            "Sampled histories (up to about 1100 calls) of real, interpreted code; each outcome compared bit for bit with the same call as first in a fresh fork. Histories longer than the bursts are not explored."),
    "C03": ("deterministic simulation: seeded asynchronous exceptions injected at bytecode granularity, histories compared with fresh runs",
            "Sampled interruption points where CPython delivers asynchronous exceptions or allocation can fail, in real interpreted code; interruption inside numpy/scipy C code or compiled code is not simulated."),
    "C04": ("deterministic simulation: per-step observation of arguments and process state under seeded interruption and service faults",
            "Arguments checked after every few bytecodes, process-wide state at seeded points and at the end. State not on the watch list is invisible."),
    "C05": ("deterministic simulation: seeded failure injection at the numeric-service seam, independent two-body oracle",
            "Failures of scipy.optimize/numpy.linalg injected at the n-th invocation, and floating-point traps; correctness judged by an independent propagator with tolerance 1e-3."),
    "C06": ("deterministic simulation: seeded virtual clocks (slow, coarse, frozen, stalling, jumping), metamorphic comparison of reported times",
            "All clocks are simulated; reported times are judged against simulated elapsed time and across clocks that differ only in rate, origin or wall time."),
    "C07": ("deterministic simulation: the real script on a simulated file system; seeded kill, power loss, I/O errors, full disk and interrupts at system-call granularity",
            "Sampled fault placements. The file system model (page cache, journal, loss of unsynced data, torn writes) is ours; errors come only from system calls that document them."),
    "C08": ("deterministic simulation: the real script on a simulated file system; torn artifacts, read faults and artifacts changing mid-run; published tables compared with an independent model",
            "Sampled artifact sets and faults; the tables are parsed back and compared with a small independent model of ranking and speed-up."),
    "C09": ("deterministic simulation: the real script under other listing orders, time zones, hash seeds, chunking and preempted against overlapping runs at system-call granularity",
            "Sampled environments and interleavings, compared byte for byte with a reference host and with each run alone."),
    "C10": ("deterministic simulation: seeded histories of runs, crashes, faults and human edits on a simulated file system, README split and compared after every step",
            "Sampled histories of 3 to 9 steps."),
    "C11": ("deterministic simulation: seeded forks of the simulated process at instruction granularity with calls parked mid-way, outcomes in child and parent compared with solo runs",
            "Sampled fork points in real, interpreted code; the child is a real fork run under its own scheduler. What fork does to numpy, scipy or compiled code's own threads is not simulated."),
    "C12": ("deterministic simulation: the package import run under the scheduler; seeded preemption, asynchronous exceptions and read faults inside module bodies, public surface compared with a plain import",
            "Sampled points inside the package's module bodies; interruption inside CPython's import machinery or third-party modules is not simulated. Two uses CPython itself does not support are left out: importing a submodule on one thread while another imports the package, and importing a submodule first after a failed import of the package."),
    "C13": ("deterministic simulation: long seeded histories of calls, failures, interruptions and per-call threads, the process's size measured along the way",
            "Sampled histories of 300 calls, repeated with 1800 where they grow; growth that starts later, or by less than 4 % of a block per call, or inside C allocators that bypass CPython's, is not seen."),
}
PENDING = {}
NA = {
    "N01": "A pure function of the arguments: no schedule, clock, fault, I/O or history in it. Simulation would only be input generation. (C05 checks correctness where a fault is involved.)",
    "N02": "Agreement of pure functions on equal inputs; no nondeterminism or fault a simulator could control.",
    "N03": "Branch selection is a pure function of the flags and the geometry; nothing to schedule or to fault.",
    "N04": "Argument validation is a pure function of the arguments; nothing to schedule or to fault.",
    "N05": "Formula inversion on pure functions; nothing to schedule or to fault.",
    "N06": "The iteration count is a pure function of the arguments (that the clock cannot change it is C06).",
    "N07": "Metamorphic relations over inputs of pure functions; nothing to schedule or to fault.",
    "N08": "A comparison of two compilers' output on the same pure inputs; compiled code cannot be interleaved, interrupted or observed by an in-process simulator.",
}
checks = []
for pid, (tech, note) in CLAIMED.items():
    checks.append({"property": pid, "quick_cmd": f"./check.py {pid} --tier quick", "thorough_cmd": f"./check.py {pid} --tier thorough",
                   "technique": tech, "level": "exploration", "level_note": note})
man = {"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in {**NA, **PENDING}.items()],
       "notes": "Everything is interpreted Python run by /opt/venv/bin/python; there is nothing to build. --selftest imports the simulator and the package and runs one simulated call. No hooks in /repo: the seams are module attributes of the standard library, numpy and scipy."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
