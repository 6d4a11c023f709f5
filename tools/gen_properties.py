"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

S = "src/lamberthub/"
SOLVERS = [S + x for x in (
    "p_solvers/gauss.py", "p_solvers/battin.py", "p_solvers/jiang.py", "p_solvers/pan.py",
    "universal_solvers/gooding.py", "universal_solvers/der.py", "series_solvers/thorne.py", "ecc_solvers/avanzini.py",
    "universal_solvers/arora.py", "universal_solvers/vallado.py", "universal_solvers/izzo.py", "universal_solvers/negrete.py",
    "universal_solvers/mcelreath.py", "regularization/delatorre.py")]
HELP = [S + x for x in ("linalg.py", "ecc_solvers/utils.py", "utils/angles.py", "utils/assertions.py", "utils/elements.py", "utils/kepler.py", "utils/stumpff.py")]
SCRIPT = "scripts/generate_benchmark_report.py"


def m(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mech, **anch):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech, **anch}})


prop("C01", "Concurrent and re-entrant solver calls never interfere",
     "Any number of calls to any solvers may be in progress at once, on different threads or nested inside one another (a signal handler, callback or finaliser that itself solves a problem), and may share the same read-only input arrays. Each call returns exactly the velocities and iteration count, or raises exactly the error, that it would have produced running alone, and the time per iteration it reports is measured from its own clock readings. The same holds for the public helper functions. No interleaving makes calls wait for each other for ever.",
     ["schedules", "inputs"], "every interleaving of every set of concurrent or nested solver calls, at instruction granularity, and all inputs of those calls",
     "The tests call one solver at a time from one thread; no test ever has two calls in progress, so state shared between calls cannot show.",
     SOLVERS + HELP, [m("solvers keep all intermediate state in locals", "every solver and helper function"), m("module-level values are constants", "K_AXIS, _FACT_INV_* and the like"), m("timing kept in locals", "tic/tpi in every solver")])

prop("C02", "A call's outcome depends on its arguments only, never on history",
     "The result or error of a solver call is determined by the values of its arguments alone. It is the same bit for bit whether the call is the first in the process or follows any sequence of earlier successful, failing or repeated calls, on any thread, with input arrays reused and refilled in place, earlier results overwritten by their owner, random generators reseeded or hash seeds changed. A result once returned never changes afterwards because of later calls. The same holds for the public helper functions.",
     ["histories", "inputs"], "every finite history of calls and caller actions before a call, and every call",
     "Each test makes one or two calls with fixed arguments and compares to a tolerance; none repeats, perturbs or reorders calls, so remembered state and stale caches are invisible.",
     SOLVERS + HELP, [m("no memoisation, warm starts or adaptive tolerances", "every solver"), m("fresh output arrays per call", "velocity reconstruction in every solver")])

prop("C03", "An interruption at any instant propagates and leaves nothing behind",
     "If an asynchronous exception (Ctrl-C, a deadline raised by a signal handler, a cancellation, exhausted memory) arrives at any point during a solver call, that very exception reaches the caller and is never replaced by another error or swallowed into a result. Afterwards every call, including a retry of the interrupted one and calls in progress on other threads, behaves exactly as in a fresh process. No interruption leaves a later call blocked. The same holds for the public helper functions.",
     ["fault_sequences", "crash_points", "schedules", "histories"], "every instruction at which an interruption can be delivered, every kind of exception, and every history of calls around it",
     "No test interrupts a call; only completed calls are observed.",
     SOLVERS + HELP, [m("handlers catch named arithmetic errors only", "pan.py fallback and safe residual; der.py bracketed solves"), m("no state outside the frame", "every solver")])

prop("C04", "A call leaves the caller's arrays and the process untouched",
     "A solver call never modifies its input arrays, not even temporarily where another thread could see it, and never returns arrays that share memory with its inputs, with each other or with earlier results. However it ends (result, error, interruption, failing numeric service), it leaves process-wide state as it found it: floating-point error handling, warning filters, random generators, print options, environment, working directory, signal handlers, threads, open files and standard output. Apart from compiled code kept by the just-in-time compiler it writes no file. The same holds for the public helper functions.",
     ["schedules", "fault_sequences", "crash_points", "inputs"], "every instant of every call as seen by another thread, every way a call can end, and every input array layout",
     "The tests look only at returned values; none compares inputs or process state before, during or after a call, or after an interrupted one.",
     SOLVERS + HELP, [m("inputs only read; derived vectors are new arrays", "every solver"), m("no global configuration calls", "every solver")])

prop("C05", "A failing numeric service never yields a wrong answer",
     "If a numerical service a solver relies on (bracketed root finding, scalar minimisation, linear algebra) reports failure at any of its invocations, or the caller has armed floating-point traps that fire during the call, the solver call either raises an exception or still returns a correct solution: the undisturbed one, or one that really joins the two positions in the given time along the requested kind of path. A service failure is never turned into plausible but wrong velocities.",
     ["fault_sequences", "inputs"], "every invocation of a numeric service, every way it can fail, every trap configuration and every problem",
     "In the tests the root finder and minimiser always converge and no floating-point trap is armed; the failure paths are never taken.",
     [S + "universal_solvers/der.py", S + "series_solvers/thorne.py", S + "universal_solvers/arora.py", S + "p_solvers/pan.py"] + [S + "universal_solvers/gooding.py"],
     [m("ValueError from the bracketed solver becomes an error", "der.py _solve_elliptic_bracketed/_solve_hyperbolic_bracketed"), m("success flag of the minimiser checked", "arora.py multi-revolution minimum"), m("root finder errors propagate", "thorne.py, arora.py"), m("non-finite residual discards a bracket", "pan.py _safe_tof_residual")])

prop("C06", "The clock decides nothing but the reported time per iteration",
     "Velocities, iteration counts and errors are the same under any behaviour of the system's clocks: slow, coarse, stalled, standing still, or with the wall clock jumping. When the full output is requested, every solver returns the same velocities and reports a time per iteration that is finite and non-negative and, multiplied by the number of iterations, is no more than the monotonic time that elapsed during the call. It scales with the rate of the monotonic clock, does not depend on that clock's origin, and is unaffected by wall-clock or time-zone changes.",
     ["schedules", "fault_sequences", "inputs"], "every behaviour of the clocks during a call, including preemption by other threads, for every call",
     "The tests never control a clock; reported times are not checked at all.",
     SOLVERS, [m("tic/tac around the iteration with time.perf_counter", "every solver"), m("time per iteration = elapsed / numiter", "every solver's full_output branch")])

prop("C07", "Updating the README is atomic under crashes and I/O errors",
     "At every instant, after any single system call and after any power loss, the README on disk is either its previous complete content or the complete new content, never empty, truncated or mixed (a power loss may also undo whole earlier updates that were not yet on disk). If the report generator fails for any reason (full disk, I/O error, denied permission, interruption) before the new content is in place, the README still holds its previous content and the run reports failure. A run that is not killed leaves no temporary file behind unless removing it fails.",
     ["crash_points", "fault_sequences"], "every point between two system calls at which the process or the machine can die, every I/O error at every system call, and every README and set of artifacts",
     "The report generator has no tests at all; and a test that runs it to completion sees only the state after the last write.",
     [SCRIPT], [m("README replacement", "update_readme")])

prop("C08", "Every benchmark measurement is published exactly once, or the run fails",
     "A successful run of the report generator publishes every measurement in every artifact exactly once, under its own group, scenario, revolutions, direction and path, with its own timings, and with rank and speed-up computed among the measurements of its own case. If any artifact cannot be read completely (missing while being read, empty, truncated, unreadable, I/O error), the run fails and publishes nothing: a partial set of artifacts is never presented as a complete report.",
     ["fault_sequences", "inputs", "histories"], "every set of artifacts, and every read fault or torn artifact at every point of reading them",
     "The report generator has no tests; in CI it only ever meets one complete, well-formed set of artifacts.",
     [SCRIPT], [m("load every *.json or raise", "load_reports"), m("grouping, ranking and speed-up within a case", "sorted_benchmarks, _rank_within_case, _speedup_within_case"), m("rows", "build_section")])

prop("C09", "The published report does not depend on the environment or on timing of others",
     "The README a run produces depends only on the content of the artifacts, the README it started from and the UTC time of the run: not on the order in which the file system lists files, the host's time zone, locale or hash seed, the working directory, or how reads and writes are split. When several runs overlap, the README finally holds the complete output of one of them.",
     ["schedules", "configurations", "inputs"], "every directory order, time zone, hash seed, short-read pattern, and every interleaving of overlapping runs at system-call granularity",
     "No test runs the generator; CI runs it once, on one host, alone.",
     [SCRIPT], [m("sorted artifact list and sorted groups", "load_reports, sorted_benchmarks"), m("UTC timestamp", "build_section")])

prop("C10", "Human-written README text survives every history of updates",
     "Over any sequence of report runs, crashed or failed runs, and human edits outside the generated section, all text outside the section is preserved byte for byte (line endings, backslashes and non-ASCII text included; only trailing blank space may go when a section is first appended; the text itself is free of the section's markers), as are the README's permissions and its being a symbolic link. After a successful run it contains exactly one generated section, that of this run. Repeating a run with unchanged artifacts and clock changes nothing, and once faults stop the next run succeeds.",
     ["histories", "crash_points", "inputs"], "every finite history of runs, crashes, failures and human edits outside the section, and every text",
     "No test covers the generator, let alone a sequence of runs with crashes and edits in between.",
     [SCRIPT], [m("replacement between markers", "update_readme")])

prop("C11", "Forked workers do not inherit what their parent was doing",
     "If the process forks at any instant (a worker pool, a pre-forking server, a signal handler), with solver or helper calls in progress on its other threads or on the forking thread itself, every call made in the child and every call that continues in the parent returns exactly the velocities and iteration count, or raises exactly the error, that it would in a fresh process. No call in the child waits for something only a thread of the parent could have provided.",
     ["schedules", "crash_points", "histories", "inputs"], "every instant at which a process can fork, every set of calls in progress then, and every call made afterwards on either side",
     "No test forks, and certainly not while another thread is inside a call; a lock or pool a child inherits in a useless state is invisible in one process.",
     SOLVERS + HELP, [m("no locks, pools or per-process resources", "every solver"), m("no state outside the frame", "every solver")])

prop("C12", "Importing is repeatable and safe to interrupt",
     "Importing lamberthub always yields the same public surface: the same names, signatures, constants and solver lists in the same order, whatever was imported or allocated before, in whatever order directories are listed, from any working directory, under any hash seed, when several threads import the package at once, and when it is reloaded or imported again after removal from sys.modules. If an asynchronous exception arrives or a module file cannot be read at any point of the import, that very error reaches the importer, and importing the package again succeeds completely. However it ends, an import changes no process-wide state (error handling, warnings, random generators, environment, signal handlers, open files, threads), prints nothing and writes no file (caches of compiled code apart). Calls made afterwards behave as after a plain import.",
     ["crash_points", "fault_sequences", "schedules", "histories", "configurations"], "every instruction of every module body at which an interruption can arrive, every module that can fail to be read, every interleaving of importing threads, hash seed, memory layout and order of imports",
     "The tests import everything once, undisturbed, before anything is observed.",
     [S + "__init__.py"] + SOLVERS + HELP, [m("explicit imports and literal solver lists", "lamberthub/__init__.py"), m("module bodies define functions and constants only", "every module")])

prop("C13", "A process that keeps solving does not grow",
     "However long a process keeps calling the solvers and helper functions, its memory, live objects, open descriptors and threads settle within the first thousand or so calls and then stay level: with the same or ever new arguments, when calls fail, when they are interrupted by an asynchronous exception at any point, when a numeric service they rely on fails, and when every call runs on a thread of its own. Caches are allowed as long as they are bounded.",
     ["histories", "crash_points", "fault_sequences", "schedules"], "every history of calls, unbounded in length, and every point and kind of failure or interruption repeated in it",
     "The tests make a few hundred calls, look at each result and never at what stays behind.",
     SOLVERS + HELP, [m("no state outside the frame of a call", "every solver"), m("no memo tables or registries", "every module")])

prop("N01", "Returned velocities solve the boundary-value problem",
     "For every feasible problem, propagating the returned initial velocity from the first position for the time of flight reaches the second position with the returned final velocity.",
     ["inputs"], "all feasible problems and all solvers", "The tests sample a few dozen book cases.", SOLVERS, [m("each solver's iteration and velocity reconstruction", "solver modules")])
prop("N02", "All solvers agree with one another",
     "For every problem that two solvers both accept, their velocities agree to the requested tolerance.",
     ["inputs"], "all problems and pairs of solvers", "The tests compare a few cases with book values.", SOLVERS, [m("each solver's iteration", "solver modules")])
prop("N03", "Flags select the right branch, and infeasible requests fail",
     "The number of revolutions, prograde flag and path flag select exactly the corresponding transfer, and a request with no such transfer raises an error.",
     ["inputs"], "all problems and flag combinations", "The tests sample a handful of multi-revolution cases.", SOLVERS, [m("feasibility checks and branch selection", "solver modules")])
prop("N04", "Invalid arguments are rejected before any result is produced",
     "Non-positive gravitational parameters or times, zero, collinear or identical positions, wrong dimensions and negative revolutions raise an error in every solver.",
     ["inputs"], "all invalid argument combinations", "The tests check each rule on one or two values, and not for every solver.", [S + "utils/assertions.py"] + SOLVERS, [m("argument assertions", "utils/assertions.py")])
prop("N05", "Element and anomaly conversions invert each other",
     "Converting a state to orbital elements and back, or an anomaly to another and back, yields the original for every orbit type.",
     ["inputs"], "all orbits and anomalies", "The tests check single published examples.", [S + "utils/elements.py", S + "utils/angles.py", S + "utils/kepler.py"], [m("conversion formulas", "utils")])
prop("N06", "The iteration budget is honoured and non-convergence is an error",
     "No solver performs more than the allowed number of iterations, and one that has not met its tolerances within them raises an error instead of returning.",
     ["inputs"], "all problems, budgets and tolerances", "The tests exhaust the budget for one or two cases.", SOLVERS, [m("loops bounded by maxiter", "solver modules")])
prop("N07", "Physical symmetries hold",
     "Rotating, mirroring, time-reversing or rescaling the units of a problem transforms the solution accordingly.",
     ["inputs"], "all problems and transformations", "Not tested.", SOLVERS, [m("formulas", "solver modules")])
prop("N08", "Compiled and interpreted execution agree",
     "Running the library with just-in-time compilation gives, within rounding, the results of running it interpreted.",
     ["inputs", "configurations"], "all problems under both execution modes", "The suite is run in both modes, on the same few cases.", SOLVERS + HELP, [m("numba njit decorators with fastmath", "all numeric helpers")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
