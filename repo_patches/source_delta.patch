From 451fedebfc40ebf6e56acd8f1ac6b17dbe6e5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 1/7] fix: insert the generated section literally

The section was used as a regular-expression replacement template, so a
backslash in a machine name or solver parameter was interpreted as an escape
or group reference and made the report generator fail or publish other text.
---
 scripts/generate_benchmark_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..d165fb9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,7 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From 5872524f54597ba09bcdad8fb3b46ba1b6d4ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 2/7] fix: leave README text outside the generated section
 alone

Line endings of the whole README were rewritten, and a line break was added
after the end marker when it had none.
---
 scripts/generate_benchmark_report.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index d165fb9..f72f510 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -263,19 +263,21 @@ def build_section(reports):
 
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
-    content = readme_path.read_text(encoding="utf-8")
+    with readme_path.open(encoding="utf-8", newline="") as file_handler:
+        content = file_handler.read()
     if START_MARKER in content and END_MARKER in content:
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
-        generated_content = f"{START_MARKER}\n\n{generated_content}"
+        generated_content = f"{START_MARKER}\n\n{generated_content.rstrip()}"
         pattern = re.compile(
-            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
+            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}",
             flags=re.DOTALL,
         )
         updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-    readme_path.write_text(updated, encoding="utf-8")
+    with readme_path.open("w", encoding="utf-8", newline="") as file_handler:
+        file_handler.write(updated)
 
 
 def main():
-- 
2.43.0


From 48a8c104d1168ccd6367f9b20fa006696dab4d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 3/7] fix: replace the README atomically

The README was truncated and then written in place: an error or a crash in
between (full disk, kill, power loss) left it empty or cut short, and a later
run would have published that.
---
 scripts/generate_benchmark_report.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index f72f510..0c1f3af 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -5,8 +5,11 @@ from __future__ import annotations
 import argparse
 from datetime import UTC, datetime
 import json
+import os
 from pathlib import Path
 import re
+import shutil
+import tempfile
 
 START_MARKER = "<!-- performance-comparison:start -->"
 END_MARKER = "<!-- performance-comparison:end -->"
@@ -261,6 +264,24 @@ def build_section(reports):
     return "\n".join(lines)
 
 
+def write_atomically(path, content):
+    """Replace the content of an existing file completely, or not at all."""
+    target = path.resolve(strict=True)
+    descriptor, temporary = tempfile.mkstemp(
+        dir=target.parent, prefix=f".{target.name}.", suffix=".tmp"
+    )
+    try:
+        with open(descriptor, "w", encoding="utf-8", newline="") as file_handler:
+            file_handler.write(content)
+            file_handler.flush()
+            os.fsync(file_handler.fileno())
+        shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        Path(temporary).unlink(missing_ok=True)
+        raise
+
+
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
     with readme_path.open(encoding="utf-8", newline="") as file_handler:
@@ -276,8 +297,7 @@ def update_readme(readme_path, section):
     else:
         updated = content.rstrip() + "\n\n" + section
 
-    with readme_path.open("w", encoding="utf-8", newline="") as file_handler:
-        file_handler.write(updated)
+    write_atomically(readme_path, updated)
 
 
 def main():
-- 
2.43.0


From 8805b646d2c4a7217526aa123dd819c6210e5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 4/7] fix: rank every measurement by its own timing

When several artifacts measured the same solver on the same case, all its rows
showed the rank and speed-up of the last one read.
---
 scripts/generate_benchmark_report.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 0c1f3af..87579dd 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -155,33 +155,31 @@ def machine_summary(report):
 
 
 def _rank_within_case(benchmarks):
-    """Return a dict mapping (case_key, solver_name) -> rank within that case."""
+    """Return a dict mapping id(benchmark) -> rank within its case."""
     by_case: dict[tuple, list] = {}
     for b in benchmarks:
         by_case.setdefault(case_key(b), []).append(b)
 
     ranks = {}
-    for key, entries in by_case.items():
+    for entries in by_case.values():
         sorted_entries = sorted(entries, key=lambda b: b["stats"]["median"])
         for rank, entry in enumerate(sorted_entries, start=1):
-            ranks[(key, solver_name(entry))] = rank
+            ranks[id(entry)] = rank
     return ranks
 
 
 def _speedup_within_case(benchmarks):
-    """Return a dict mapping (case_key, solver_name) -> speedup vs slowest."""
+    """Return a dict mapping id(benchmark) -> speedup vs slowest in its case."""
     by_case: dict[tuple, list] = {}
     for b in benchmarks:
         by_case.setdefault(case_key(b), []).append(b)
 
     speedups = {}
-    for key, entries in by_case.items():
+    for entries in by_case.values():
         slowest = max(e["stats"]["median"] for e in entries)
         for entry in entries:
             median = entry["stats"]["median"]
-            speedups[(key, solver_name(entry))] = (
-                slowest / median if median > 0 else 1.0
-            )
+            speedups[id(entry)] = slowest / median if median > 0 else 1.0
     return speedups
 
 
@@ -243,9 +241,8 @@ def build_section(reports):
                 case = benchmark["params"]["case"]
                 name = solver_name(benchmark)
                 stats = benchmark["stats"]
-                key = case_key(benchmark)
-                rank = ranks.get((key, name), 0)
-                speedup = speedups.get((key, name), 1.0)
+                rank = ranks[id(benchmark)]
+                speedup = speedups[id(benchmark)]
                 lines.append(
                     f"| {rank} | "
                     f"`{name}` | "
-- 
2.43.0


From 2cb2a9b3686eafa9318121a1a4c7b0dfb08688d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 5/7] fix: let izzo2015 report its full output

The README documents full_output for every solver, but izzo2015 rejected the
argument and so could not report its number of iterations and time per
iteration.
---
 src/lamberthub/universal_solvers/izzo.py | 36 ++++++++++++++++++------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..d028a95 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,5 +1,7 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
@@ -7,7 +9,6 @@ from numpy import cross, pi
 from lamberthub.linalg import norm
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +20,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +45,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -50,8 +54,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -79,6 +85,18 @@ def izzo2015(
            Administration.
 
     """
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _izzo2015(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+
+
+@jit(cache=True, fastmath=True)
+def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solve Lambert's problem, returning also the number of iterations."""
     # Check that input parameters are safe
     # assert_parameters_are_valid(mu, r1, r2, tof, M)
 
@@ -112,7 +130,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +144,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -141,7 +159,7 @@ def _reconstruct(x, y, r1, r2, ll, gamma, rho, sigma):
 
 @jit(cache=True, fastmath=True)
 def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
-    """Computes all x, y for given number of revolutions."""
+    """Computes x, y for given number of revolutions, and the iterations it took."""
     # For abs(ll) == 1 the derivative is not continuous
     assert abs(ll) < 1
 
@@ -163,10 +181,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +350,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +365,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From e81723f28eb6508b81b73216a644f9df9fc1c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 6/7] fix: use both radii in the final velocity of gauss1809

The f_dot Lagrange coefficient used the initial radius twice, so the final
velocity was wrong whenever the two radii differ.
---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..b67818d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -153,7 +153,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From d07289bf47ac30ee3459b3202ede1378dc1160c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 7/7] fix: validate the final position vector too

The loop over both position vectors checked the initial one twice.
---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0

