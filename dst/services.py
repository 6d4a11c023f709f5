"""Seam around the numeric services the solvers call (scipy, numpy.linalg).

The real routine runs unless the current op's fault plan names this call.
Faults are the ways these services really fail: no convergence, a bracket
whose ends have the same sign (as rounding produces), LinAlgError.
"""

import _thread
import functools

STATE = {}  # thread ident -> OpServices


class OpServices:
    def __init__(self, plan=None):
        self.plan = plan or {}  # call index (or "all") -> kind
        self.calls = []
        self.fired = []


def cur():
    return STATE.get(_thread.get_ident())


def _root(name, real):
    @functools.wraps(real)
    def shim(*a, **k):
        st = cur()
        if st is None:
            return real(*a, **k)
        i = len(st.calls)
        st.calls.append(name)
        kind = st.plan.get(str(i), st.plan.get("all"))
        if kind is None:
            return real(*a, **k)
        st.fired.append(kind)
        maxiter = k.get("maxiter", 100)
        if kind == "sign":
            raise ValueError("f(a) and f(b) must have different signs")
        if kind == "late":
            real(*a, **k)  # the callback ran; the answer is then withheld
        if k.get("disp", True) is False or k.get("full_output"):
            x = 0.5 * (float(a[1]) + float(a[2])) if len(a) > 2 else float(a[1])
            if k.get("disp", True):
                raise RuntimeError(f"Failed to converge after {maxiter} iterations.")
            if k.get("full_output"):
                import scipy.optimize as so

                return x, so.RootResults(root=x, iterations=maxiter, function_calls=maxiter + 2, flag=-2, method=name)
            return x
        raise RuntimeError(f"Failed to converge after {maxiter} iterations.")

    return shim


def _minimize(name, real):
    @functools.wraps(real)
    def shim(fun, *a, **k):
        st = cur()
        if st is None:
            return real(fun, *a, **k)
        i = len(st.calls)
        st.calls.append(name)
        kind = st.plan.get(str(i), st.plan.get("all"))
        if kind is None:
            return real(fun, *a, **k)
        st.fired.append("min-" + kind)
        res = real(fun, *a, **k)
        # stopped on the iteration limit, somewhere else than the minimum
        lo, hi = None, None
        b = k.get("bounds") or k.get("bracket")
        if b is not None and len(b) >= 2:
            lo, hi = float(b[0]), float(b[-1])
        if kind == "sign" and lo is not None:
            res.x = lo + 0.97 * (hi - lo)
        elif lo is not None:
            res.x = lo + 0.11 * (hi - lo)
        else:
            res.x = res.x * 1.5 + 0.1
        try:
            res.fun = fun(res.x)
        except Exception:
            pass
        res.success = False
        res.status = 1
        res.message = "Maximum number of function calls reached."
        return res

    return shim


def _linalg(name, real, err):
    @functools.wraps(real)
    def shim(*a, **k):
        st = cur()
        if st is None:
            return real(*a, **k)
        i = len(st.calls)
        st.calls.append(name)
        if st.plan.get(str(i), st.plan.get("all")) is None:
            return real(*a, **k)
        st.fired.append("linalg")
        raise err("Singular matrix" if name in ("solve", "inv") else "did not converge")

    return shim


def install():
    import numpy as np
    import scipy.optimize as so

    for n in ("brentq", "brenth", "bisect", "ridder", "toms748", "newton"):
        setattr(so, n, _root(n, getattr(so, n)))
    for n in ("minimize_scalar",):
        setattr(so, n, _minimize(n, getattr(so, n)))
    for n in ("solve", "inv", "eigvals", "eig", "svd", "lstsq"):
        setattr(np.linalg, n, _linalg(n, getattr(np.linalg, n), np.linalg.LinAlgError))
    np.roots = _linalg("roots", np.roots, np.linalg.LinAlgError)
