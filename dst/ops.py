"""Operations of the simulated workload: one op is one public solver call."""

import numpy as np

SOLVERS = [
    "gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990", "der2011",
    "thorne2004", "avanzini2008", "arora2013", "vallado2013", "izzo2015",
    "negrete2024", "mcelreath2025", "delatorre2018",
]


def build_array(spec):
    """spec: {"d": [floats], "t": dtype, "l": layout}."""
    d = np.array(spec["d"], dtype=spec.get("t", "f8"))
    lay = spec.get("l", "c")
    if lay == "c":
        return d
    if lay == "strided":
        big = np.full(d.size * 3 + 2, 7.25, dtype=d.dtype)
        v = big[1 : 1 + 3 * d.size : 3]
        v[:] = d
        return v
    if lay == "rev":
        return d[::-1].copy()[::-1]
    if lay == "row":  # row of a trajectory matrix, as callers slice it
        m = np.zeros((4, d.size), dtype=d.dtype)
        m[2] = d
        return m[2]
    if lay == "ro":
        d.flags.writeable = False
        return d
    if lay == "list":
        return [float(x) for x in d]
    if lay == "tuple":
        return tuple(float(x) for x in d)
    raise ValueError(lay)


def enc(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            return [x.dtype.str, list(x.shape), [float(v).hex() for v in x.ravel()]]
        return [x.dtype.str, list(x.shape), [repr(v) for v in x.ravel().tolist()]]
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return int(x)
    if isinstance(x, (tuple, list)):
        return [enc(v) for v in x]
    return repr(x)


def outcome_ok(res):
    return ["ok", enc(res)]


def outcome_exc(e):
    return ["exc", f"{type(e).__module__}.{type(e).__qualname__}", str(e)]


# Public helpers (lamberthub.utils, lamberthub.linalg): name -> arguments taken
# from an op's mu (m), arrays (a, b), time of flight (t) and direction flag (d).
UTILS = {
    "utils.angles.get_transfer_angle": "abd", "utils.angles.get_orbit_normal_vector": "abd",
    "utils.angles.get_orbit_inc_and_raan_from_position_vectors": "abd",
    "utils.angles.nu_to_E": "xe", "utils.angles.E_to_nu": "xe", "utils.angles.nu_to_B": "x", "utils.angles.B_to_nu": "x",
    "utils.angles.nu_to_H": "xh", "utils.angles.H_to_nu": "xh",
    "utils.elements.rv_pqw": "mpex", "utils.elements.coe_rotation_matrix": "xyz", "utils.elements.coe2rv": "mpexyzx",
    "utils.elements.rv2coe": "mab", "utils.kepler.kepler_from_nu": "xe", "utils.kepler.kepler_elliptic": "xe",
    "utils.kepler.kepler_hyperbolic": "xh", "utils.stumpff.c2": "t", "utils.stumpff.c3": "t",
    "utils.assertions.assert_parameters_are_valid": "mabtM", "utils.assertions.assert_position_vectors_are_valid": "ab",
    "utils.elements.rotation_matrix": "xq", "utils.kepler.kepler_parabolic": "x",
    "utils.assertions.assert_gravitational_parameter_is_positive": "x", "utils.assertions.assert_position_vector_is_valid": "a",
    "utils.assertions.assert_time_of_flight_is_positive": "x", "utils.assertions.assert_number_of_revolutions_not_negative": "q",
    "utils.assertions.assert_transfer_angle_not_zero": "x", "utils.assertions.assert_transfer_angle_not_pi": "x",
    "ecc_solvers.utils.get_geometry": "abd", "ecc_solvers.utils.coe_at_eccT": "eabd", "universal_solvers.izzo.hyp2f1b": "e",
    "series_solvers.thorne.get_A_array": "pens", "series_solvers.thorne.get_Q_matrix": "a3", "series_solvers.thorne.get_B_array": "aQ3",
    "universal_solvers.gooding.tlamb": "qeExn",
    "linalg.dot": "ab", "linalg.cross": "ab", "linalg.norm": "a",
}


def call_util(op, r1, r2):
    import importlib

    mod, fn = op["f"].rsplit(".", 1)
    f = getattr(importlib.import_module("lamberthub." + mod), fn)
    x = float(r1[0])
    y, z = float(r1[-1]), float(r2[0])
    val = {
        "m": op["mu"], "a": r1, "b": r2, "t": op["tof"], "d": op["k"].get("is_prograde", True), "M": op["k"].get("M", 0),
        "q": int(abs(y) * 7) % 4, "n": 1 + int(abs(z) * 7) % 4, "s": 1 if x > 0 else -1, "3": 3,
        "x": x, "y": y, "z": z, "p": abs(y) + 0.5, "e": 1.0 if abs(y) < 0.2 else abs(z) % 1.0, "h": 1.0 + abs(z) % 3.0,
    }
    val["E"] = 1 - val["e"] ** 2
    if "Q" in UTILS[op["f"]]:
        val["Q"] = np.outer(r1, r2)
    return f(*[val[c] for c in UTILS[op["f"]]])


def call(lh, op, r1, r2):
    """Run the public call described by op on the given array objects."""
    if op["s"] == "utils":
        return call_util(op, r1, r2)
    f = getattr(lh, op["s"])
    kw = dict(op.get("k", {}))
    mu, tof = op["mu"], op["tof"]
    if op.get("mt") == "np":
        mu, tof = np.float64(mu), np.float64(tof)
    elif op.get("mt") == "int":
        mu, tof = (int(v) if v == int(v) else v for v in (mu, tof))
    return f(mu, r1, r2, tof, **kw)


def key(op):
    """What the call may depend on: its arguments (values, dtype, layout)."""
    from .base import canon

    return canon([op["s"], op.get("f"), op["mu"], op["r1"], op["r2"], op["tof"], op.get("mt"), op.get("k", {}), op.get("clk", {})])


# -- independent check of a returned solution -------------------------------

def propagate(mu, r, v, dt):
    """Two-body propagation by universal variables, from the definition.

    Independent of the code under test.  Returns r(dt) or None.
    """
    r = np.asarray(r, float)
    v = np.asarray(v, float)
    if not (np.all(np.isfinite(r)) and np.all(np.isfinite(v))):
        return None
    r0 = float(np.sqrt(r @ r))
    v2 = float(v @ v)
    rv = float(r @ v)
    alpha = 2.0 / r0 - v2 / mu
    sm = np.sqrt(mu)

    def cs(z):
        if z > 1e-3:
            s = np.sqrt(z)
            return (1 - np.cos(s)) / z, (s - np.sin(s)) / s**3
        if z < -1e-3:
            s = np.sqrt(-z)
            if s > 300:
                return np.inf, np.inf
            return (1 - np.cosh(s)) / z, (np.sinh(s) - s) / s**3
        return (0.5 - z / 24 + z * z / 720 - z**3 / 40320,
                1 / 6 - z / 120 + z * z / 5040 - z**3 / 362880)

    def F(x):
        z = alpha * x * x
        c, s = cs(z)
        return rv / sm * x * x * c + (1 - alpha * r0) * x**3 * s + r0 * x - sm * dt

    # F is increasing: bracket and bisect
    hi = sm * dt / r0 + 1e-12
    n = 0
    with np.errstate(all="ignore"):
        while not F(hi) > 0:
            hi *= 1.6
            n += 1
            if n > 400:
                return None
        lo = 0.0
        for _ in range(400):
            mid = 0.5 * (lo + hi)
            if mid == lo or mid == hi:
                break
            f = F(mid)
            if not f <= 0:
                hi = mid
            else:
                lo = mid
        x = 0.5 * (lo + hi)
        z = alpha * x * x
        c, s = cs(z)
        f = 1 - x * x / r0 * c
        g = dt - x**3 / sm * s
        return f * r + g * v


def arrives(op, v1, tol):
    """Does (r1, v1) reach r2 after tof, within tol relative to the geometry?"""
    r1 = np.asarray(build_array(op["r1"]), float)
    r2 = np.asarray(build_array(op["r2"]), float)
    p = propagate(op["mu"], r1, v1, op["tof"])
    if p is None:
        return False
    scale = max(np.linalg.norm(r1), np.linalg.norm(r2))
    return bool(np.linalg.norm(p - r2) <= tol * scale)
