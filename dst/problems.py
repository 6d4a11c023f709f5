"""Workload generator: Lambert problems and their adversarial neighbours."""

import math

from .ops import SOLVERS, UTILS

PI = math.pi
MU_E = 3.986004418e5
MU_S = 39.47692641

BOOK = [
    (MU_E, [15945.34, 0.0, 0.0], [12214.83899, 10249.46731, 0.0], 4560.0),
    (MU_E, [5000.0, 10000.0, 2100.0], [-14600.0, 2500.0, 7000.0], 3600.0),
    (MU_S, [0.159321004, 0.579266185, 0.052359607], [0.057594337, 0.605750797, 0.068345246], 0.010794065),
    (MU_E, [7100.0, 200.0, 1300.0], [-38113.5870, 67274.1946, 29309.5799], 12000.0),
    (MU_E, [2249.171260, 1898.007100, 5639.599193], [1744.495443, -4601.556054, 4043.864391], 1618.5),
    (MU_E, [22592.145603, -1599.915239, -19783.950506], [1922.067697, 4054.157051, -8925.727465], 36000.0),
    (MU_E, [7231.58074563487, 218.02523761425, 11.79251215952], [7357.06485698842, 253.55724281562, 38.81222241557], 12300.0),
]
MULTIREV = ["gooding1990", "der2011", "arora2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018", "vallado2013", "battin1984"]
HEAVY = {"pan2016": 0.35, "negrete2024": 0.6, "gauss1809": 0.6, "delatorre2018": 0.8}


def pick_solver(rng, among=None):
    """Solvers evenly, the instruction-hungry ones a little less often."""
    while True:
        s = rng.choice(among or SOLVERS)
        if rng.random() < HEAVY.get(s, 1.0):
            return s


def vec(rng, r):
    z = rng.uniform(-1, 1)
    a = rng.uniform(0, 2 * PI)
    s = math.sqrt(max(0.0, 1 - z * z))
    return [r * s * math.cos(a), r * s * math.sin(a), r * z]


def rotate(v, how):
    x, y, z = v
    return {
        0: [y, z, x], 1: [z, x, y], 2: [-x, -y, z], 3: [x, -y, -z],
        4: [-x, y, z], 5: [x, y, -z], 6: [-x, -y, -z], 7: [y, x, z],
    }[how]


def parabolic_tof(mu, r1, r2, pro=None):
    n1 = math.dist(r1, (0, 0, 0))
    n2 = math.dist(r2, (0, 0, 0))
    c = math.dist(r1, r2)
    s = (n1 + n2 + c) / 2
    sign = 1.0
    if pro is not None and (r1[0] * r2[1] - r1[1] * r2[0] >= 0) != bool(pro):
        sign = -1.0  # the long way round
    return math.sqrt(2 / mu) / 3 * (s**1.5 - sign * max(0.0, s - c) ** 1.5), s


def small_angle(rng):
    """A short arc: what the historical solvers were made for."""
    r1 = vec(rng, rng.uniform(0.7, 1.5))
    e = vec(rng, 1.0)
    n1 = math.dist(r1, (0, 0, 0))
    d = sum(x * y for x, y in zip(r1, e)) / n1
    e = [y - d * x / n1 for x, y in zip(r1, e)]
    n = math.dist(e, (0, 0, 0)) or 1.0
    th = rng.uniform(0.05, 0.6)
    q = rng.uniform(0.9, 1.2)
    r2 = [q * (math.cos(th) * x + math.sin(th) * n1 * y / n) for x, y in zip(r1, e)]
    mu = rng.choice([1.0, MU_S, 4.0])
    tp, _ = parabolic_tof(mu, r1, r2)
    pro = r1[0] * r2[1] - r1[1] * r2[0] > 0
    return {"mu": mu, "r1": r1, "r2": r2, "tof": tp * rng.uniform(0.7, 1.6), "M": 0, "pro": pro}


def problem_for(rng, s):
    u = rng.random()
    if s == "gauss1809" and u < 0.9:
        if u < 0.2:
            mu, a, b, t = BOOK[2]
            return {"mu": mu, "r1": list(a), "r2": list(b), "tof": t, "M": 0}
        return small_angle(rng)
    if s == "pan2016" and u < 0.3:
        mu, a, b, t = BOOK[0]
        return {"mu": mu, "r1": list(a), "r2": list(b), "tof": t, "M": 0}
    return problem(rng)


def problem(rng):
    """A geometry and a time of flight: book cases and random ones."""
    u = rng.random()
    if u < 0.35:
        mu, a, b, t = rng.choice(BOOK)
        return {"mu": mu, "r1": list(a), "r2": list(b), "tof": t, "M": 0}
    if u < 0.5:  # the multi-revolution reference geometries
        mu, a, b, _ = BOOK[5]
        return {"mu": mu, "r1": list(a), "r2": list(b), "tof": 36000.0 * rng.choice([1, 1, 1.5, 2.5]), "M": rng.choice([0, 1, 1, 1])}
    mu = rng.choice([MU_E, MU_S, 1.0, 1.32712440018e11])
    ru = {MU_E: 9000.0, MU_S: 1.0, 1.0: 1.0}.get(mu, 1.5e8)
    r1 = vec(rng, ru * rng.uniform(0.6, 1.6))
    r2 = vec(rng, ru * rng.uniform(0.6, 2.5))
    special = rng.random()
    if special < 0.1:
        r1[2] = r2[2] = 0.0
    elif special < 0.16:  # equal radii
        n1, n2 = math.dist(r1, (0, 0, 0)), math.dist(r2, (0, 0, 0))
        r2 = [x * n1 / n2 for x in r2]
    elif special < 0.2:  # at right angles, on the axes
        r1, r2 = rng.choice([([ru, 0.0, 0.0], [0.0, 1.5 * ru, 0.0]), ([0.0, 0.0, ru], [ru, 0.0, 0.0]), ([ru, 0.0, 0.0], [0.0, ru, 0.0])])
    elif special < 0.24:  # almost half a turn
        r2 = [-1.3 * x * (1 + rng.uniform(-3e-2, 3e-2)) for x in r1]
    elif special < 0.27:  # almost the same direction
        r2 = [1.2 * x * (1 + rng.uniform(-3e-2, 3e-2)) for x in r1]
    if ru > 100 and rng.random() < 0.3:
        r1, r2 = [float(round(x)) for x in r1], [float(round(x)) for x in r2]
    tp, s = parabolic_tof(mu, r1, r2)
    M = 0
    v = rng.random()
    if v < 0.04:
        tof = tp  # the parabola itself
    elif v < 0.1:
        tof = tp * math.exp(rng.uniform(-4, 4))
    elif v < 0.25:
        tof = tp * rng.uniform(0.3, 0.95)  # hyperbolic
    elif v < 0.75:
        tof = tp * rng.uniform(1.2, 4.0)
    else:
        a = s / 2
        per = 2 * PI * math.sqrt(a**3 / mu)
        M = rng.choice([1, 1, 2])
        tof = per * (M + rng.uniform(0.2, 1.8))
    return {"mu": mu, "r1": r1, "r2": r2, "tof": tof, "M": M}


LAYOUTS = ["c", "c", "c", "c", "strided", "row", "rev", "ro"]


def make_op(rng, p=None, solver=None, full=None):
    s = solver or pick_solver(rng)
    if s == "utils":
        return util_op(rng)
    if p is None:
        p = problem_for(rng, s)
    k = {}
    M = p["M"]
    if M and s not in MULTIREV and rng.random() < 0.9:
        M = 0
    if M or rng.random() < 0.3:
        k["M"] = M
    if "pro" in p:
        k["is_prograde"] = p["pro"]
    elif rng.random() < 0.5:
        k["is_prograde"] = rng.random() < 0.6
    if rng.random() < 0.4:
        k["is_low_path"] = rng.random() < 0.5
    if rng.random() < 0.2:
        k["maxiter"] = rng.choice([2, 5, 8, 20, 35, 60, 100])
    if rng.random() < 0.15:
        k["atol"] = rng.choice([1e-3, 1e-5, 1e-7, 1e-9, 1e-11])
    if rng.random() < 0.15:
        k["rtol"] = rng.choice([1e-3, 1e-5, 1e-7, 1e-9, 1e-11])
    if full is True or (full is None and rng.random() < 0.4):
        k["full_output"] = True
    lay = rng.choice(LAYOUTS)
    return {
        "s": s, "mu": p["mu"], "tof": p["tof"], "k": k,
        "r1": {"d": list(p["r1"]), "l": lay},
        "r2": {"d": list(p["r2"]), "l": rng.choice([lay, "c"])},
    }


def util_op(rng, f=None):
    """A call of one of the public helper functions."""
    f = f or rng.choice(list(UTILS))
    p = problem(rng)
    k = {"is_prograde": rng.random() < 0.5} if "d" in UTILS[f] else {}
    r1, r2 = list(p["r1"]), list(p["r2"])
    if f.endswith("rv2coe"):
        u = rng.random()
        n1 = math.dist(r1, (0, 0, 0))
        vc = math.sqrt(p["mu"] / n1)
        r2 = [x * vc / math.dist(r2, (0, 0, 0)) for x in r2]
        if u < 0.15:
            r1, r2 = [n1, 0.0, 0.0], [0.0, vc, 0.0]
        elif u < 0.3:
            r1, r2 = [n1, 0.0, 0.0], [0.0, vc * 0.6, vc * 0.8]
        elif u < 0.45:
            r1[2] = r2[2] = 0.0
        elif u < 0.6:
            r2 = [2.0 * x for x in r2]
    elif "x" in UTILS[f] or "t" in UTILS[f]:
        r1, r2 = vec(rng, 2.0), vec(rng, 2.0)
        p["tof"] = rng.choice([rng.uniform(-1, 1), rng.uniform(-30, 30)])
    lay = rng.choice(LAYOUTS)
    return {"s": "utils", "f": f, "mu": p["mu"], "tof": p["tof"], "k": k, "r1": {"d": r1, "l": lay}, "r2": {"d": r2, "l": rng.choice([lay, "c"])}}


def bad_op(rng, p=None, solver=None):
    """A call the library must reject: invalid or infeasible arguments."""
    if solver == "utils":
        return util_op(rng)
    op = make_op(rng, p, solver)
    how = rng.randrange(12)
    if how == 0:
        op["mu"] = rng.choice([0.0, -1.0, -op["mu"]])
    elif how == 1:
        op["tof"] = rng.choice([0.0, -op["tof"], -1e-9])
    elif how == 2:
        op["r1"]["d"] = [0.0, 0.0, 0.0]
    elif how == 3:
        op["r2"]["d"] = list(op["r1"]["d"])
    elif how == 4:
        op["r2"]["d"] = [2.0 * x for x in op["r1"]["d"]]
    elif how == 5:
        op["r2"]["d"] = [-x for x in op["r1"]["d"]]
    elif how == 6:
        op["k"]["M"] = rng.choice([-1, -3])
    elif how == 7:
        op["k"]["M"] = 9  # far more revolutions than the time allows
    elif how == 8:
        op["r1"]["d"] = op["r1"]["d"][:2]
    elif how == 9:
        op["k"]["maxiter"] = 1
        op["k"]["atol"] = 1e-14
        op["k"]["rtol"] = 1e-14
    elif how == 10:
        op["r2"]["d"] = op["r2"]["d"] + [1.0]
    else:
        op["k"]["M"] = rng.choice([1, 2, 3])
        op["tof"] = op["tof"] * 1e-2
    return op


def clone(op):
    o = dict(op)
    o["k"] = dict(op["k"])
    o["r1"] = {**op["r1"], "d": list(op["r1"]["d"])}
    o["r2"] = {**op["r2"], "d": list(op["r2"]["d"])}
    return o


ASPECTS = {  # what a neighbour may differ in
    "flags": (5, 6), "budget": (8,), "tolerance": (9, 10), "argument": (0, 1, 2, 3, 4), "revolutions": (7,),
    "symmetry": (12, 13, 14, 15, 18), "kind": (19, 20, 20, 21, 22), "other": (11, 16, 17),
}


def neighbour(rng, op, aspect=None):
    """A call that differs from op in one respect only.

    Anything remembered under an incomplete or rounded key confuses the two.
    """
    o = clone(op)
    k = o["k"]
    how = rng.choice(ASPECTS[aspect]) if aspect else rng.randrange(23)
    if op["s"] == "utils" and how in (6, 7, 8, 9, 10, 11, 16, 21, 22):
        how = rng.choice([2, 3, 4, 5, 12, 13])
    bump = rng.choice([None, 1e-12, 1e-9, 1e-6, 1e-4, 1e-2, 0.1])

    def b(x):
        return math.nextafter(x, math.inf) if bump is None else x * (1 + bump)

    if how == 0:
        o["mu"] = b(o["mu"])
    elif how in (1, 2):
        o["tof"] = b(o["tof"])
    elif how == 3:
        i = rng.randrange(len(o["r1"]["d"]))
        o["r1"]["d"][i] = b(o["r1"]["d"][i])
    elif how == 4:
        i = rng.randrange(len(o["r2"]["d"]))
        o["r2"]["d"][i] = b(o["r2"]["d"][i])
    elif how == 5:
        k["is_prograde"] = not k.get("is_prograde", True)
    elif how == 6:
        k["is_low_path"] = not k.get("is_low_path", True)
    elif how == 7:
        k["M"] = rng.choice([m for m in (0, 1, 2) if m != k.get("M", 0)])
    elif how == 8:
        k["maxiter"] = rng.choice([m for m in (1, 2, 2, 3, 4, 8, 35, 100) if m != k.get("maxiter", 35)])
    elif how == 9:
        k["atol"] = rng.choice([a for a in (1e-2, 1e-3, 1e-6, 1e-10, 1e-12) if a != k.get("atol")])
    elif how == 10:
        k["rtol"] = rng.choice([a for a in (1e-2, 1e-3, 1e-6, 1e-10, 1e-12) if a != k.get("rtol")])
    elif how == 11:
        k["full_output"] = not k.get("full_output", False)
    elif how == 12 and len(o["r1"]["d"]) == 3 and len(o["r2"]["d"]) == 3:
        h = rng.randrange(8)  # same norms and transfer angle, other orientation
        o["r1"]["d"] = rotate(o["r1"]["d"], h)
        o["r2"]["d"] = rotate(o["r2"]["d"], h)
    elif how == 13:
        o["r1"]["d"], o["r2"]["d"] = o["r2"]["d"], o["r1"]["d"]
    elif how == 14:
        f = 2.0 ** rng.choice([-6, -2, 1, 3, 8])  # exactly similar problem, other units
        o["r1"]["d"] = [x * f for x in o["r1"]["d"]]
        o["r2"]["d"] = [x * f for x in o["r2"]["d"]]
        o["tof"] *= f * math.sqrt(f)
    elif how == 15:
        f = 4.0 ** rng.choice([-2, -1, 1, 2])  # same orbit, clock in other units
        o["mu"] *= f
        o["tof"] /= math.sqrt(f)
    elif how == 16:
        o["s"] = rng.choice([s for s in SOLVERS if s != o["s"]])
    elif how == 17:
        o["tof"] *= rng.choice([0.5, 0.9, 1.1, 2.0, 3.0])
    elif how == 19:  # equal, but not the same: 0.0 and -0.0
        for f in ("r1", "r2"):
            o[f]["d"] = [-x if x == 0 else x for x in o[f]["d"]]
    elif how == 20:  # equal values of another type
        f = rng.choice(["r1", "r2"])
        for f in ("r1", "r2") if rng.random() < 0.5 else (f,):
            if o[f].get("l") not in ("list", "tuple") and all(x == int(x) and abs(x) < 2.0**23 for x in o[f]["d"]):
                o[f]["t"] = rng.choice([t for t in ("f8", "i8", "f4", "i8") if t != o[f].get("t", "f8")])
    elif how == 21:
        o["mt"] = rng.choice([t for t in (None, "np", "int") if t != o.get("mt")])
    elif how == 22:
        f = rng.choice(["is_prograde", "is_low_path", "M"])
        v = k.get(f, True if f[:3] == "is_" else 0)
        k[f] = float(v) if f == "M" else int(v)
    else:
        i = rng.randrange(min(len(o["r1"]["d"]), len(o["r2"]["d"])))
        o["r1"]["d"][i], o["r2"]["d"][i] = -o["r1"]["d"][i], -o["r2"]["d"][i]
    return o


def catalogue(rng, n, solver=None, bad=0.12):
    """n ops, most of them solvable, some failing, many close to each other."""
    out = []
    good = []
    while len(out) < n:
        u = rng.random()
        if good and u < 0.45:
            o = neighbour(rng, rng.choice(good[-6:]))
            if rng.random() < 0.4:
                good.append(o)
        elif u < 0.45 + bad:
            o = bad_op(rng, None, solver)
        else:
            o = make_op(rng, None, solver)
            good.append(o)
        out.append(o)
    return out
