"""C21: Parker wind solutions."""
import math
import numpy as np
import scipy.constants as sc
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram.parker_solution import ParkerSolution, AnalyticBase


def sx(v):
    """Positive number of any scale -> mantissa and exponent."""
    v = float(v)
    if not (v >= 0) or math.isinf(v): raise ValueError("not a finite non-negative number: %r" % v)
    m, e = math.frexp(v)
    return [fx(m), e]


def pos(v):
    if not np.isrealobj(v): raise ValueError("not real")
    v = float(v)
    if not v > 0 or math.isinf(v): raise ValueError("not finite and positive: %r" % v)
    return sx(v)


def rnd_wind(rng):
    """-> constructor arguments (T, rho, R, M)"""
    if rng.random() < .1: return None
    T, M = 10 ** rng.uniform(4.5, 8), 1.989e30 * 10 ** rng.uniform(-1.2, 1)
    rs = sc.G * M * sc.proton_mass / (4 * T * sc.k)
    u = rng.random()
    f = rng.uniform(.02, .97) if u < .6 else 10 ** rng.uniform(-1.6, -.05) if u < .9 else rng.choice([.99, .999, .5, .25])
    return T, 10 ** rng.uniform(-20, 6), f * rs, M


def rnd_radii(rng, w):
    R, rs = float(w.stellar_radius), float(w.radius_sonic)
    def one():
        u = rng.random()
        if u < .3: return R * 10 ** rng.uniform(0, 2)
        if u < .45: return rs * rng.uniform(.5, 2)
        if u < .55: return rs
        if u < .65: return rs * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-16, -1))
        if u < .72: return R
        if u < .80: return R * rng.uniform(0, 1)
        if u < .83: return R * (1 - 1e-13)
        if u < .85: return 0.0
        return rs * 10 ** rng.uniform(0, rng.choice([5, 5, 12]))
    u = rng.random()
    if u < .15: return one(), "float"
    if u < .2: return int(one()), "int"
    if u < .25: return np.float64(one()), "np scalar"
    if u < .3: return np.array(one()), "0-d"
    if u < .4: return [one() for _ in range(rng.randint(1, 4))], "list"
    if u < .5: return np.array([int(one()) for _ in range(rng.randint(1, 5))]), "int array"
    shape = rng.choice([(1,), (2,), (5,), (2, 3), (3, 1), (1, 1), (2, 1, 2)])
    a = np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)
    if rng.random() < .3: a = np.sort(a.ravel())[::rng.choice([1, -1])].reshape(shape)
    if rng.random() < .2 and a.ndim == 2: a = a.T
    if rng.random() < .2: a = np.repeat(a, 2, axis=0)[::2]
    return a, "array %s" % (a.shape,)


def wind(rng):
    a = rnd_wind(rng)
    c = dict(op="wind", obs=[], bad=[], _note="default" if a is None else "T=%.4g rho=%.4g R=%.6g M=%.4g" % a)
    if a is None: ok, w = call(ParkerSolution)
    elif rng.random() < .5: ok, w = call(ParkerSolution, *a)
    else: ok, w = call(ParkerSolution, stellar_mass=a[3], stellar_radius=a[2], base_density=a[1], temperature=a[0])
    if not ok:
        c["bad"].append(exc_name(w) + " constructing")
        return c
    T, rho, R, M = a or (1.5e6, 1.5e14 * sc.proton_mass, 6.95510e8, 1.989e30)
    try:
        c.update(T=sx(T), M=sx(M), R=sx(R), rho0=sx(rho), G=sx(sc.G), k=sx(sc.k), mp=sx(sc.proton_mass))
        early = w.total_mass_flux
        c.update(rs=pos(w.radius_sonic), cs=pos(w.speed_sonic), vR=pos(np.ravel(w.speed_surface)[0]),
                 rhos=pos(np.ravel(w.density_sonic)[0]))
        for _ in range(rng.choice([1, 2, 3])):
            r, kind = rnd_radii(rng, w)
            c["_note"] += " %s %s" % (kind, str(r)[:60])
            keep = np.array(r, copy=True)
            got = {}
            for name in rng.choice([["speed", "density"], ["density", "speed"]]):
                ok, v = call(getattr(w, name), r)
                if not ok:
                    c["bad"].append(exc_name(v) + " " + name)
                    return c
                if np.shape(v) != np.shape(np.atleast_1d(keep)) and not (keep.ndim == 0 and np.shape(v) == ()):
                    c["bad"].append("shape-" + name)
                    return c
                got[name] = np.array(v, copy=True)
                if not np.array_equal(np.asarray(r), keep) or np.asarray(r).dtype != keep.dtype:
                    c["bad"].append("argument-modified")
                    return c
            for x, v, d in list(zip(keep.ravel(), got["speed"].ravel(), got["density"].ravel()))[:8]:
                c["obs"].append(dict(r=sx(x), v=pos(v), d=pos(d)))
        late = w.total_mass_flux
        if np.size(late) != 1 or np.ravel(early)[0] != np.ravel(late)[0]: c["bad"].append("flux-changes")
        c["flux"] = pos(np.ravel(late)[0])
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def both(rng):
    r = [10 ** rng.uniform(-1.6, 4) if rng.random() < .6 else rng.uniform(.5, 2) if rng.random() < .8 else 1.0
         for _ in range(rng.randint(1, 5))]
    c = dict(op="both", obs=[], bad=[], _note="dimensionless %s" % r)
    cls = rng.choice([ParkerSolution, AnalyticBase])
    ok, v = call(lambda: cls.find_parker_analytic(np.array(r), True) if rng.random() < .5 else
                 cls.find_parker_analytic(np.array(r), all_sols=True))
    ok2, u = call(lambda: cls.find_parker_analytic(np.array(r)))
    if not ok or not ok2:
        c["bad"].append(exc_name(v if not ok else u) + " find_parker_analytic")
        return c
    try:
        lo, hi = v
        for i, x in enumerate(r):
            c["obs"].append(dict(r=sx(x), lo=pos(lo[i]), hi=pos(hi[i]), v=pos(u[i])))
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def corrupt(c):
    if not c["obs"]: return False
    k = ["v", "d", "v", "d"][c["id"] % 4] if c["op"] == "wind" else ["lo", "hi"][c["id"] % 2]
    m, e = c["obs"][-1][k]
    c["obs"][-1][k] = [m, e + 1]
    return True


def run(chk):
    chk.model("ParkerMC")
    rng = chk.rng
    n = 6000 if THOROUGH else 600
    cases = [wind(rng) for _ in range(n)] + [both(rng) for _ in range(n // 5)]
    chk.judge("ParkerTrace", cases, corrupt=corrupt, ncanary=6, label="winds of the real code")
    chk.extra["method"] = "Random stars, base densities and radii (all shapes, inside the star, the sonic point to the last digit) judged by logarithms in 90-bit arithmetic."
