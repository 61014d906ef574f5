"""C25: statistics of a field over the surface."""
import numpy as np
from harness import fields as fl
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram import geometry
from starwinds_magnetogram.geometry import ZdiGeometry

NAMES = ["radial-poloidal", "radial-toroidal", "radial", "polar-poloidal", "polar-toroidal", "polar",
         "azimuthal-poloidal", "azimuthal-toroidal", "azimuthal", "field strength"]


def full_grid(rng, large=False):
    if large: return ZdiGeometry(rng.randint(20, 26), rng.randint(30, 40))
    u = rng.random()
    if u < .4: return ZdiGeometry(rng.randint(3, 7), rng.randint(3, 9))
    t = np.concatenate([[0], np.sort([rng.uniform(.2, 2.9) for _ in range(rng.randint(1, 4))]), [np.pi]])
    p = np.concatenate([[0], np.sort([rng.uniform(.2, 6) for _ in range(rng.randint(1, 5))]), [2 * np.pi]])
    if rng.random() < .3: t = np.insert(t, 1, 10 ** rng.uniform(-4.5, -1.5)) if rng.random() < .5 else np.insert(t, -1, np.pi - 10 ** rng.uniform(-4.5, -1.5))
    if rng.random() < .2: p = np.insert(p, 1, 10 ** rng.uniform(-4.5, -2.5))
    if np.min(np.diff(t)[1:-1], initial=1) < .05 or np.min(np.diff(p)[1:]) < .01: return full_grid(rng)
    return ZdiGeometry(t, p)


@fl.in_units
def case(rng, large=False):
    try:
        g = full_grid(rng, large)
        coefs, w = fl.rnd_coefs(rng, rng.choice([1, 2, 3, 5, 5, 11, 20]) if not large else 1)
        mag, how = fl.build(rng, coefs, w)
    except Exception as e:
        return dict(op="stats", bad=["setup:%s" % e], _note="")
    c = dict(op="stats", ts=[fx(x) for x in g.polar_corners[0, :]], ps=[fx(x) for x in g.azimuthal_corners[:, 0]],
             coefs=fl.spec_coefs(coefs), out={}, bad=[], _note="grid %s coefs %s" % (g.shape, [x[:2] for x in coefs]))
    u = rng.random()
    mine = {"magnetogram.other.abs.max": 3, "x": "y"} if u < .3 else {}
    keep = dict(mine)
    if .1 < u <= .6:
        # a dictionary used before, for another (stronger or weaker) field: every entry is written anew
        try:
            co, _w = fl.rnd_coefs(rng, rng.choice([1, 2]))
            other, _ = fl.build(rng, [x[:2] + type(x[2:])(z * rng.choice([1e-3, 1, 1e3]) for z in x[2:]) for x in co], _w)
            geometry.numerical_description(full_grid(rng), other, mine)
        except Exception as e: c["bad"].append("earlier use:%s" % exc_name(e))
    ok, v = call(lambda: geometry.numerical_description(g, mag) if u > .6 else geometry.numerical_description(g, mag, mine)
                 if u > .3 else geometry.numerical_description(g, mag, dest=mine))
    if not ok:
        c["bad"] = [exc_name(v)]
        return c
    try:
        if any(v.get(k) != keep[k] for k in keep): c["bad"].append("caller's entries lost")
        extra = set(v) - set(keep) - {"magnetogram.%s.abs.%s" % (n, s) for n in NAMES for s in ("max", "mean", "rms", "std")}
        if extra: c["bad"].append("unknown entries %s" % sorted(extra)[:3])
        for n in NAMES:
            d = {}
            for s in ("max", "mean", "rms", "std"):
                k = "magnetogram.%s.abs.%s" % (n, s)
                if k not in v: break
                if np.iscomplexobj(v[k]): raise ValueError("complex")
                d[s] = fl.down(v[k])
            else: c["out"][n] = d
        if mine and u <= .6 and v is not mine and dict(mine) != dict(v): c["bad"].append("given dictionary not filled")
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def corrupt(c):
    n = NAMES[c["id"] % len(NAMES)]
    c["out"][n][("max", "mean", "rms", "std")[c["id"] % 4]] = fx(98765.5)
    return True


def run(chk):
    chk.model("StatsMC")
    rng = chk.rng
    chk.judge("StatsTrace", [case(rng) for _ in range(2000 if THOROUGH else 160)] + [case(rng, True) for _ in range(20 if THOROUGH else 2)], corrupt=corrupt, ncanary=6,
              label="statistics of the real code")
    chk.extra["method"] = "Fields recomputed by the specification on every facet of small full-sphere grids, statistics compared entry by entry."
