"""C15: coordinate and vector transformations."""
import math
import numpy as np
from harness import fields as fl
from harness.c09 import scalar_set
from harness.c14 import radii
from harness.pool import snap
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram import coordinate_transforms as ct
from starwinds_magnetogram import pfss_magnetogram as pm

SHAPES = [(1,), (2,), (5,), (2, 3), (3, 1), (1, 1), (2, 1, 2), (4, 2)]


def rnd_xyz(rng):
    u = rng.random()
    if u < .03: return [rng.choice([0.0, -0.0]) for _ in range(3)]
    if u < .45: v = [rng.gauss(0, 1) for _ in range(3)]
    elif u < .6: v = [rng.choice([-1.0, 0.0, 1.0, 2.0]) for _ in range(3)]
    elif u < .7:                                           # close to the axis
        e = 10 ** rng.uniform(-10, -1)
        v = [e * rng.gauss(0, 1), e * rng.gauss(0, 1), rng.choice([-1, 1]) * rng.uniform(.5, 2)]
    elif u < .8:                                           # close to the equator or to a coordinate plane
        v = [rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)]
        v[rng.randrange(3)] *= 10 ** rng.uniform(-10, -1)
    elif u < .9:                                           # either side of the azimuth jump
        v = [-rng.uniform(.5, 2), rng.choice([0.0, -0.0, 1e-17, -1e-17, 1e-3, -1e-3]), rng.choice([0.0, rng.gauss(0, 1)])]
    else: v = [float(rng.randint(-5, 5)) for _ in range(3)]
    return v


def array_of(rng, shape, fn, k):
    a = np.empty((k,) + shape)
    for ix in np.ndindex(shape):
        a[(slice(None),) + ix] = fn(rng)
    return a


def same(args, keep, bad):
    if not all(np.array_equal(a, b) for a, b in zip(args, keep)):
        bad.append("arguments-changed")


def triples(arrs, shape, scale):
    out = []
    for a in arrs:
        a = np.asarray(a)
        if a.shape != shape: raise ValueError("shape %s not %s" % (a.shape, shape))
        if a.dtype.kind not in "fiu": raise TypeError(str(a.dtype))
    fl_ = [np.ravel(a) for a in arrs]
    for i in range(fl_[0].size):
        out.append([fx(float(a[i]) * s) for a, s in zip(fl_, scale)])
    return out


def blank(op, note):
    return dict(op=op, n=0, bad=[], _note=note)


def points(rng):
    scalar = rng.random() < .1
    shape = () if scalar else rng.choice(SHAPES)
    v = array_of(rng, shape, rnd_xyz, 3)
    k = 0
    kind = "float"
    if np.array_equal(v, np.round(v)) and not scalar:
        if rng.random() < .6:
            v = v.astype(int); kind = "int"
    elif rng.random() < .5:
        k = rng.randint(-60, 80)
        v = v * 2.0 ** k
    c = blank("points", "%s points %s" % (kind, np.reshape(v, (3, -1))[:, :2].tolist()))
    args = [np.float64(x) for x in v] if scalar else [np.array(x) for x in v]
    keep = [np.array(x) for x in args]
    ok, r = call(lambda: ct.spherical_coordinates_from_rectangular(*args))
    if not ok:
        c["bad"] = [exc_name(r)]
        return c
    ok, b = call(lambda: ct.rectangular_coordinates_from_spherical(*r))
    if not ok:
        c["bad"] = [exc_name(b) + " back"]
        return c
    same(args, keep, c["bad"])
    f = 2.0 ** -k
    try:
        c["xyz"] = triples(v, shape, (f, f, f))
        c["rpa"] = triples(r, shape, (f, 1, 1))
        c["back"] = triples(b, shape, (f, f, f))
        c["n"] = len(c["xyz"])
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def rect(rng):
    shape = rng.choice(SHAPES + [()])
    a = array_of(rng, shape, lambda g: [g.choice([1.0, g.uniform(0, 5), 0.0]), g.choice([g.uniform(0, np.pi), g.uniform(-8, 8), 0.0, np.pi, np.pi / 2]),
                                        g.choice([g.uniform(-np.pi, np.pi), g.uniform(-10, 10), np.pi, -np.pi])], 3)
    args = [np.array(x) if shape else float(x) for x in a]
    if rng.random() < .2: args[0] = 1; a[0] = 1
    c = blank("rect", "spherical %s" % np.reshape(a, (3, -1))[:, :2].tolist())
    keep = [np.array(x) for x in args]
    ok, v = call(lambda: ct.rectangular_coordinates_from_spherical(*args))
    if not ok:
        c["bad"] = [exc_name(v)]
        return c
    same(args, keep, c["bad"])
    try:
        v = list(v)
        c["xyz"] = triples([np.broadcast_to(x, shape) if np.ndim(x) == 0 else x for x in v], shape, (1, 1, 1))
        c["rpa"] = triples(a, shape, (1, 1, 1))
        c["n"] = len(c["xyz"])
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def matrix(rng):
    n = rng.choice([1, 1, 2, 3, 6])
    t = np.array([rng.choice([rng.uniform(0, np.pi), rng.uniform(-9, 9), 0.0, np.pi, np.pi / 2, rng.uniform(0, .1)]) for _ in range(n)])
    p = np.array([rng.choice([rng.uniform(-np.pi, np.pi), rng.uniform(0, 7), rng.uniform(-60, 60), 0.0, np.pi, -np.pi / 2]) for _ in range(n)])
    a = (float(t[0]), float(p[0])) if n == 1 and rng.random() < .5 else (t.copy(), p.copy())
    c = blank("matrix", "angles %s %s" % (t, p))
    ok, s = call(lambda: ct.spherical_to_rectangular_transformation_matrix(*a))
    ok2, r = call(lambda: ct.rectangular_to_spherical_transformation_matrix(*a))
    if not (ok and ok2):
        c["bad"] = [exc_name(r if ok else s)]
        return c
    same(a, (t, p) if n > 1 else (t[0], p[0]) if np.ndim(a[0]) == 0 else (t, p), c["bad"])
    try:
        for k, m in (("s2r", s), ("r2s", r)):
            m = np.asarray(m)
            if m.shape != (n, 3, 3): raise ValueError("shape %s" % (m.shape,))
            c[k] = [[[fx(z) for z in row] for row in x] for x in m]
        c["ang"] = [[fx(x), fx(y)] for x, y in zip(t, p)]
        c["n"] = n
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def field(rng):
    s = scalar_set(rng)
    before = snap(s)
    r0, rss, kw = radii(rng)
    f = 1.0
    if r0 > 1e6:                                            # metres: judged in units of 2^30
        f = 2.0 ** -30
    shape = rng.choice(SHAPES)
    v = np.empty((3,) + shape)
    for ix in np.ndindex(shape):
        u = rng.random()
        if u < .03: w = [0.0, 0.0, 0.0]
        elif u < .1: w = [rng.choice([r0, rss, -r0, -rss]), 0.0, 0.0]; rng.shuffle(w); w = w if w[2] == 0 else [w[2], 0.0, 0.0]
        else:
            d = np.array([rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)])
            while math.hypot(d[0], d[1]) < .01 * np.linalg.norm(d):
                d = np.array([rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)])
            r = rng.choice([rng.uniform(r0, rss), rng.uniform(r0, rss), rng.uniform(.1, .99) * r0, rss * rng.uniform(1.0, 9)])
            if abs(r - r0) < 1e-9 * r0: r = (r0 + rss) / 2
            w = d / np.linalg.norm(d) * r
        v[(slice(None),) + ix] = w
    args = [np.array(x) for x in v]
    if shape == (1,) and rng.random() < .5: args = [float(x[0]) for x in v]
    c = blank("pfss", "pairs %s radii %s xyz %s" % (before["k"][:8], (r0, rss), np.reshape(v, (3, -1))[:, :2].tolist()))
    ok, o = call(lambda: pm.evaluate_cartesian(s, *args, **kw))
    if not ok:
        c["bad"] = [exc_name(o)]
        return c
    same(args, v if shape != (1,) or np.ndim(args[0]) else v[:, 0], c["bad"])
    if snap(s) != before: c["bad"].append("operand-changed")
    try:
        if len(o) != 6: raise ValueError("%d results" % len(o))
        c["obs"] = triples(o, shape, (1,) * 6)
        c["xyz"] = triples(v, shape, (f, f, f))
        c["r0"], c["rss"] = fx(r0 * f), fx(rss * f)
        c["coefs"] = [dict(l=k[0], m=k[1], g=x[0]) for k, x in zip(before["k"], before["v"])]
        c["n"] = len(c["xyz"])
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def corrupt(c):
    k = {"points": "back", "rect": "xyz", "pfss": "obs", "matrix": "s2r"}[c["op"]]
    if c["op"] == "matrix": c[k][-1][2][2] = fx(.001)
    elif c["op"] == "pfss":
        if all(z["g"] == [[0], [0]] for z in c["coefs"]): return False
        c[k][-1][4] = fx(54321.5)
    else: c[k][-1][1] = fx(.12345)
    return True


def run(chk):
    chk.model("GeometryMC")
    rng = chk.rng
    n = 6000 if THOROUGH else 600
    cases = [f(rng) for f in (points, rect, matrix) for _ in range(n)]
    cases += [field(rng) for _ in range(n)]
    chk.judge("CoordTrace", cases, corrupt=corrupt, ncanary=8, label="transformations of the real code")
