"""C17: the surface grid."""
import numpy as np
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram.geometry import ZdiGeometry


def corners(rng, span, n):
    """n increasing angles within a span."""
    u = rng.random()
    if u < .35: a = np.linspace(0, span, n)
    elif u < .5:
        lo = rng.uniform(0, span * .4)
        a = np.linspace(lo, rng.uniform(span * .6, span), n)
    else:
        a = np.sort(np.array([rng.uniform(0, span * .9999) for _ in range(n)]))
        if rng.random() < .5: a[0] = 0
        if rng.random() < .5: a[-1] = span if a[0] == 0 else a[-1]
        a += np.arange(n) * 0
    for i in range(1, n):
        if a[i] - a[i - 1] < 1e-6: return corners(rng, span, n)
    return a


def rnd_grid(rng):
    """-> how, spec fields, constructor arguments"""
    u = rng.random()
    if u < .2:
        nt, np_ = rng.randint(2, 7), rng.randint(2, 9)
        return "numbers", dict(nt=nt, np=np_), (nt, np_)
    if u < .3:
        nt = rng.randint(2, 6)
        return "numbers", dict(nt=nt, np=2 * nt), (nt,)
    big = rng.random() < .08
    t, p = corners(rng, np.pi, rng.randint(8, 25) if big else rng.randint(2, 7)), corners(rng, 2 * np.pi, rng.randint(8, 40) if big else rng.randint(2, 8))
    if rng.random() < .3: p = p - np.pi if p[-1] - p[0] <= 2 * np.pi * .99 else p
    if rng.random() < .1: t, p = np.array([0, 1, 2, 3]), np.array([0, 2, 3, 6])
    args = (t.copy(), p.copy())
    if rng.random() < .2: args = (t.tolist(), p.tolist())
    return "explicit", dict(ts=[fx(x) for x in t], ps=[fx(x) for x in p]), args


def rnd_view(rng):
    u = rng.random()
    if u < .3:
        v = np.zeros(3)
        v[rng.randrange(3)] = rng.choice([1.0, -1.0, 3.5])
        return v
    if u < .4: return np.array([rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([-1, 2])])
    return np.array([rng.gauss(0, 1) for _ in range(3)]) * 10 ** rng.uniform(-3, 3)


def case(rng, spec=None):
    how, f, args = spec or rnd_grid(rng)
    c = dict(op="grid", how=how, ts=[], ps=[], nt=0, np=0, shape=[0, 0], pick=[], obs=[], views=[], total=[], bad=[],
             _note="%s %s" % (how, str(args)[:200]))
    c.update(f)
    ok, g = call(lambda: ZdiGeometry(*args))
    if not ok:
        c["bad"] = [exc_name(g)]
        return c
    views = [rnd_view(rng) for _ in range(3)]
    order = ["corners", "centers", "areas", "unit_normals", "corners_cartesian", "centers_cartesian"]
    rng.shuffle(order)
    got = {}
    for n in order + ["view%d" % i for i in range(3)]:
        fn = getattr(g, n) if not n.startswith("view") else (lambda v=views[int(n[4:])]: g.projected_visible_area_fraction(v.copy()))
        ok, v = call(fn)
        if not ok:
            c["bad"].append(exc_name(v) + " " + n)
            return c
        got[n] = v
    try:
        c["shape"] = [int(x) for x in g.shape]
        na, nt = c["shape"]
        big, small = (na, nt), (na - 1, nt - 1)
        for n, s in (("corners", big), ("centers", small), ("corners_cartesian", big), ("centers_cartesian", small)):
            if any(np.shape(x) != s for x in got[n]): raise ValueError("shape of " + n)
        if np.shape(got["areas"]) != small or np.shape(got["unit_normals"]) != small + (3,): raise ValueError("shape of areas or normals")
        c["views"] = [[fx(float(x)) for x in v] for v in views]
        c["total"] = [fx(x) for x in np.ravel(got["areas"])]
        ix = [(i, j) for i in range(na - 1) for j in range(nt - 1)]
        if len(ix) > 60: ix = rng.sample(ix, 40) + [(0, 0), (na - 2, nt - 2)]
        for i, j in ix:
            c["pick"].append([i + 1, j + 1])
            c["obs"].append(dict(corner=[fx(x[i, j]) for x in got["corners"]], centre=[fx(x[i, j]) for x in got["centers"]],
                                 area=fx(got["areas"][i, j]), normal=[fx(x) for x in got["unit_normals"][i, j]],
                                 cornerxyz=[fx(x[i, j]) for x in got["corners_cartesian"]],
                                 centrexyz=[fx(x[i, j]) for x in got["centers_cartesian"]],
                                 seen=[fx(got["view%d" % k][i, j]) for k in range(3)]))
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def corrupt(c):
    k = ["corner", "centre", "normal", "cornerxyz", "centrexyz", "seen"][c["id"] % 6]
    c["obs"][-1][k][0] = fx(.123456)
    return True


def run(chk):
    chk.model("GridMC")
    rng = chk.rng
    cases = [case(rng, ("default", {}, ())), case(rng, ("numbers", dict(nt=33, np=20), (33, 20))),
             case(rng, ("numbers", dict(nt=181, np=362), (181,)))]
    cases += [case(rng) for _ in range(4000 if THOROUGH else 350)]
    chk.judge("GridTrace", cases, corrupt=corrupt, ncanary=6, label="grids of the real code")
