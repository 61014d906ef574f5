"""C36: the functions the fields are made of, called directly."""
import math
import numpy as np
from harness import fields as fl
from harness.vlib import THOROUGH, call, cx, fx, exc_name
from starwinds_magnetogram import associated_legendre, converter, image_converter, pfss_magnetogram as pm, zdi_magnetogram as zm


def ints(rng, values, kinds=("array", "list", "tuple", "int32")):
    k = rng.choice(kinds)
    if k == "list": return list(values)
    if k == "tuple": return tuple(values)
    return np.array(values, dtype=np.int32 if k == "int32" else int)


def rnd_pairs(rng, top=30):
    lmax = rng.choice([0, 1, 2, 3, 6, 10, top])
    return [(lambda l: (l, rng.choice([0, l, rng.randint(0, l)])))(rng.randint(0, lmax)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]


def angles(rng):
    th = fl.rnd_points(rng)[0]
    return th if th.dtype == float else th.astype(float)


def finite(v, shape):
    v = np.asarray(v)
    if v.shape != tuple(shape): raise ValueError("shape %s instead of %s" % (v.shape, tuple(shape)))
    if np.iscomplexobj(v): raise TypeError("complex")
    return v.astype(float)


DIRECT = [(m.__name__, n) for m, ns in ((associated_legendre, ["calculate_lpmn"]), (pm, ["calculate_all_theta", "theta_lm", "r_l", "phi_lm", "factorial_ratio"]),
                                        (zm, ["get_c_lm"]), (converter, ["forward_conversion_factor", "positive_lm"]), (image_converter, ["spherical_harmonic"]))
          for n in ns]


def attempt(c, fn, take, *arrays):
    """Call; arguments must be left alone; take() turns the result into the observation."""
    keep = [np.copy(a) for a in arrays]
    ok, v = call(fn)
    if not ok:
        if isinstance(v, AttributeError) and any(str(v) == "module %r has no attribute %r" % n for n in DIRECT): return None     # gone: nothing to judge
        c["bad"].append(exc_name(v))
        return c
    if any(not np.array_equal(a, b) for a, b in zip(keep, arrays)): c["bad"].append("arguments-changed")
    try: c["obs"] = take(v)
    except Exception as e: c["bad"].append("malformed:%s" % e)
    return c


def legendre(rng):
    th, pairs = angles(rng), rnd_pairs(rng)
    kind = rng.choice(["lpmn", "lpmn", "theta", "theta1"])
    c = dict(op=kind, pairs=[list(p) for p in pairs], pts=[fx(t) for t in np.ravel(th)], obs=[], bad=[], _note="%s %s at %s" % (kind, pairs, np.ravel(th)[:4]))
    l, m = zip(*pairs)

    def table(v, shape):
        a, b = [finite(x, shape).reshape(th.size, -1) for x in v]
        return [[[fx(a[i, j]), fx(b[i, j])] for j in range(len(pairs))] for i in range(th.size)]
    if kind == "lpmn":
        if len(pairs) == 1 and rng.random() < .4:
            return attempt(c, lambda: associated_legendre.calculate_lpmn(l[0], m[0], th), lambda v: table(v, th.shape), th)
        k = rng.choice(["array", "list", "int32"])
        a, b = ints(rng, l, [k]), ints(rng, m, [k])
        return attempt(c, lambda: associated_legendre.calculate_lpmn(a, b, th), lambda v: table(v, th.shape + (len(pairs),)), th, a, b)
    if kind == "theta":
        a, b = ints(rng, l), ints(rng, m)
        return attempt(c, lambda: pm.calculate_all_theta(a, b, th), lambda v: table(v, th.shape + (len(pairs),)), th, a, b)
    c["pairs"] = c["pairs"][:1]
    np_int = rng.random() < .5
    a, b = (np.int64(l[0]), np.int64(m[0])) if np_int else (l[0], m[0])
    return attempt(c, lambda: pm.theta_lm(a, b, th), lambda v: [[[fx(x)]] for x in finite(v[0], th.shape).ravel()], th)


def radial(rng):
    l = rng.choice([0, 1, 2, 3, rng.randint(0, 30), rng.randint(0, 30)])
    r0 = rng.choice([1, 1., .5, rng.uniform(.3, 5)])
    rss = rng.choice([2.5 * r0, 3 * r0, 2 * r0, r0 * rng.uniform(1.01, 9)])
    if rng.random() < .2: r0, rss = 1, rng.choice([2, 3, 10])
    shape = rng.choice([None, None, (1,), (4,), (2, 2), ()])

    def one():
        u = rng.random()
        return r0 * 1. if u < .15 else rss * 1. if u < .3 else rng.uniform(r0, rss) if u < .8 else rng.uniform(.5 * r0, 1.8 * rss)
    r = one() if shape is None else np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)
    if shape is not None and rng.random() < .1: r = np.maximum(1, np.round(r)).astype(int)
    elif shape is None and rng.random() < .2: r = max(1, int(round(r)))
    deg = np.int64(l) if rng.random() < .3 else l
    c = dict(op="radial", l=l, r0=fx(r0), rss=fx(rss), pts=[fx(x) for x in np.ravel(r)], obs=[], bad=[], _note="r_l(%r, %s, %s, %s)" % (deg, r, r0, rss))
    return attempt(c, lambda: pm.r_l(deg, r, r0, rss),
                   lambda v: [[fx(a), fx(b)] for a, b in zip(*[finite(x, np.shape(r)).ravel() for x in v])], r)


def wave(rng):
    m = rng.choice([0, 1, 2, rng.randint(0, 30)])
    g, h = [rng.choice([0., 1., rng.gauss(0, 1) * 10 ** rng.uniform(-3, 4), rng.randint(-3, 3)]) for _ in range(2)]
    shape = rng.choice([None, (1,), (4,), (2, 2), ()])

    def one(): return rng.choice([0., np.pi, rng.uniform(0, 2 * np.pi), rng.uniform(-40, 40)])
    ph = one() if shape is None else np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)
    if shape is not None and rng.random() < .1: ph = np.round(ph).astype(int)
    c = dict(op="wave", m=m, g=fx(g), h=fx(h), pts=[fx(x) for x in np.ravel(ph)], obs=[], bad=[], _note="phi_lm(%s, %s, %s, %s)" % (m, g, h, ph))
    return attempt(c, lambda: pm.phi_lm(m, g, h, ph), lambda v: [[fx(a), fx(b)] for a, b in zip(*[finite(x, np.shape(ph)).ravel() for x in v])], ph)


def parts(x):
    m, e = math.frexp(float(x))
    return [fx(m), e]


def norm(rng):
    high = [(rng.randint(60, 150), rng.choice([rng.randint(0, 60), rng.randint(20, 40)])) for _ in range(rng.randint(1, 4))]
    pairs = [(l, m) for l, m in (rnd_pairs(rng, 150) if rng.random() < .6 else high) if math.lgamma(l + m + 1) - math.lgamma(l - m + 1) < 680] or [(3, 2)]      # representable
    kind = rng.choice(["c", "c", "c other", "ratio"])
    if rng.random() < .3: pairs = [(l, -m) if l < 80 else (l, m) for l, m in pairs]
    shape = (len(pairs),)
    if len(pairs) == 1 and rng.random() < .5: a, b, shape = pairs[0][0], pairs[0][1], ()
    else:
        a, b = [np.array(x) for x in zip(*pairs)]
        if rng.random() < .2: a, b, shape = a[:, None], b[:, None], shape + (1,)
        elif kind != "ratio" and rng.random() < .3: a, b = [list(map(int, x)) for x in (a, b)]
    fn = dict([("c", lambda: zm.get_c_lm(a, b)), ("c other", lambda: zm.get_c_lm(a, b, method="high_order")), ("ratio", lambda: pm.factorial_ratio(a, b))])[kind]
    c = dict(op="norm", kind=kind.split()[0], pairs=[list(p) for p in pairs], obs=[], bad=[], _note="%s %s" % (kind, pairs))
    return attempt(c, fn, lambda v: [parts(x) for x in finite(v, shape).ravel()], a, b)


def factor(rng):
    pairs = [(l, m * rng.choice([1, 1, 1, -1])) for l, m in rnd_pairs(rng, rng.choice([30, 30, 2000]))]
    shape = (len(pairs),)
    if len(pairs) == 1 or rng.random() < .3: pairs = pairs[:1]; (a, b), shape = pairs[0], ()
    else: a, b = [np.array(x) for x in zip(*pairs)]
    c = dict(op="factor", pairs=[list(p) for p in pairs], obs=[], bad=[], _note="forward_conversion_factor%s" % (pairs,))
    return attempt(c, lambda: converter.forward_conversion_factor(a, b), lambda v: [fx(x) for x in finite(v, shape).ravel()], a, b)


def ylm(rng):
    l = rng.choice([0, 1, 2, rng.randint(0, 30)])
    m = rng.choice([0, l, -l, rng.randint(-l, l)])
    if rng.random() < .6:               # on a mesh, as the package does, with the values kept from call to call
        n, k = rng.randint(1, 3), rng.randint(1, 3)
        pl, az = np.meshgrid([rng.uniform(.02, 3.1) for _ in range(n)], [rng.uniform(-7, 7) for _ in range(k)])
        kw = rng.choice([{}, {}, dict(use_cache=True), dict(use_cache=False)])
    else:
        pl, az = fl.rnd_points(rng)
        kw = dict(use_cache=False)
    c = dict(op="ylm", l=l, m=m, pts=[[fx(a), fx(b)] for a, b in zip(np.ravel(pl), np.ravel(az))], obs=[], bad=[], _note="Y %s %s %s %s" % (l, m, kw, pl.shape))

    def take(v):
        v = np.asarray(v)
        if v.shape != pl.shape: raise ValueError("shape %s" % (v.shape,))
        out = [cx(x) for x in v.ravel()]
        v *= 0                          # what was returned is the caller's
        return out
    return attempt(c, lambda: image_converter.spherical_harmonic(m, l, az, pl, **kw), take, pl, az)


def pairs_case(rng, top):
    c = dict(op="pairs", top=top, got=[], bad=[], obs=[[[0]]], _note="positive_lm(%d)" % top)
    ok, v = call(lambda: [[int(l), int(m)] for l, m in converter.positive_lm(top)])
    if ok: c["got"] = v
    elif isinstance(v, AttributeError) and not hasattr(converter, "positive_lm"): return None
    else: c["bad"].append(exc_name(v))
    return c


def case(rng):
    return rng.choice([legendre, legendre, legendre, radial, wave, norm, factor, ylm])(rng)


def corrupt(c):
    if c["op"] == "pairs": return False
    o = c["obs"][-1]
    if c["op"] in ("lpmn", "theta", "theta1"): o[-1][0] = fx(-1.5e77)
    elif c["op"] == "norm": o[1] += 1
    elif c["op"] == "factor": c["obs"][-1] = fx(77.5)
    else: o[0] = fx(1.25e50)
    return True


def run(chk):
    chk.model("BasisMC")
    cases = [case(chk.rng) for _ in range(9000 if THOROUGH else 1500)] + [pairs_case(chk.rng, t) for t in list(range(9)) + [15, 30]]
    chk.extra["calls of functions that are gone"] = cases.count(None)
    cases = [c for c in cases if c is not None]
    chk.judge("BasisTrace", cases, corrupt=corrupt, label="direct calls of the functions behind the fields")
