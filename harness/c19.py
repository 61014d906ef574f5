"""C19: coefficients from sampled surface fields."""
import numpy as np
from harness import fields as fl
from harness.pool import vec
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram import coefficients as shc
from starwinds_magnetogram import converter
from starwinds_magnetogram.geometry import ZdiGeometry


def grid(rng, fine=True):
    nt = rng.choice([40, 48, 60] if fine else [6, 9, 14])
    na = rng.choice([16, 18, 21, 30] if fine else [5, 8, 15, 20])
    if rng.random() < .4: return ZdiGeometry(nt + 1, na + 1), nt
    start = rng.choice([0, -np.pi, rng.uniform(-3, 3)])
    span = 2 * np.pi * (1 - 1e-15)
    return ZdiGeometry(np.linspace(0, np.pi, nt + 1), start + np.linspace(0, span, na + 1) * (1 - 1e-12)), nt


def rec(v):
    """coefficients or a magnetogram -> pairs and vectors"""
    if isinstance(v, shc.Coefficients):
        ks, vs = [], []
        for (l, m), x in v.contents():
            ks.append([int(l), int(m)])
            vs.append(vec(x))
        return dict(k=ks, v=vs)
    n = len(v.degrees_l)
    if any(np.shape(x) != (n,) for x in (v.orders_m, v.alpha, v.beta, v.gamma)): raise ValueError("shapes")
    return dict(k=[[int(l), int(m)] for l, m in zip(v.degrees_l, v.orders_m)],
                v=[vec(np.array([a, b, c])) for a, b, c in zip(v.alpha, v.beta, v.gamma)])


def blank(op, note):
    return dict(op=op, coefs=[], nt=1, top=0, rec=dict(k=[], v=[]), recs=[], pts=[], na=1, given=False, area=fx(0), x=fx(0), y=fx(0), size=fx(0), asked=[], bad=[], _note=note)


def untouched(arrs, keep, c):
    if not all(np.array_equal(a, b) for a, b in zip(arrs, keep)): c["bad"].append("samples-changed")


@fl.in_units
def recover(rng, coefs=None, top=None):
    if coefs is None:
        coefs, w = fl.rnd_coefs(rng, rng.choice([0, 1, 2, 3, 4, 5, 6]))
    else:
        w = 3
    L = max(x[0] for x in coefs)
    top = rng.choice([L, L, 5, 6, max(0, L - 1)]) if top is None else top
    c = blank("recover", "")
    try:
        g, nt = grid(rng)
        pl, az = g.centers()
        mag, how = fl.build(rng, coefs, w)
        f = [np.array(fn(pl, az)) for fn in (mag.get_radial_field, mag.get_polar_field, mag.get_azimuthal_field)]
    except Exception as e:
        c["bad"] = ["setup:%s" % type(e).__name__]
        return c
    args = [np.array(pl), np.array(az)] + f
    keep = [a.copy() for a in args]
    u = rng.random()
    kw = {} if u < .6 else dict(area=np.mean(np.diff(pl, axis=1)) * np.mean(np.diff(az, axis=0)))
    if top != 5 or rng.random() < .5: kw["max_degree"] = top
    fn = converter.convert_latlon_to_zdi_coeffs if rng.random() < .6 else converter.convert_latlon_to_zdi
    c["_note"] = "%s grid %s pairs %s up to %d" % (fn.__name__, g.shape, [x[:2] for x in coefs][:8], top)
    ok, v = call(lambda: fn(*args, **kw))
    if not ok:
        c["bad"].append(exc_name(v))
        return c
    untouched(args, keep, c)
    try:
        c.update(coefs=fl.spec_coefs(coefs), nt=nt, top=top, rec=rec(v))
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def samples(rng, shape):
    k = rng.choice(["smooth", "noise", "one", "uneven", "uneven"])
    if k == "uneven":                                  # one part much larger than the rest
        shape_of = rng.choice([lambda x: np.cos(x), lambda x: np.sin(x) ** 2, lambda x: np.ones_like(x)])
        th = (np.arange(shape[1]) + .5) * np.pi / shape[1]
        a = np.array([[rng.gauss(0, 1) for _ in range(shape[1])] for _ in range(shape[0])])
        return 10.0 ** rng.uniform(-4, 4) * (shape_of(th)[None, :] + 10.0 ** rng.uniform(-12, -3) * a)
    if k == "one":
        a = np.zeros(shape)
        a[rng.randrange(shape[0]), rng.randrange(shape[1])] = rng.choice([1.0, -40.0])
        return a
    a = np.array([[rng.gauss(0, 1) for _ in range(shape[1])] for _ in range(shape[0])])
    return a if k == "noise" else np.cumsum(a, axis=1)


@fl.in_units
def linear(rng):
    g, nt = grid(rng, False)
    pl, az = g.centers()
    a = [fl.up(samples(rng, pl.shape)) for _ in range(3)]
    b = [fl.up(samples(rng, pl.shape)) if rng.random() < .7 else np.zeros(pl.shape) for _ in range(3)]
    x, y = rng.choice([1, -1, 2.5, rng.gauss(0, 1), 0]), rng.choice([1, 1000.0, rng.gauss(0, 1)])
    top = rng.choice([0, 1, 3, 5, 6])
    c = blank("linear", "grid %s up to %d, %s and %s times" % (g.shape, top, x, y))
    size = 0
    for f in (a, b, [x * p + y * q for p, q in zip(a, b)]):
        ok, v = call(lambda: converter.convert_latlon_to_zdi_coeffs(pl, az, *f, max_degree=top))
        if not ok:
            c["bad"].append(exc_name(v))
            return c
        size += sum(np.abs(q / fl.up(1.0)).sum() for q in f)
        try:
            c["recs"].append(rec(v))
        except Exception as e:
            c["bad"].append("malformed:%s" % e)
            return c
    c.update(x=fx(x), y=fx(y), size=fx(size))
    return c


@fl.in_units
def single(rng):
    g, nt = grid(rng, False)
    pl, az = g.centers()
    f = [fl.up(samples(rng, pl.shape)) for _ in range(3)]
    top = rng.choice([1, 2, 3, 4])
    pairs = [(l, m) for l in range(top + 1) for m in range(l + 1)]
    asks = [list(pairs)]
    for _ in range(4):
        asks.append([rng.choice(pairs)] if rng.random() < .5 else rng.sample(pairs, rng.randint(1, len(pairs))))
    c = blank("single", "grid %s asked %s" % (g.shape, asks[1:]))
    for q in asks:
        ls, ms = [p[0] for p in q], [p[1] for p in q]
        if len(q) == 1 and rng.random() < .6: ls, ms = ls[0], ms[0]
        elif rng.random() < .5: ls, ms = np.array(ls), np.array(ms)
        ok, v = call(lambda: converter.get_zdi_coeffs(pl, az, ls, ms, *f))
        if not ok:
            c["bad"].append("%s for %s" % (exc_name(v), (ls, ms)))
            return c
        try:
            c["recs"].append(rec(v))
            c["asked"].append([list(p) for p in q])
        except Exception as e:
            c["bad"].append("malformed:%s" % e)
            return c
    c["size"] = fl.down(sum(np.abs(q).sum() for q in f))
    return c


@fl.in_units
def sums(rng):
    """Any samples on any regular grid, part of the sphere included, against the sum of their projections."""
    nt, na = rng.randint(2, 9), rng.randint(2, 9)
    large = rng.random() < .3                          # few samples differ from zero
    if large: nt, na = rng.randint(2, 130), rng.randint(2, 130)
    whole = rng.random() < .5
    if whole:
        th, ph = (np.arange(nt) + .5) * np.pi / nt, rng.uniform(-3, 3) + (np.arange(na) + .5) * 2 * np.pi / na
    elif rng.random() < .5:                            # nearly the whole sphere
        gap, part = rng.uniform(0, .3), rng.choice([1, 1, rng.uniform(.9, 1.1)])
        th, ph = gap + (np.arange(nt) + .5) * (np.pi - 2 * gap) / nt, rng.uniform(-3, 3) + (np.arange(na) + .5) * part * 2 * np.pi / na
    else:
        th, ph = np.linspace(rng.uniform(.05, 1), rng.uniform(1.3, 3), nt), np.linspace(rng.uniform(-3, 1), rng.uniform(1.2, 5), na)
    if rng.random() < .15: th = th[::-1]
    if rng.random() < .15: ph = ph[::-1]
    pl, az = np.meshgrid(th, ph)
    f = [fl.up(samples(rng, pl.shape)) for _ in range(3)]
    if large:
        mask = np.zeros(pl.size)
        mask[[rng.randrange(pl.size) for _ in range(12)]] = 1
        f = [x * mask.reshape(pl.shape) for x in f]
    L = rng.choice([0, 1, 2, 3, 5, 8, 12, 15])
    pairs = [(l, m) for l in range(L + 1) for m in range(l + 1)]
    q = rng.sample(pairs, min(len(pairs), rng.randint(1, 4)))
    if rng.random() < .3: q[0] = (L, L)
    q = list(dict.fromkeys(q))
    c = blank("sums", "%d x %d samples, pairs %s" % (na, nt, q))
    given = rng.random() < .3
    area = rng.choice([1.0, .01, rng.uniform(.001, 1), rng.uniform(.8, 1.1) * 4 * np.pi / np.sum(np.sin(pl))])
    ls, ms = [p[0] for p in q], [p[1] for p in q]
    if rng.random() < .5: ls, ms = np.array(ls), np.array(ms)
    ok, v = call(lambda: converter.get_zdi_coeffs(pl, az, ls, ms, *f, **(dict(area=area) if given else {})))
    if not ok:
        c["bad"].append(exc_name(v))
        return c
    try:
        c.update(rec=rec(v), asked=[[list(p) for p in q]], nt=nt, na=na, given=given, area=fx(area), size=fl.down(sum(np.abs(x).sum() for x in f)),
                 pts=[[fx(x) for x in t[:2]] + [fl.down(x) for x in t[2:]] for i, t in enumerate(zip(pl.ravel(), az.ravel(), *[x.ravel() for x in f]))
                      if i in (0, pl.size - 1) or any(t[2:])])        # the first and last give the steps
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def corrupt(c):
    if c["op"] in ("recover", "sums"):
        if not c["rec"]["v"]: return False
        c["rec"]["v"][-1][0][0] = fx(1e6)
    else:
        c["recs"][-1]["v"][-1][0][0] = fx(1e6)
    return True


def run(chk):
    chk.model("RecoverMC")
    rng = chk.rng
    cases = []
    for l in range(5 if not THOROUGH else 7):          # every coefficient on its own
        for m in range(l + 1):
            for k in range(1, 4):
                if l == 0 and k > 1: continue
                v = [0j, 0j, 0j]
                v[k - 1] = 1 + 0j if m == 0 else complex(rng.gauss(0, 1), rng.gauss(0, 1))
                cases.append(recover(rng, [(l, m, *v)], max(l, 1)))
    cases += [recover(rng) for _ in range(2500 if THOROUGH else 90)]
    cases += [linear(rng) for _ in range(1500 if THOROUGH else 120)]
    cases += [single(rng) for _ in range(1500 if THOROUGH else 120)]
    cases += [sums(rng) for _ in range(3000 if THOROUGH else 200)]
    chk.judge("RecoverTrace", cases, corrupt=corrupt, ncanary=6, label="conversions of sampled fields")
