"""C14: the PFSS field."""
import numpy as np
from harness import fields as fl
from harness.c09 import scalar_set
from harness.pool import snap
from harness.vlib import THOROUGH, call, fx, cx, exc_name
from starwinds_magnetogram import pfss_magnetogram as pm


def radii(rng):
    """(radius_star, source surface) and the keywords for it."""
    u = rng.random()
    if u < .4: return 1.0, 2.5, {}
    if u < .5:
        rss = rng.uniform(1.01, 6)
        return 1.0, rss, dict(radius_source_surface=rss)
    if u < .6:
        r0 = rng.uniform(.2, 2.4)
        return r0, 2.5, dict(radius_star=r0)
    if u < .7: return 2, 5, dict(radius_star=2, radius_source_surface=5)
    r0 = rng.choice([1.0, .5, 3.0, 6.96e8, rng.uniform(.1, 10)])
    rss = r0 * rng.choice([1.0001, 1.5, 2.5, 3.0, 10.0, 40.0, rng.uniform(1.05, 8)])
    return r0, rss, dict(radius_star=r0, radius_source_surface=rss)


def rnd_radius(rng, r0, rss):
    u = rng.random()
    if u < .12: return r0
    if u < .24: return rss
    if u < .6: return rng.uniform(r0, rss)
    if u < .75: return rss * rng.uniform(1, 4) ** 2
    if u < .85: return r0 * rng.uniform(.05, 1)
    if u < .9: return np.nextafter(r0, 0)
    if u < .95: return np.nextafter(rss, 1e99)
    return rss * 1000


def evaluate(s, pr, th, ph, kw, bad):
    args = [np.array(x) if isinstance(x, np.ndarray) else x for x in (pr, th, ph)]
    ok, v = call(lambda: pm.evaluate_spherical(s, *args, **kw))
    if not ok:
        bad.append(exc_name(v))
        return []
    for a, b in zip(args, (pr, th, ph)):
        if not np.array_equal(a, b):
            bad.append("points-changed")
    try:
        return [list(t) for t in zip(*[fl.flat(x, np.shape(np.atleast_1d(th))) for x in v])]
    except Exception as e:
        bad.append("malformed:%s" % e)
        return []


@fl.in_units
def case(rng, pairs=None, high=False):
    s = scalar_set(rng, pairs)
    before = snap(s)
    r0, rss, kw = radii(rng)
    th, ph = fl.equator_points(rng) if high else fl.rnd_points(rng)
    pr = np.empty(th.shape)
    for ix in np.ndindex(th.shape):
        pr[ix] = rnd_radius(rng, r0, rss)
    u = rng.random()
    if u < .1: pr[...] = pr.flat[0]; arg = float(pr.flat[0])
    elif u < .2: pr[...] = pr.flat[0]; arg = np.array([pr.flat[0]])
    elif u < .25:
        pr[...] = max(1.0, np.round(pr))  if pr.size == 1 else np.maximum(1, np.round(np.minimum(pr, 1e6)))
        arg = pr.astype(int)
    else: arg = pr
    bad = []
    cart = rng.random() < .2
    if cart:                # the same points by their Cartesian coordinates, away from the two surfaces
        pr = np.ones(th.shape) * pr.astype(float)
        for ix in np.ndindex(pr.shape):
            if min(abs(pr[ix] - r0) / r0, abs(pr[ix] - rss) / rss) < 1e-6: pr[ix] = (r0 + rss) / 2
        ok, v = call(lambda: pm.evaluate_cartesian(s, pr * np.sin(th) * np.cos(ph), pr * np.sin(th) * np.sin(ph), pr * np.cos(th), **kw))
        if ok:
            try: obs = [list(t) for t in zip(*[fl.flat(x, th.shape) for x in v[:3]])]
            except Exception as e: bad, obs = ["malformed:%s" % e], []
        else: bad, obs = [exc_name(v)], []
    else:
        obs = evaluate(s, arg, th, ph, kw, bad)
    if snap(s) != before:
        bad.append("operand-changed")
    coefs = [dict(l=k[0], m=k[1], g=v[0]) for k, v in zip(before["k"], before["v"])]
    return dict(op="pfss", coefs=coefs, r0=fx(r0), rss=fx(rss), obs=obs, bad=bad,
                pts=[[fx(a), fx(b), fx(c)] for a, b, c in zip(np.ravel(pr), np.ravel(th), np.ravel(ph))],
                _note=("cartesian " if cart else "") + "pairs %s radii %s r=%s theta=%s" % (before["k"][:8], (r0, rss), np.ravel(pr)[:4], np.ravel(th)[:4]))


def corrupt(c):
    if not c["obs"] or all(k["g"] == cx(0) for k in c["coefs"]):
        return False
    c["obs"][-1][0] = fx(54321.5)
    return True


def run(chk):
    chk.model("PfssMC")
    rng = chk.rng
    cases = [case(rng, [(l, m)]) for l in range(31) for m in range(l + 1) if THOROUGH or l <= 12 or rng.random() < .5]
    cases += [case(rng) for _ in range(8000 if THOROUGH else 1200)]
    chk.judge("PfssTrace", cases, corrupt=corrupt, label="PFSS fields of the real code")
    high = [case(rng, pairs, True) for pairs in fl.high_pairs(rng, 600 if THOROUGH else 60)]
    for x in fl.OVERFLOW:
        high.append(case(rng, [x], True))
        high[-1]["_key"] = "legendre-overflow"
    chk.judge("PfssTrace", high, cfg="PfssTraceHigh", corrupt=corrupt, label="PFSS fields of degrees 31 to 150")
