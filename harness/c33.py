"""C33: waves of opposite direction collected into one."""
import numpy as np
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram import converter


def case(rng):
    kind = rng.choice(["cos", "sin"])
    f = getattr(converter, "collect_cosines" if kind == "cos" else "collect_sines")
    shape = rng.choice([None, None, (1,), (3,), (2, 2), ()])
    scale = 10 ** rng.uniform(-4, 6)

    def amp(): return rng.choice([0., 1., -1., rng.gauss(0, 1), rng.uniform(0, 1)]) * scale
    def ang(): return rng.choice([0., np.pi, -np.pi, np.pi / 2, rng.uniform(-np.pi, np.pi), rng.uniform(-20, 20)])
    def arg(g): return g() if shape is None else np.array([g() for _ in range(int(np.prod(shape)))]).reshape(shape)
    r, a, s, b = arg(amp), arg(ang), arg(amp), arg(ang)
    u = rng.random()
    if u < .15: s, b = r, a
    elif u < .3: s, b = (-r, -a)          # cancels in one of the two kinds
    elif u < .4: s, b = (r, -a)
    c = dict(op="waves", kind=kind, x=fx(rng.uniform(-4, 4)), ws=[], bad=[], _note="%s %s %s %s %s" % (f.__name__, r, a, s, b))
    keep = [np.copy(z) for z in (r, a, s, b)]
    ok, v = call(lambda: f(r, a, s, b))
    if not ok:
        c["bad"].append(exc_name(v))
        return c
    try:
        t, g = v
        want = () if shape is None else shape
        if np.shape(t) != want or np.shape(g) != want: raise ValueError("shapes %s %s" % (np.shape(t), np.shape(g)))
        if any(np.any(k != np.asarray(z)) for k, z in zip(keep, (r, a, s, b))): c["bad"].append("arguments changed")
        c["ws"] = [dict(zip(("r", "a", "s", "b", "t", "g"), map(fx, z))) for z in zip(*[np.ravel(z) for z in (r, a, s, b, t, g)])]
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def corrupt(c):
    c["ws"][-1]["t"] = fx(9.87e7)
    return True


def run(chk):
    chk.model("WavesMC")
    chk.judge("WavesTrace", [case(chk.rng) for _ in range(5000 if THOROUGH else 400)], corrupt=corrupt, label="waves collected by the code")
