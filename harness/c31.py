"""C31: printed coefficient sets, ZDI magnetograms and wind solutions."""
from fractions import Fraction
import numpy as np
from harness import fields as fl
from harness.vlib import THOROUGH, call, cx, limbs, exc_name
from starwinds_magnetogram import coefficients as shc, converter
from starwinds_magnetogram.parker_solution import ParkerSolution


def number(rng):
    u = rng.random()
    if u < .2: return float(rng.randint(-9, 9))
    if u < .3: return 0.0
    if u < .7: return rng.gauss(0, 1)
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 11)


def value(rng, kind):
    if kind == "int": return rng.randint(-5000, 5000)
    if kind == "float": return number(rng)
    return complex(number(rng), number(rng))


def text(c, s):
    ok, t = call(lambda: rng_text(s))
    if not ok:
        c["bad"].append(exc_name(t))
    elif not isinstance(t, str):
        c["bad"].append("not a text")
    else:
        c["txt"] = list(t)


def rng_text(s):
    a, b, c = str(s), "%s" % s, "{}".format(s)
    return a if a == b == c else None


def sets(rng):
    kind = rng.choice(["complex", "complex", "complex", "float", "int"])
    w = rng.choice([1, 1, 2, 3, 3, 4, 7])
    d = [0] * w if rng.random() < .8 else [value(rng, kind) for _ in range(w)]
    L = rng.choice([0, 1, 2, 3, 5, 12, 30])
    ps = [(l, m) for l in range(L + 1) for m in range(-l, l + 1)]
    ps = rng.sample(ps, min(len(ps), rng.choice([0, 1, 1, 2, 4, 9, 20])))
    c = dict(op="set", txt=[], es=[], d=[], bad=[], _note="set of %d entries of %d %s values, default %s" % (len(ps), w, kind, d))
    kinds = dict(complex=complex, float=float, int=int)

    def make():
        s = shc.Coefficients(np.array(d, dtype=kinds[kind]))
        for l, m in ps: s.append(l, m, np.array([value(rng, kind) for _ in range(w)], dtype=kinds[kind]))
        for l, m in ps[:1]:
            if rng.random() < .3: s.set(l, m, np.array([value(rng, kind) for _ in range(w)], dtype=kinds[kind]))
        return s
    ok, s = call(make)
    if not ok:
        c["bad"].append(exc_name(s))
        return c
    text(c, s)
    try:
        c["d"] = [cx(x) for x in s.default_coefficients]
        c["es"] = [dict(l=l, m=m, v=[cx(x) for x in s.get(l, m)]) for l, m in sorted(ps)]
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def zdi(rng):
    coefs, w = fl.rnd_coefs(rng, rng.choice([1, 2, 3, 8, 15]))
    coefs = [(l, m) + tuple(complex(number(rng), number(rng)) if z or rng.random() < .3 else z for z in v) for l, m, *v in coefs]
    c = dict(op="zdi", txt=[], es=[], bad=[], _note="magnetogram of %s" % [x[:2] for x in coefs][:10])
    ok, r = call(lambda: fl.build(rng, coefs, w))
    if not ok:
        c["bad"].append(exc_name(r))
        return c
    mag = r[0]
    text(c, mag)
    try:
        c["es"] = [dict(l=int(l), m=int(m), v=[cx(x) for x in (a, b, g)])
                   for l, m, a, b, g in zip(mag.degrees_l, mag.orders_m, mag.alpha, mag.beta, mag.gamma)]
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def wind(rng):
    kw = dict(temperature=10 ** rng.uniform(5.6, 6.9), base_density=10 ** rng.uniform(-16, -8),
              stellar_radius=10 ** rng.uniform(8, 9.2), stellar_mass=10 ** rng.uniform(29.4, 31))
    if rng.random() < .3: kw = {k: float("%.1e" % v) for k, v in kw.items()}
    c = dict(op="wind", txt=[], names=[list(x) for x in ("T_c", "Rho_c", "R", "M")], vals=[], bad=[], _note="wind of %s" % kw)
    for k in kw:
        f = Fraction(kw[k])
        c["vals"].append(dict(num=limbs(f.numerator), den=limbs(f.denominator)))
    ok, p = call(lambda: ParkerSolution(**kw))
    if not ok:
        c["bad"].append(exc_name(p))
        return c
    text(c, p)
    return c


def corrupt(c):
    t = c["txt"]
    first = t.index("\n") if "\n" in t else 0
    if c["op"] == "set" and not c["es"]: return False
    for k in range(len(t) - 1, first, -1):              # the leading digit of the last number
        if t[k] in "123456789" and (c["op"] != "wind" or t[k - 1] == "=") and (t[k - 1] in " (=[+-" and t[k - 2] != "e"):
            t[k] = "9" if t[k] != "9" else "1"
            return True
    return False


def run(chk):
    chk.model("ReportMC")
    n = 4000 if THOROUGH else 250
    for label, f in (("printed coefficient sets", sets), ("printed magnetograms", zdi), ("printed wind solutions", wind)):
        chk.judge("ReportTrace", [f(chk.rng) for _ in range(n)], corrupt=corrupt, label=label)
