"""C12: the ZDI field and its parts."""
import numpy as np
from harness import fields as fl
from harness.vlib import THOROUGH, call, exc_name

PARTS = ("rp", "rt", "pp", "pt", "ap", "at")
ALL = ("r", "p", "a", "strength", "xyz", "xyzp", "xyzt") + PARTS


@fl.in_units
def history(rng):
    """A magnetogram, things derived from it in turn, and fields asked for all along. One case per field request."""
    coefs, w = fl.rnd_coefs(rng, rng.choice([1, 2, 3, 3, 4, 6, 10, 20]))
    cases = []
    try:
        mag, how = fl.build(rng, coefs, w)
    except Exception as e:
        return [fl.case(coefs, *fl.rnd_points(rng, zero_d=True), {}, ["exception:" + type(e).__name__])]
    live = [(mag, coefs, how)]

    def ask(m, cs, sel, note, names=None):
        th, ph = fl.rnd_points(rng, zero_d=True)
        bad = []
        if names is None:
            names = rng.sample(ALL, rng.randint(2, 6)) if rng.random() < .6 else ALL
        cases.append(fl.case(cs, th, ph, fl.observe(m, th, ph, names, bad), bad, sel, note))

    ask(mag, coefs, None, how)
    for _ in range(rng.randint(2, 5)):
        m, cs, how = rng.choice(live)
        top = max([c[0] for c in cs] + [0])
        u = rng.random()
        sel = fl.all_select()
        if u < .2:
            ok, v = call(m.as_poloidal)
            sel["kind"] = "poloidal"
        elif u < .4:
            ok, v = call(m.as_toroidal)
            sel["kind"] = "toroidal"
        elif u < .5:
            ok, v = call(m.copy)
        elif u < .6:
            ok, v = call(m.as_dipole)
            sel.update(kind="range", lo=1, hi=1, mo=0, mh=1000)
        else:
            kw = {}
            sel.update(kind="range", lo=0, hi=1000, mo=0, mh=1000)
            if rng.random() < .8:
                a = rng.randint(0, top)
                b = rng.randint(a, top + 1)
                if rng.random() < .3:
                    kw["degree_l_range"] = a
                    b = a
                else:
                    kw["degree_l_range"] = rng.choice([(a, b), [a, b], np.array([a, b])])
                sel.update(lo=a, hi=b)
            if rng.random() < .5:
                a = rng.randint(0, top)
                b = rng.randint(a, top + 1)
                if rng.random() < .3:
                    kw["order_m_range"] = a
                    b = a
                else:
                    kw["order_m_range"] = (a, b)
                sel.update(mo=a, mh=b)
            ok, v = call(lambda: m.as_restricted(**kw))
        note = how + " > " + sel["kind"] + str([sel[k] for k in ("lo", "hi", "mo", "mh")])
        if not ok:
            cases.append(fl.case(cs, *fl.rnd_points(rng, zero_d=True), {}, [exc_name(v)], sel, note))
            continue
        ask(v, cs, sel, note)
        kept = [c for c in cs if sel["kind"] != "range" or (sel["lo"] <= c[0] <= sel["hi"] and sel["mo"] <= c[1] <= sel["mh"])]
        if sel["kind"] == "poloidal": kept = [c[:4] + (0j,) for c in kept]
        if sel["kind"] == "toroidal": kept = [c[:2] + (0j, 0j) + c[4:] for c in kept]
        if rng.random() < .3:       # change what was derived; the others must not notice
            for n in ("alpha", "beta", "gamma"):
                call(lambda: setattr(v, n, getattr(v, n)))
                a = getattr(v, n, None)
                if isinstance(a, np.ndarray) and a.size:
                    try: a *= 3
                    except (ValueError, TypeError): pass
            for n in ("degrees_l", "orders_m"):
                a = getattr(v, n, None)
                if isinstance(a, np.ndarray) and a.size and rng.random() < .5: a[...] = a[::-1].copy() if rng.random() < .5 else 0
        else:
            live.append((v, kept, note))
        m2, cs2, how2 = rng.choice(live)
        ask(m2, cs2, None, how2 + " (after)")
        ask(mag, coefs, None, "original (after)", ("r", "p", "a"))
    return cases


def run(chk):
    chk.model("ZdiMC")
    cases = []
    for _ in range(1500 if THOROUGH else 170):
        cases += history(chk.rng)
    chk.judge("FieldTrace", cases, corrupt=fl.corrupt, label="parts, restrictions and Cartesian forms")
