"""C16: rotating and folding coefficient sets."""
import numpy as np
from harness import fields as fl
from harness.pool import snap
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram import coefficients as shc
from starwinds_magnetogram import converter, rotate
import quaternion


def entries(s):
    t = snap(s)
    return [dict(l=k[0], m=k[1], v=v) for k, v in zip(t["k"], t["v"])]


def rnd_set(rng, w, lmax=None):
    lmax = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8]) if lmax is None else lmax
    pairs = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
    u = rng.random()
    if u < .2: pairs = [rng.choice(pairs)]
    elif u < .35: pairs = [p for p in pairs if p[1] >= 0]
    elif u < .45: pairs = [p for p in pairs if p[1] <= 0]
    elif u < .7: pairs = rng.sample(pairs, rng.randint(1, min(len(pairs), 8)))
    if rng.random() < .5: rng.shuffle(pairs)
    if rng.random() < .2:                           # real coefficients
        s = shc.Coefficients(np.zeros(w))
        for l, m in pairs:
            s.append(l, m, fl.up(np.array([fl.rnd_z(rng).real for _ in range(w)])))
        return s
    weak = rng.random() < .25                       # negative orders much weaker than the positive ones
    num = lambda l, m: fl.rnd_z(rng) * (10 ** rng.choice([-9.5, rng.uniform(-10, -1)]) if weak and m < 0 else 1)
    s = shc.Coefficients(np.zeros(w, dtype=complex)) if w > 1 or rng.random() < .5 else shc.Coefficients()
    for l, m in pairs:
        s.append(l, m, fl.up(np.array([num(l, m) for _ in range(w)])) if w > 1 else fl.up(num(l, m)))
    return s


def rnd_quat(rng):
    u = rng.random()
    if u < .3:
        q = [0.0] * 4
        q[rng.randrange(4)] = rng.choice([1.0, -1.0])
    elif u < .5:
        q = [0.0] * 4
        for i in rng.sample(range(4), 2): q[i] = rng.choice([1, -1]) * .5 ** .5
    elif u < .65:                                  # close to a rotation by 0, a half turn or about an axis
        q = [0.0] * 4
        q[rng.randrange(4)] = rng.choice([1.0, -1.0])
        e = 10 ** rng.uniform(-8, -1)
        for i in rng.sample(range(4), rng.randint(1, 3)): q[i] += e * rng.gauss(0, 1)
    else:
        q = [rng.gauss(0, 1) for _ in range(4)]
    n = sum(x * x for x in q) ** .5
    return [x / n for x in q]


def rnd_euler(rng):
    if rng.random() < .12: return [rng.choice([0, 10 ** rng.uniform(-6, 0) * rng.choice([1, -1]), 180 + 10 ** rng.uniform(-6, 0)]) for _ in range(3)]
    if rng.random() < .1: return [rng.uniform(-1500, 1500) for _ in range(3)]
    return [rng.choice([0, 0, 30, 45, 90, -90, 180, 270, 360, rng.uniform(-360, 360), rng.uniform(0, 180)]) for _ in range(3)]


def rnd_point(rng):
    u = rng.random()
    if u < .15:
        v = [0.0] * 3
        v[rng.randrange(3)] = rng.choice([1.0, -1.0])
        return v
    v = np.array([rng.gauss(0, 1) for _ in range(3)])
    return list(v / np.linalg.norm(v))


@fl.in_units
def case(rng, lmax=None, kinds=None):
    fold = rng.random() < .6 if kinds is None else "fold" in kinds
    w = 1 if fold else rng.choice([1, 1, 2, 3])
    s = rnd_set(rng, w, lmax)
    kinds = kinds or [rng.choice(["quat", "euler"]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3] if fold else [1, 1, 2, 3]))] \
        + (["fold"] if fold else [])
    if fold and rng.random() < .15: kinds.append(rng.choice(["fold", "quat"]))
    c = dict(op="history", sets=[entries(s)], steps=[], bad=[],
             pts=[[fx(x) for x in rnd_point(rng)] for _ in range(2)],
             _note="%s of %s" % (kinds, [(e["l"], e["m"]) for e in entries(s)][:10]))
    for k in kinds:
        before = snap(s)
        if k == "quat":
            q = rnd_quat(rng)
            p = q
            ok, r = call(lambda: rotate.rotate_magnetogram(s, quaternion.quaternion(*q)))
        elif k == "euler":
            p = rnd_euler(rng)
            f = rng.choice([tuple, list, np.array])
            ok, r = call(lambda: rotate.rotate_magnetogram_euler_zyz_deg(s, f(p)))
        else:
            p = []
            ok, r = call(lambda: converter.map_to_positive_orders(s))
        c["_note"] += " %s %s" % (k, p)
        if not ok:
            c["bad"].append(exc_name(r) + " " + k)
            return c
        if snap(s) != before: c["bad"].append("operand-changed")
        try:
            c["sets"].append(entries(r))
            c["steps"].append(dict(kind=k, p=[fx(x) for x in p]))
        except Exception as e:
            c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
            return c
        s = r
    return c


def corrupt(c):
    if not c["steps"]: return False
    last = c["sets"][-1]
    if c["steps"][-1]["kind"] == "fold" and last[-1]["m"] == 0: return False
    last[-1]["v"][0][0] = fx(54321.5)
    return True


def run(chk):
    chk.model("RotateMC")
    rng = chk.rng
    cases = [case(rng) for _ in range(6000 if THOROUGH else 500)]
    cases += [case(rng, L, ["euler"]) for L in (12, 15)]
    cases += [case(rng, L, [rng.choice(["quat", "euler"])]) for L in ((20, 25, 30) if THOROUGH else (20,))]
    cases += [case(rng, L, ["fold"]) for L in (15, 25, 30)]
    chk.judge("RotateTrace", cases, corrupt=corrupt, label="histories of rotations and foldings")
