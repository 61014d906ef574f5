"""C04: enumeration of coefficient sets and construction from arrays."""
import itertools
import numpy as np
from harness.pool import Pool
from harness.c01 import rnd_value
from harness.vlib import THOROUGH, cx


def build(rng, w, pairs, default=None):
    p = Pool()
    p.new(np.zeros(w, dtype=complex) if default is None else np.array(default))
    pairs = list(pairs)
    rng.shuffle(pairs)
    for l, m in pairs:
        if not p.dead:
            p.store(1, l, m, rnd_value(rng, w), True)
    return p


FILTERS = [dict(zip(("unset", "lmin", "lmax", "mmin", "mmax"), f)) for f in itertools.product(
    (None, True, False), (None, 0, 1, 2), (None, 0, 1, 2, 4), (None, -2, -1, 0, 1), (None, -1, 0, 1, 2))]


def enum_case(rng, lmax, nfilters):
    allp = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
    w = rng.choice([1, 1, 2, 3])
    k = rng.random()
    pairs = [] if k < .06 else allp if k < .2 else rng.sample(allp, rng.randint(1, min(12, len(allp))))
    d = None if rng.random() < .7 else rnd_value(rng, w)
    p = build(rng, w, pairs, d)
    for f in rng.sample(FILTERS, nfilters) + [dict(), dict(unset=False)]:
        if p.dead: break
        g = dict(f)
        if lmax > 3 and rng.random() < .7:
            for key in ("lmin", "lmax", "mmin", "mmax"):
                if g.get(key) is not None and rng.random() < .6:
                    g[key] = rng.randint(-lmax if key[0] == "m" else 0, lmax + 1)
        v = p.arrays(1, **g)
        if v is not None and not p.dead and g.get("unset", True) is not None and len(v[0]) and d is None and rng.random() < .3:
            # build a set from what was enumerated
            ks = [(int(a), int(b)) for a, b in zip(v[0], v[1])]
            p.from_arrays(ks, [list(x) for x in v[2]], w)
    return p.case()


def sparse_case(rng):
    """A few coefficients of any degree, in any order."""
    w = rng.choice([1, 1, 2])
    top = rng.choice([60, 150, 600, 2000, 40000])
    ls = [rng.choice([0, 1, 2, rng.randint(0, top), rng.randint(0, top)]) for _ in range(rng.randint(2, 9))]
    p = build(rng, w, {(l, rng.choice([0, l, -l, rng.randint(-l, l)])) for l in ls})
    for _ in range(3 if top <= 150 else 0):           # (the code walks through every pair up to the highest degree)
        if p.dead: break
        f = dict(unset=False)
        for key in ("lmin", "lmax", "mmin", "mmax"):
            if rng.random() < .3: f[key] = rng.choice([0, 1, rng.randint(-top if key[0] == "m" else 0, top), rng.choice(ls)])
        p.arrays(1, **f)
    return p.case()


def from_arrays_case(rng):
    p = Pool()
    lmax = rng.choice([1, 3, 8])
    allp = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
    for _ in range(4):
        if p.dead: break
        w = rng.choice([1, 2, 3])
        ks = rng.sample(allp, rng.randint(1, min(8, len(allp))))
        if rng.random() < .35:
            ks.insert(rng.randrange(len(ks) + 1), rng.choice(ks))   # a repeated pair is refused
        vals = [rnd_value(rng, w) for _ in ks]
        k = rng.random()
        if k < .25 and w == 1: p.from_arrays(ks, vals, w, flat=True)
        elif k < .4: p.from_arrays(ks[:1], [vals[0][:1]], 1, scalar=True)
        else: p.from_arrays(ks, vals, w)
        if p.h and not p.dead:
            p.arrays(len(p.h), unset=rng.choice([True, False]))
    return p.case()


def corrupt(c):
    for e in c["ev"]:
        if e["op"] == "arrays" and len(e.get("k", ())) > 1:
            e["k"][0], e["k"][1] = e["k"][1], e["k"][0]
            return True
    return False


def corrupt_value(c):
    for e in c["ev"]:
        if e["op"] == "arrays" and len(e.get("k", ())) > 1:
            e["vs"][-1][0] = cx(99.125)
            return True
    return False


def run(chk):
    chk.model("ContainerMC")
    cases = [enum_case(chk.rng, chk.rng.choice([1, 2, 2, 3, 5, 12]), 6) for _ in range(4000 if THOROUGH else 500)]
    # every filter combination on one full and one sparse set
    for pairs in ([(l, m) for l in range(4) for m in range(-l, l + 1)], [(0, 0), (2, -1), (3, 3), (1, 1), (3, -2)]):
        for i in range(0, len(FILTERS), 25):
            p = build(chk.rng, 2, pairs)
            for f in FILTERS[i:i + 25]:
                if not p.dead:
                    p.arrays(1, **f)
            cases.append(p.case())
    cases += [sparse_case(chk.rng) for _ in range(500 if THOROUGH else 60)]
    cases += [from_arrays_case(chk.rng) for _ in range(1500 if THOROUGH else 250)]
    chk.judge("ContainerTrace", cases, corrupt=corrupt, label="enumeration and construction")
    chk.judge("ContainerTrace", cases[:30], corrupt=corrupt_value, label="enumeration (value canaries)")
