"""C01: lookups, extents and refused stores over store histories."""
import math
import numpy as np
from harness import pool
from harness.pool import Pool
from harness.vlib import THOROUGH


def replay(beh):
    """Replay a behaviour generated from ContainerMC by TLC in the real code."""
    p = Pool(note="TLC behaviour " + str([(o["op"], o.get("h"), o.get("l"), o.get("m")) for o in beh["ops"]]))
    p.new(np.zeros(beh["w"], dtype=complex))
    for o in beh["ops"]:
        if p.dead:
            break
        op = o["op"]
        if op in ("append", "set"):
            p.store(o["h"], o["l"], o["m"], [complex(*z) for z in o["v"]], op == "append")
        elif op == "copy": p.copy(o["h"])
        elif op in ("add", "sub", "mul"): p.binop(op, o["h"], o["g"])
        elif op == "trunc": p.trunc(o["h"], o["L"])
        elif op == "zeros_like": p.zeros_like(o["h"])
        elif op == "hstack": p.hstack(o["hs"])
        elif op == "hsplit": p.hsplit(o["h"])
        else: raise KeyError(op)
    for h in range(1, len(p.h) + 1):
        if p.dead: break
        for l in (0, 1):
            for m in (-1, 0, 1):
                if abs(m) <= l and not p.dead:
                    p.get(h, l, m)
    return p.case()


def rnd_value(rng, w):
    v = nominal(rng, w)
    if not pool.UNIT: return v
    return [complex(math.ldexp(z.real, -pool.UNIT), math.ldexp(z.imag, -pool.UNIT)) for z in v]


def nominal(rng, w):
    k = rng.random()
    if k < .2:
        return [complex(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(w)]
    s = 10 ** rng.uniform(-4, 4) if k < .8 else 10 ** rng.uniform(-14, 9)
    if k > .95: return [complex(rng.choice([0, s]), rng.choice([0, -s, 1])) for _ in range(w)]
    return [complex(rng.gauss(0, s), rng.gauss(0, s)) for _ in range(w)]


def random_history(rng, n, lmax):
    pool.UNIT = rng.choice([0] * 8 + [1000, 1040, 500, -900])
    try: return one_history(rng, n, lmax)
    finally: pool.UNIT = 0


def one_history(rng, n, lmax):
    p = Pool()
    w = rng.choice([1, 1, 2, 3, 5])
    if rng.random() < .5:
        p.new(np.zeros(w, dtype=complex))
    elif rng.random() < .3:
        w = 1
        p.new_plain()
    else:
        p.new(np.array(rnd_value(rng, w)))
    pairs = []
    if lmax > 40:
        places = [(rng.randint(0, lmax), 0) for _ in range(rng.randint(2, 14))]
        places = [(l, rng.choice([0, l, -l, rng.randint(-l, l)])) for l, _ in places]
    else:
        places = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
        places = rng.sample(places, min(len(places), rng.randint(2, 14)))
    for _ in range(n):
        if p.dead:
            break
        h = rng.randint(1, len(p.h))
        u = rng.random()
        if u < .55:
            l, m = rng.choice(places)
            if rng.random() < .15:      # out of the triangle, on both sides
                m = rng.choice([l + 1, -l - 1, l + 7, -l - 3])
                if rng.random() < .2:
                    l = -rng.randint(1, 4)
            wd = w if rng.random() < .88 else max(0, w + rng.choice([-1, 1, 2]))
            v = rnd_value(rng, wd)
            raw = None
            if wd == w:
                k = rng.random()
                if k < .1 and w == 1: raw = v[0]                      # bare number
                elif k < .2: raw = list(v)                            # list
                elif k < .25 and w == 1: raw = np.array(v[0])         # 0-d array
                elif k < .32 and not pool.UNIT:
                    v = [complex(int(z.real)) for z in v]; raw = np.array([int(z.real) for z in v])
            if len(v) == 0:
                v = rnd_value(rng, w + 1)
                raw = None
            ll, mm = (np.int64(l), np.int64(m)) if rng.random() < .15 else (l, m)
            p.store(h, ll, mm, v, rng.random() < .6, raw=raw)
        elif u < .75:
            p.get(h, *rng.choice(places))
        elif u < .85:
            p.has(h, *rng.choice(places))
        elif u < .9:
            p.default(h)
        elif len(p.h) < 4:
            rng.choice([p.copy, p.empty_like, p.copy])(h)
    for h in range(1, len(p.h) + 1):
        for l, m in places:
            if not p.dead:
                p.get(h, l, m)
    return p.case()


def corrupt(c):
    """Make an observation wrong: the judge has to reject it."""
    for e in reversed(c["ev"]):
        if e["op"] == "get" and e["ok"]:
            e["ret"][0][0] = [1, 0, 0, 0, 0, 0, 0, 9]
            return True
    return False


def corrupt_extent(c):
    for e in c["ev"]:
        if e["chg"]:
            e["chg"][0]["s"]["lmax"] += 1
            return True
    return False


def run(chk):
    chk.model("ContainerMC")
    beh = chk.generate("ContainerMC", "ContainerGen")
    chk.rng.shuffle(beh)
    # every behaviour at thorough tier, a large sample otherwise
    beh = beh if THOROUGH else beh[:2500]
    chk.judge("ContainerTrace", [replay(b) for b in beh], corrupt=corrupt,
              label="TLC behaviours replayed in the code")
    cases = [random_history(chk.rng, chk.rng.randint(5, 60), chk.rng.choice([2, 4, 9, 30, 2, 4, 9, 30, 1500, 40000]))
             for _ in range(3000 if THOROUGH else 350)]
    chk.judge("ContainerTrace", cases, corrupt=corrupt, label="random store histories")
    chk.judge("ContainerTrace", cases[:40], corrupt=corrupt_extent, label="random store histories (extent canaries)")
