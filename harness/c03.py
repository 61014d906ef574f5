"""C03: elementwise algebra, missing entries zero."""
import numpy as np
from harness.pool import Pool
from harness.c01 import rnd_value, replay
from harness.vlib import THOROUGH, cx


def seed_set(p, rng, w, lmax, support):
    """A set of complex, real or integer coefficients (the algebra has one meaning for all three)."""
    dtype = rng.choice([complex, complex, complex, float, int])
    order = list(support)
    rng.shuffle(order)
    if dtype is not complex:
        part = lambda: [rng.randint(-9, 9) if dtype is int else z.real for z in rnd_value(rng, w)]
        if order and rng.random() < .5:
            p.from_arrays(order, [part() for _ in order], w, flat=w == 1 and rng.random() < .5, dtype=dtype)
            return len(p.h)
        p.new(np.zeros(w, dtype=dtype))
        for l, m in order:
            if not p.dead:
                v = part()
                p.store(len(p.h), l, m, v, rng.random() < .5, raw=np.array(v, dtype=dtype))
        return len(p.h)
    p.new(np.zeros(w, dtype=complex))
    h = len(p.h)
    for l, m in order:
        if not p.dead:
            v = rnd_value(rng, w)
            if rng.random() < .12: v = [0j] * w
            p.store(h, l, m, v, rng.random() < .5)
    return h


def random_history(rng):
    p = Pool()
    w = rng.choice([1, 1, 2, 3, 4, 6])
    lmax = rng.choice([1, 2, 3, 6, 30])
    pairs = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
    for _ in range(rng.randint(2, 4)):
        k = rng.random()
        if k < .12: sup = []
        elif k < .3: sup = pairs[:1]
        else: sup = rng.sample(pairs, rng.randint(1, min(len(pairs), 9)))
        seed_set(p, rng, w, lmax, sup)
    if rng.random() < .3:          # a near copy, for closeness
        p.scale(1, lambda l, m: 1 + 1e-7 * (l + m))
    near, rng_flat = rng.random() < .2 and not p.dead, rng.random() < .5
    if near:                       # either side of a tolerance of a tenth, which is one of the second operand
        p.scale(1, lambda l, m: (.905, 1.105, 1.2, 1)[(l + m) % 4] if rng_flat else (.905, 1.105)[(l + m) % 2])
        for h, g in ((1, len(p.h)), (len(p.h), 1)):
            if not p.dead: (p.allclose(h, g, .1, 0.) if rng.random() < .3 else p.isclose(h, g, rtol=.1, atol=0.))
    W = lambda h: len(p.snaps[h - 1]["d"])
    for _ in range(rng.randint(4, 14)):
        if p.dead or len(p.h) > 14:
            break
        h, g = rng.randint(1, len(p.h)), rng.randint(1, len(p.h))
        u = rng.random()
        big = max([0] + [abs(float_of(z)) for s in (p.snaps[h - 1], p.snaps[g - 1]) for v in s["v"] for c in v for z in c])
        if u < .3:
            if W(h) == W(g) and big < 1e5:
                p.binop(rng.choice(["add", "sub", "mul", "add", "sub"]), h, g, rng.random() < .7)
        elif u < .42 and big < 1e7:
            z = rng.choice([2, -1, 0, 3.25, 1j, -.5 + 2j, np.float64(1.5), np.complex128(2 - 1j), rng.gauss(0, 3)])
            side = rng.choice(["left", "right", "fn", "div"])
            if side == "left" and isinstance(z, np.generic):
                side = "right"
            if side == "div":
                z = rng.choice([2.0, -4.0, .3, 1 + 1j, 2.5j, 7])
                if isinstance(z, int) and rng.random() < .5: z = float(z)
            p.times(h, z, side)
        elif u < .5:
            if big < 1e2: p.pow(h, rng.choice([0, 1, 2, 3]))
        elif u < .58:
            if big < 1e6:
                f = rng.choice([lambda l, m: 2 * l + 1, lambda l, m: (-1.0) ** m / (l + 2), lambda l, m: complex(l, m) + .5,
                                lambda l, m: l * (l + 1),
                                lambda l, m: 1.5 if (l + m) % 2 else 1j - .25,      # real for some pairs only
                                lambda l, m: 2j if (l + m) % 2 else l + 1])
                k = rng.choice([None, 1, 2, 0])
                if rng.random() < .3:
                    f, k = (lambda l, m: (l + 1) * (1.5 + .25 * m) + .125), -1
                p.scale(h, f, k, rng.random() < .5)
        elif u < .65:
            p.trunc(h, rng.choice([0, 1, 2, lmax - 1, lmax, lmax + 3]), rng.random() < .5)
        elif u < .75:
            if W(h) > 1:
                k = rng.random()
                if k < .5: p.hsplit(h, None, rng.random() < .5)
                elif k < .75:
                    ds = [d for d in range(1, W(h) + 1) if W(h) % d == 0]
                    p.hsplit(h, sections=rng.choice(ds))
                else:
                    cuts = sorted(rng.sample(range(1, W(h)), rng.randint(1, W(h) - 1)))
                    if rng.random() < .2:              # components may be empty
                        cuts = sorted(cuts + rng.sample(cuts + [0, W(h)], rng.randint(1, 2)))
                    p.hsplit(h, cuts)
                if not p.dead and rng.random() < .6 and len(p.ev[-1]["new"]) > 1:
                    k = len(p.ev[-1]["new"])
                    p.hstack(list(range(len(p.h) - k + 1, len(p.h) + 1)))
            elif W(h) == 1:
                p.hsplit(h)
        elif u < .85:
            hs = [rng.randint(1, len(p.h)) for _ in range(rng.randint(1, 4))]
            if sum(W(x) for x in hs) <= 12:
                p.hstack(hs, rng.random() < .3)
        elif u < .93:
            if W(h) == W(g):
                kw = rng.choice([dict(default=True), dict(rtol=1e-3, atol=0.0), dict(rtol=0.0, atol=.5),
                                 dict(rtol=1e-9, atol=1e-12)])
                p.isclose(h, g, **kw)
        elif u < .98:
            rt, at = rng.choice([(1e-5, 1e-8), (1e-3, 0.), (0., .5), (1e-9, 0.)])
            p.allclose(h, g, rt, at)
        else:
            p.zeros_like(h)
    return p.case()


def float_of(l):
    from harness.vlib import unfx
    return unfx(l)


def corrupt(c):
    for e in c["ev"]:
        if e["op"] not in ("new", "append", "set") and e["new"] and e["new"][-1]["v"]:
            e["new"][-1]["v"][-1][-1] = cx(123456.75 - 3j)
            return True
    return False


def run(chk):
    chk.model("ContainerMC")
    beh = chk.generate("ContainerMC", "ContainerGenAll")
    chk.rng.shuffle(beh)
    chk.judge("ContainerTrace", [replay(b) for b in (beh if THOROUGH else beh[:800])],
              label="TLC behaviours replayed in the code")
    cases = [random_history(chk.rng) for _ in range(4000 if THOROUGH else 700)]
    chk.judge("ContainerTrace", cases, corrupt=corrupt, label="algebra histories")
