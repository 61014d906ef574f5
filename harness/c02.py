"""C02: no aliasing, no changed operands, over histories of derive / mutate / look again."""
import copy
import cmath
import numpy as np
from harness.pool import Pool
from harness.c01 import rnd_value, replay
from harness.vlib import THOROUGH, call
from starwinds_magnetogram import coefficients as shc, converter


def seed_pool(p, rng, lmax, nonneg=False, widths=(1, 1, 2, 3)):
    for _ in range(rng.randint(1, 2)):
        w = rng.choice(widths)
        if rng.random() < .7:
            p.new(np.zeros(w, dtype=complex))
        else:
            p.new(np.array(rnd_value(rng, w)))
        h = len(p.h)
        pairs = [(l, m) for l in range(lmax + 1) for m in range(0 if nonneg else -l, l + 1)]
        for l, m in rng.sample(pairs, rng.randint(0, min(len(pairs), 8))):
            p.store(h, l, m, rnd_value(rng, w), rng.random() < .5)


def random_history(rng, n, lmax, rotate=None):
    p = Pool()
    seed_pool(p, rng, lmax, nonneg=rng.random() < .5)
    pairs = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
    W = lambda h: len(p.snaps[h - 1]["d"])
    handed_out = []
    while len(p.ev) < n and not p.dead:
        h = rng.randint(1, len(p.h))
        full = len(p.h) >= 9
        u = rng.random()
        l, m = rng.choice(pairs)
        if u < .22:
            p.store(h, l, m, rnd_value(rng, W(h)), rng.random() < .4)
        elif u < .28:
            p.store(h, l, l + 1, rnd_value(rng, W(h)), rng.random() < .5)
        elif u < .42:
            # write into arrays handed in or out
            k = rng.random()
            if k < .35 and p.args:
                p.poke(rng.choice(p.args))
            elif k < .5:
                a = p.default(h)
                if a is not None: handed_out.append(a); p.poke(a)
            elif k < .7:
                missing = [q for q in pairs if list(q) not in p.snaps[h - 1]["k"]]
                if missing:
                    a = p.get(h, *rng.choice(missing))
                    if a is not None and not p.dead: handed_out.append(a); p.poke(a)
            elif k < .85:
                kw = rng.choice([dict(), dict(unset=False), dict(unset=True, lmax=lmax + 1)])
                a = p.arrays(h, **kw)
                if a is not None and not p.dead: p.poke(rng.choice(a))
            elif p.snaps[h - 1]["k"]:
                q = rng.choice(p.snaps[h - 1]["k"])
                p.poke_stored(h, q[0], q[1], rng.choice([5 + 1j, -2.5]))
            if not p.dead:
                p.get(h, l, m)
        elif u < .5:
            p.get(h, l, m)
        elif u < .55:
            g = rng.randint(1, len(p.h))
            if W(g) == W(h):
                rng.choice([p.isclose, p.allclose])(h, g)
        elif full:
            p.get(h, l, m)
        elif u < .63:
            p.copy(h, rng.random() < .5)
        elif u < .66:
            p.empty_like(h)
        elif u < .68:
            p.zeros_like(h)
        elif u < .72:
            p.trunc(h, rng.choice([rng.randint(0, lmax), lmax, lmax + 7]))
        elif u < .76:
            p.scale(h, rng.choice([lambda a, b: (a + 1) * (1 + .5j * b), lambda a, b: 1]), rng.choice([None, 1, 2]))
        elif u < .82:
            g = rng.randint(1, len(p.h))
            if W(g) == W(h) and not any(cmath_nonzero(p.snaps[x - 1]["d"]) for x in (g, h)):
                p.binop(rng.choice(["add", "sub", "mul"]), h, g)
        elif u < .85:
            p.times(h, rng.choice([2, -1, .5, 1j, 1, 1, 1., 1 + 0j]), rng.choice(["left", "right", "div"]))
        elif u < .87:
            p.pow(h, rng.choice([1, 2]))
        elif u < .9:
            if len(p.h) + W(h) <= 10: p.hsplit(h, **rng.choice([{}, {}, dict(sections=1)]))
        elif u < .94:
            hs = [rng.randint(1, len(p.h)) for _ in range(rng.randint(1, 3))]
            p.hstack(hs)
        elif u < .955:
            ks = rng.sample(pairs, rng.randint(1, min(4, len(pairs))))
            w = rng.choice([1, 2])
            p.from_arrays(ks, [rnd_value(rng, w) for _ in ks], w)
        else:
            s = p.S(h)
            keys = p.snaps[h - 1]["k"]
            if not keys or cmath_nonzero(p.snaps[h - 1]["d"]):
                continue
            if W(h) == 1:
                k = rng.choice(["fold", "z2p", "p2z", "rot"])
                if k == "fold":
                    p.derive("fold", lambda: converter.map_to_positive_orders(s))
                elif k == "z2p":
                    p.derive("zdi to pfss", lambda: converter.convert_zdi_to_pfss(s))
                elif k == "p2z":
                    p.derive("pfss to zdi", lambda: converter.convert_pfss_to_zdi(s))
                elif rotate:
                    p.derive("rotate", lambda: rotate(s, rng))
            elif rotate:
                p.derive("rotate", lambda: rotate(s, rng))
    return p.case()


def cmath_nonzero(d):
    return any(z != [[0], [0]] for z in d)


def corrupt(c):
    """Claim that an unrelated set changed."""
    ev = c["ev"]
    for i, e in enumerate(ev):
        if e["op"] in ("copy", "poke", "trunc", "add") and e["ok"]:
            prev = next((x["new"][0] for x in ev[:i] if x["new"]), None)
            if prev is None:
                continue
            s = copy.deepcopy(prev)
            s["d"][0][0] = [1, 5]
            e["chg"] = e["chg"] + [dict(h=1, s=s)]
            return True
    return False


def run(chk):
    chk.model("ContainerMC")
    beh = chk.generate("ContainerMC", "ContainerGenAll")
    chk.rng.shuffle(beh)
    chk.judge("ContainerTrace", [replay(b) for b in (beh if THOROUGH else beh[:1200])],
              label="TLC behaviours replayed in the code", corrupt=corrupt)
    from starwinds_magnetogram import rotate as rot

    def rotate(s, rng):
        if rng.random() < .5:
            return rot.rotate_magnetogram_euler_zyz_deg(s, rng.choice([[0, 0, 0], [rng.uniform(0, 360) for _ in range(3)], [rng.uniform(0, 360) for _ in range(3)]]))
        import quaternion
        q = rng.choice([np.quaternion(1, 0, 0, 0), np.quaternion(*[rng.gauss(0, 1) for _ in range(4)]), np.quaternion(*[rng.gauss(0, 1) for _ in range(4)])])
        return rot.rotate_magnetogram(s, q / abs(q))
    n = 2500 if THOROUGH else 300
    cases = [random_history(chk.rng, chk.rng.randint(10, 45), chk.rng.choice([1, 2, 3]), rotate) for _ in range(n)]
    chk.judge("ContainerTrace", cases, corrupt=corrupt, label="derive/mutate histories")
