"""C32: random coefficient sets."""
import numpy as np
from harness.vlib import THOROUGH, call, cx, fx, exc_name
from starwinds_magnetogram import coefficients as shc


def case(rng):
    lo = rng.choice([None, None, 1, 1, 2, 3, 5, 9])
    hi = rng.choice([None, 1, 2, 3, 4, 6, 9, 14, 15, 16])
    h = rng.choice([None, 0, 0, 256, 512, 768, 1024, 1536, -256, -512, rng.randint(-700, 1800), rng.randint(1, 511), rng.randint(-9, 9)])
    if lo is None and hi is None and rng.random() < .3: h = None
    if rng.random() < .08: lo, h = 0, rng.choice([None, 0])
    kw = {}
    if lo is not None: kw["degree_min"] = lo
    if hi is not None: kw["degree_max"] = hi
    if h is not None: kw["beta"] = h // 512 if h % 512 == 0 and rng.random() < .7 else h / 512
    own = rng.random() < .6
    c = dict(op="noise", lo=1 if lo is None else lo, hi=15 if hi is None else hi, h=h or 0, draws=[], es=[], bad=[],
             _note="noise(%s) %s" % (kw, "own numbers" if own else "seeded"))
    handed = []
    if own:
        dist = rng.choice([lambda: rng.gauss(0, 1), lambda: rng.uniform(-5, 900), lambda: float(rng.randint(-3, 3))])

        def numbers(size=1):
            v = np.array([dist() for _ in range(int(np.prod(size)))])
            handed.extend(v.copy())
            return v.reshape(size)
        kw["noise_fn"] = numbers
    seed = rng.randrange(2 ** 31)
    np.random.seed(seed)
    ok, s = call(lambda: shc.noise(**kw))
    if not ok:
        c["bad"].append(exc_name(s))
        return c
    if not own:
        after = np.random.random()
        np.random.seed(seed)
        n = sum(l + 1 for l in range(c["lo"], c["hi"] + 1))
        handed = [np.random.normal(size=2) for _ in range(n)]
        if np.random.random() != after: c["bad"].append("other random numbers used")
    try:
        if own:
            if len(handed) % 2: c["bad"].append("draws not in pairs")
            handed = [handed[k:k + 2] for k in range(0, len(handed) - 1, 2)]
        c["draws"] = [[fx(v[0]), fx(v[1])] for v in handed]
        for (l, m), v in s.contents():
            v = np.asarray(v)
            if v.shape != (1,): raise ValueError("value of shape %s" % (v.shape,))
            c["es"].append(dict(l=int(l), m=int(m), v=cx(v[0])))
        if s.default_coefficients.shape != (1,) or s.default_coefficients[0] != 0: c["bad"].append("default value")
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def corrupt(c):
    if not c["es"]: return False
    c["es"][-1]["v"][c["id"] % 2] = fx(17.5)
    return True


def run(chk):
    chk.model("NoiseMC")
    chk.judge("NoiseTrace", [case(chk.rng) for _ in range(3000 if THOROUGH else 300)], corrupt=corrupt,
              label="random coefficient sets of the code")
