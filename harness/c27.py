"""C27: Fibonacci spheres."""
import random
import numpy as np
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram.fibonacci_sphere import fibonacci_sphere


def case(rng, n, rnd=None):
    rnd = rng.random() < .5 if rnd is None else rnd
    c = dict(op="fib", n=n, fixed=not rnd, whole=n <= 60, pts=[], bad=[], _note="n=%d randomize=%s" % (n, rnd))
    u = rng.random()
    random.seed(rng.random())
    f = (lambda: fibonacci_sphere(n, True) if u < .5 else fibonacci_sphere(n, randomize=True)) if rnd else \
        (lambda: fibonacci_sphere(n) if u < .5 else fibonacci_sphere(n, randomize=False))
    ok, v = call(f)
    if ok: ok, w = call(f)
    if not ok:
        c["bad"] = [exc_name(v if not ok and isinstance(v, BaseException) else w)]
        return c
    try:
        v, w = np.asarray(v), np.asarray(w)
        if v.shape != (n, 3) or w.shape != (n, 3): raise ValueError("shape %s" % (v.shape,))
        if rnd and np.array_equal(v, w): c["bad"].append("not randomised")
        if not rnd and not np.array_equal(v, w): c["bad"].append("differs from call to call")
        ks = range(n) if c["whole"] else sorted({0, 1, 2, n - 2, n - 1} | {k + d for k in [rng.randrange(n - 6) for _ in range(6)] for d in range(5)})
        c["pts"] = [dict(k=k, p=[fx(x) for x in v[k]]) for k in ks]
    except Exception as e:
        c["bad"].append("malformed:%s" % e)
    return c


def corrupt(c):
    if not c["pts"]: return False
    c["pts"][-1]["p"][c["id"] % 3] = fx(.4321)
    return True


def run(chk):
    chk.model("FibMC")
    rng = chk.rng
    cases = [case(rng, n, r) for n in range(1, 41) for r in (False, True)]
    cases += [case(rng, rng.choice([rng.randint(41, 60), rng.randint(61, 3000)])) for _ in range(800 if THOROUGH else 60)]
    chk.judge("FibTrace", cases, corrupt=corrupt, label="Fibonacci spheres of the real code")
    chk.extra["method"] = "All sizes up to 40 with and without randomisation, larger sizes sampled; every point compared."
