"""C06: a written file reads back as what was written."""
import os
import numpy as np
from harness import filetext as ft, pool
from harness.pool import snap
from harness.vlib import THOROUGH, call, scratch, cx, exc_name
from starwinds_magnetogram import reader_writer as rw
from starwinds_magnetogram import coefficients as shc


def value(rng, w):
    if pool.UNIT:
        f = lambda: rng.choice([0.0, 1.0, rng.choice([-1, 1]) * 10 ** rng.uniform(-300, -15), -10 ** rng.uniform(-30, 0)])
        return np.array([complex(f(), f()) for _ in range(w)])
    f = lambda: rng.choice([0.0, 1.0, rng.gauss(0, 100), rng.uniform(-1, 1) * 10 ** rng.uniform(-7, 8),
                            9.9999995, -99999.9996, 1e8, 1e-8, 123456.7, 0.1,
                            rng.choice([-1, 1]) * 10 ** rng.uniform(-150, 150) if rng.random() < .3 else -0.0])
    return np.array([complex(f(), f()) for _ in range(w)])


def random_set(rng, lmax=None):
    w = rng.choice([1, 1, 2, 3, 3, 4])
    lmax = rng.choice([0, 1, 2, 3, 5, 10, 30]) if lmax is None else lmax
    k = rng.random()
    d = np.zeros(w, dtype=complex)
    if rng.random() < .1: d = value(rng, w)
    s = shc.Coefficients(d)
    pairs = [(l, m) for l in range(lmax + 1) for m in range(-l if rng.random() < .4 else 0, l + 1)]
    if k < .1: ks = []
    elif k < .4 and lmax <= 10: ks = list(pairs)
    else: ks = rng.sample(pairs, rng.randint(1, min(len(pairs), 12)))
    rng.shuffle(ks)
    for l, m in ks:
        s.append(l, m, value(rng, w))
    return s


def high_set(rng):
    """A few coefficients of high degree and order (files list every pair above the lowest order asked for)."""
    top = rng.choice([99, 100, 101, rng.randint(60, 400), 1000])
    s = shc.Coefficients(np.zeros(rng.choice([1, 3]), dtype=complex))
    for m in rng.sample(range(top - 3, top + 1), rng.randint(1, 3)):
        s.append(top, m, value(rng, len(s.default_coefficients)))
    return s


def case(rng, d, i, force=None):
    high = rng.random() < .06
    s = high_set(rng) if high else random_set(rng)
    c = dict(op="write", set=snap(s))
    top = s.degree_max
    L = -1 if rng.random() < .4 else rng.choice([0, max(0, top - 1), top, top + 1, top + 3, rng.randint(0, 12)])
    eff = top if L < 0 else L
    mmin = rng.choice([None, None, 0, 0, -1, -2, -eff - 1, 1, -30])
    if mmin == 1 and eff < 1: mmin = 0
    if high:
        L = rng.choice([-1, top, top + 1])
        mmin = top - rng.randint(0, 4)
    swmf = rng.random() < .5
    name = rng.choice(["out.dat", "CR2077", "a_b-c.txt", "7", "1e5", "field(1).dat", "-3", "0.5", "x" * 60]) + ".%d" % i
    if rng.random() < .3: name = str(i)
    path = os.path.join(d, name)
    target = rng.choice([path, name])
    kw = {}
    if L >= 0: kw["degree_max"] = L
    if mmin is not None: kw["order_min"] = mmin
    if swmf or rng.random() < .5: kw["write_swmf_header"] = swmf
    ok, e = call(lambda: rw.write_magnetogram_file(s, target, **kw))
    note = "write lmax=%s L=%s mmin=%s swmf=%s width=%d size=%d" % (top, L, mmin, swmf, len(c["set"]["d"]), s.size)
    c.update(L=L, mmin=0 if mmin is None else mmin, swmf=swmf, text=[], ok=False, err="", _note=note, bad=[],
             res=dict(d=[], k=[], v=[], lmax=0, mmin=0, size=0))
    if not ok:
        c["bad"] = [exc_name(e)]
        return c
    if snap(s) != c["set"]:
        c["bad"] = ["operand-changed"]
    try:
        with open(path) as f:
            text = f.read()
    except OSError as e:
        c["bad"] = ["no-file:" + type(e).__name__]
        return c
    r = ft.read_case(rw.read_magnetogram_file, path, note)
    c["bad"] += r["bad"]
    c.update(ok=r["ok"], err=r["err"], res=r["res"], text=ft.lines_of(text))
    return c


def corrupt(c):
    if not c["res"]["v"]:
        return False
    c["res"]["v"][-1][-1] = cx(777.5)
    return True


def run(chk):
    chk.model("MagFileMC")
    with scratch() as d:
        os.chdir(d)
        cases = [case(chk.rng, d, i) for i in range(2500 if THOROUGH else 450)]
        os.chdir("/")
        chk.judge("MagFileTrace", cases, corrupt=corrupt, label="sets written and read back")
        os.chdir(d)
        pool.UNIT = 1020
        try: cases = [case(chk.rng, d, i) for i in range(300 if THOROUGH else 50)]
        finally: pool.UNIT = 0
        os.chdir("/")
        chk.judge("MagFileTrace", cases, cfg="MagFileTraceTiny", corrupt=corrupt, ncanary=3, label="sets of very small numbers")
