"""C26: numbers written on plots."""
import math
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.colors import SymLogNorm
from harness.c21 import sx
from harness.vlib import THOROUGH, call, exc_name, limbs, spread
from starwinds_magnetogram import colorbar_manual_tickmarks as cm
from starwinds_magnetogram import plots


def sval(v):
    if not np.isrealobj(v): raise ValueError("not real")
    v = float(v)
    return dict(s=0, v=sx(1.0)) if v == 0 else dict(s=1 if v > 0 else -1, v=sx(abs(v)))


def major(rng, lo=None, hi=None, st=None):
    if lo is None:
        lo = rng.randint(-12, 8) if rng.random() < .8 else rng.randint(-60, 40)
        hi = lo + rng.choice([0, 0, 1, 2, 3, 5, 9, 13, 21])
        st = rng.choice([1, 1, 2, 3, 4, 7])
    c = dict(op="major", lo=lo, hi=hi, st=st, vals=[], labels=[], bad=[], _note="major %d %d %d" % (lo, hi, st))
    ok, v = call(cm.generate_major, lo, hi, st)
    if not ok: c["bad"] = [exc_name(v)]; return c
    try:
        c["vals"] = [sval(x) for x in v[0]]
        c["labels"] = [list(str(x)) for x in v[1]]
    except Exception as e: c["bad"] = ["malformed:%s" % e]
    return c


def minor(rng, lo=None, hi=None, st=None):
    if lo is None:
        lo = rng.randint(-12, 8) if rng.random() < .8 else rng.randint(-60, 40)
        hi = lo + rng.choice([0, 0, 1, 2, 3, 5, 7, 8, 12, 20])
        st = rng.choice([1, 1, 2, 3, 5])
    c = dict(op="minor", lo=lo, hi=hi, vals=[], bad=[], _note="minor %d %d" % (lo, hi))
    ok, v = call(cm.generate_minor, lo, hi, st)
    if not ok: c["bad"] = [exc_name(v)]; return c
    try: c["vals"] = [sval(x) for x in v]
    except Exception as e: c["bad"] = ["malformed:%s" % e]
    return c


OTHER = ["0", "", "$0$", "ten", "$x^{2}$", r"$\mathdefault{0}$", "10", "$B_{r}$", "{", "}", "}{", "$10^{a}$", "1e4", "$10^4$", r"$\mathrm{T}$", "{3}"]


def shift(rng, text=None, by=None):
    if text is None:
        e = rng.choice([rng.randint(-9, 9), rng.randint(-30, 30), -4, 0, 4, -5, 96, -104])
        sign = rng.choice(["", "-", "+"])
        text = rng.choice(["$%s10^{%d}$" % (sign, e)] * 3 + [r"$\mathdefault{%s10^{%d}}$" % (sign, e), r"$%s%d\times 10^{%d}$ T" % (sign, rng.randint(1, 9), e),
                           "10^{%d}" % e, r"$\mathbf{-10^{%d}}$" % e] + [rng.choice(OTHER)])
        by = rng.choice([None, 4, 4, -4, 0, 1, 3, -11])
    c = dict(op="shift", txt=list(text), by=4 if by is None else by, out=[], bad=[], _note="relabel %r by %s" % (text, by))
    ok, v = call(lambda: cm.tesla_to_gauss(text) if by is None else cm.tesla_to_gauss(text, by))
    if not ok: c["bad"] = [exc_name(v)]; return c
    if not isinstance(v, str): c["bad"] = ["malformed"]; return c
    c["out"] = list(v)
    return c


def tex(rng, x=None):
    if x is None:
        u = rng.random()
        if u < .35: x = rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6)
        elif u < .5: x = rng.choice([-1, 1]) * 10 ** rng.uniform(-280, 280)
        elif u < .65: x = rng.choice([-1, 1]) * rng.choice([9.995, 99.95, 999.5, .09995, 9.9949999, 1.005, .0009995]) * 10.0 ** rng.randint(-6, 6)
        elif u < .8: x = float(rng.randint(-1200, 1200))
        elif u < .85: x = rng.randint(-100000, 100000)
        elif u < .9: x = np.float64(rng.gauss(0, 1) * 10 ** rng.uniform(-9, 9))
        elif u < .95: x = rng.choice([0.0, 0, 1e-300, 1.0, 10.0, 100.0, 1000.0, .1, .001, .0001, 1e-5, 1e5, 1e3, 12345.0])
        else: x = np.float32(rng.gauss(0, 1) * 1000)
    f = float(x)
    n, d = abs(f).as_integer_ratio()
    c = dict(op="tex", neg=math.copysign(1, f) < 0, num=limbs(n), den=limbs(d), out=[], bad=[], _note="tex %r" % x)
    ok, v = call(plots.latex_float, x)
    if not ok: c["bad"] = [exc_name(v)]; return c
    if not isinstance(v, str): c["bad"] = ["malformed"]; return c
    c["out"] = list(v)
    return c


def bar(rng):
    """a symlog colour bar and its marks"""
    hi = rng.randint(-4, 6)
    lo = hi - rng.choice([0, 1, 2, 3, 5, 7, 9])
    a, b = rng.randint(10, 99), rng.choice([0, rng.randint(10, 99)])
    k = rng.choice([hi, hi, hi - 1, lo, hi + 1])
    if rng.random() < .5: a = b = rng.choice([10, 20, 35, 90, a]); k = hi
    top, low = float("%de%d" % (a, hi - 1)), -float("%de%d" % (b, k - 1)) if b else 0.0
    lin = float("%de%d" % (rng.randint(11, 99), lo - 1))
    st = rng.choice([1, 1, 2, 3])
    side = rng.choice("xy")
    c = dict(op="bar", lo=lo, hi=hi, st=st, a=a, b=b, k=k, vals=[], labels=[], minor=[], bad=[], _note="bar %r..%r linear %r step %d on %s" % (low, top, lin, st, side))
    fig, ax = plt.subplots()
    try:
        im = ax.pcolormesh(np.linspace(low, top, 12).reshape(3, 4), norm=SymLogNorm(lin, vmin=low, vmax=top, base=10))
        cb = fig.colorbar(im, orientation="vertical" if side == "y" else "horizontal")
        args, kw = ([st], dict(axis=side)) if rng.random() < .5 else ([], dict(axis=side, major_tick_step=st))
        if st == 1: args = []; kw.pop("major_tick_step", None)
        if side == "x" and rng.random() < .5: kw.pop("axis")
        ok, v = call(lambda: cm.auto_symlog_tickmarks(cb, *args, **kw))
        if not ok: c["bad"] = [exc_name(v)]; return c
        fig.canvas.draw()
        axis = cb.ax.yaxis if side == "y" else cb.ax.xaxis
        got = sorted(axis.get_view_interval())
        if max(abs(got[0] - low), abs(got[1] - top)) > 1e-6 * (top - low): c["bad"].append("limits of the bar changed")
        c["vals"] = [sval(x) for x in axis.get_majorticklocs()]
        c["labels"] = [list(t.get_text()) for t in axis.get_majorticklabels()]
        c["minor"] = [sval(x) for x in axis.get_minorticklocs()]
    except Exception as e: c["bad"].append("malformed:%s" % e)
    finally: plt.close(fig)
    return c


def corrupt(c):
    if c["op"] == "bar":
        if c["id"] % 2 and c["minor"]: c["minor"][0] = sval(-7.77)
        elif c["vals"]: c["vals"][-1] = sval(7.77)
        else: return False
        return True
    if c["op"] in ("major", "minor"):
        if not c["vals"]: return False
        c["vals"][-1] = sval(1.2345)
    elif c["op"] == "shift":
        c["out"] = c["out"][:-1] + ["?"]
    else:
        if "1" not in c["out"]: return False
        c["out"][c["out"].index("1")] = "7"
    return True


def run(chk):
    chk.model("LabelMC")
    rng = chk.rng
    cases = [major(rng, lo, lo + w, st) for lo in range(-6, 5, 2) for w in range(0, 6) for st in (1, 2, 3)]
    cases += [minor(rng, lo, lo + w, 1) for lo in range(-6, 5, 3) for w in range(0, 4)]
    cases += [minor(rng, lo, lo + w, st) for lo in (-9, -3, 1) for w in (2, 5, 7, 9, 11) for st in (1, 2, 3, 4)]
    cases += [shift(rng, "$%s10^{%d}$" % (s, e), b) for s in ("", "-") for e in range(-12, 13) for b in (None, -4, 1)]
    cases += [shift(rng, t, b) for t in OTHER for b in (None, 2)]
    cases += spread(rng, bar, 1000 if THOROUGH else 100)
    n = 6000 if THOROUGH else 500
    cases += [rng.choice([major, minor, shift, tex, tex, tex])(rng) for _ in range(n)]
    chk.judge("LabelTrace", cases, corrupt=corrupt, ncanary=8, label="ticks, labels and numbers of the real code")
    chk.extra["method"] = "Exponent ranges, steps, shifts and labels swept over a grid and at random; TeX numbers read by the specified reader and compared exactly."
