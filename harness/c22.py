"""C22: wavelength intervals and spectrum plots."""
import numpy as np
from harness.vlib import THOROUGH, call, fx, exc_name, unfx
from starwinds_magnetogram import plot_lsd
import matplotlib.pyplot as plt


def intervals(w, limit, how, rng):
    arg = how(w)
    c = dict(op="intervals", w=[fx(x) for x in w], limit=fx(.2 if limit is None else limit), iv=[], bad=[],
             _note="wavelengths %s threshold %s" % (str(w)[:120], limit))
    keep = np.array(arg)
    ok, v = call(lambda: list(plot_lsd.wl_intervals(arg)) if limit is None else
                 list(plot_lsd.wl_intervals(arg, limit) if rng.random() < .5 else plot_lsd.wl_intervals(arg, threshold=limit)))
    if not ok:
        c["bad"] = [exc_name(v)]
        return c
    try:
        for a, b in v:
            if a != int(a) or b != int(b): raise ValueError("interval ends are no integers")
            c["iv"].append([int(a), int(b)])
        if not np.array_equal(np.array(arg), keep): c["bad"].append("argument-changed")
    except Exception as e:
        c["bad"] = ["malformed:%s" % e]
    return c


def rnd_list(rng, limit):
    n = rng.choice([2, 2, 3, 4, 6, 12, 30, 70, 150, 400])
    w = [rng.choice([0.0, 369.0, 500.0, rng.uniform(300, 1000), 10 ** rng.uniform(3, 8), -10 ** rng.uniform(0, 7)])]
    p = rng.choice([.02, .05, .3, .9])
    s = rng.choice([1, 1, -1])
    for _ in range(n - 1):
        d = limit * (rng.uniform(1.01, 8) if rng.random() < p else rng.uniform(0, .99))
        if rng.random() < .1: s = -s
        w.append(w[-1] + s * d)
    return w


def spectrum(rng):
    n = rng.choice([2, 3, 5, 10, 24, 40, 90])
    w = rnd_list(rng, .2)[:n]
    n = len(w)
    rows = np.column_stack([w] + [[rng.gauss(0, 1) for _ in range(n)] for _ in range(4)] + [[rng.uniform(.01, 1) for _ in range(n)]])
    if rng.random() < .3 and n > 3: rows[1:3, 1] = rows[0, 1]
    for _ in range(rng.choice([0, 0, 1, 3])):               # a sample twice
        rows[rng.randrange(n)] = rows[rng.randrange(n)]
    c = dict(op="spectrum", rows=[[fx(x) for x in r] for r in rows], panels=[], ylims=[], bad=[], _note="spectrum of %d samples %s" % (n, str(w)[:100]))
    keep = rows.copy()
    plt.close("all")
    ok, f = call(plot_lsd.plot_spectrum, rows)
    if not ok:
        c["bad"] = [exc_name(f)]
        return c
    try:
        for ax in f.axes:
            pts = []
            for col in ax.collections:
                off = col.get_offsets()
                if np.ma.is_masked(off): raise ValueError("masked samples")
                pts += [[fx(x), fx(y)] for x, y in np.asarray(off)]
            for line in ax.lines:
                pts += [[fx(x), fx(y)] for x, y in line.get_xydata()]
            c["panels"].append(pts)
            c["ylims"].append([fx(float(y)) for y in ax.get_ylim()])
        if not np.array_equal(rows, keep): c["bad"].append("data-changed")
    except Exception as e:
        c["bad"] = ["malformed:%s" % e]
    plt.close("all")
    return c


def corrupt(c):
    if c["op"] == "intervals":
        c["iv"][-1][1] -= 1
    else:
        c["panels"][-1][-1] = c["panels"][0][0]
    return True


HOW = [list, tuple, np.array]


def run(chk):
    beh = chk.generate("LsdMC", "LsdMC")
    rng = chk.rng
    cases = []
    for b in beh if THOROUGH else rng.sample(beh, min(len(beh), 1500)):
        c = intervals([unfx(x) for x in b["w"]], .25, rng.choice(HOW), rng)
        if not c["bad"] and c["iv"] != b["iv"]: c["bad"].append("differs from the generated intervals")
        cases.append(c)
    for _ in range(4000 if THOROUGH else 400):
        limit = rng.choice([None, .2, .5, 10.0, 1, .01])
        cases.append(intervals(rnd_list(rng, .2 if limit is None else limit), limit, rng.choice(HOW), rng))
    big = 500 + np.cumsum(np.where(np.arange(400) % 37 == 36, .5, .01))
    cases.append(intervals([float(x) for x in big], None, np.array, rng))
    cases += [spectrum(rng) for _ in range(120 if THOROUGH else 25)]
    chk.judge("LsdTrace", cases, corrupt=corrupt, ncanary=6, label="intervals and spectra of the real code")
    chk.extra["method"] = "All gap patterns of short spectra from the specification, random longer ones; points read off the drawn panels."
