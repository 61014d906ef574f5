"""C23: LSD profile and stack plots."""
import os
import itertools
import numpy as np
import matplotlib.pyplot as plt
from harness import plotting as pt
from harness.vlib import THOROUGH, call, fx, exc_name, scratch
from starwinds_magnetogram import plot_lsd
from starwinds_magnetogram.bin import plot_lsd as command

SELECTIONS = ["".join(p) for n in (1, 2, 3) for p in itertools.permutations("IVN", n)]


def table(rng):
    n = rng.choice([2, 3, 5, 12, 12, 60])
    v = np.linspace(-rng.uniform(20, 80), rng.uniform(20, 80), n) if rng.random() < .7 else np.array([rng.uniform(-90, 90) for _ in range(n)])
    cols = [v]
    for k in range(3):
        cols += [np.array([rng.gauss(1 if k == 0 else 0, 10.0 ** -k) for _ in range(n)]), np.array([rng.uniform(1e-5, 1e-2) for _ in range(n)])]
    t = np.round(np.column_stack(cols), 9)
    if rng.random() < .4:                                   # exact zeros and other round values
        for _ in range(rng.randint(1, 6)):
            t[rng.randrange(n), rng.randrange(1, 7)] = rng.choice([0, 0, 0, 1])
    if rng.random() < .3: t[rng.randrange(n), rng.choice([1, 3, 5])] = 0
    if rng.random() < .1: t[:, rng.choice([3, 5])] = 0
    if rng.random() < .1: t[rng.randrange(n), 0] = t[0, 0]     # a velocity twice
    if rng.random() < .1: t = t[::-1].copy()
    return t


def rows(t):
    return [[fx(x) for x in r] for r in t]


def look(fig):
    axs = fig.axes
    return dict(panels=[pt.errorbars(a) for a in axs], labels=[a.get_ylabel() for a in axs],
                legends=[[t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else [] for a in axs],
                ylims=[[fx(x) for x in a.get_ylim()] for a in axs])


def clean(label):
    return list(label.replace("{", "").replace("}", "").replace(r"\mathrm", "").replace("$", ""))


def profile(rng, params, how):
    t = table(rng)
    c = dict(op="profile", params=list(params), rows=rows(t), panels=[], labels=[], wrote=[], asked=[], bad=[], _note="%s of %s" % (how, params))
    if how == "function":
        extra = rng.random() < .2
        fig, _ = plt.subplots(len(params) + extra, squeeze=False)
        keep = t.copy()
        ok, f = call(lambda: plot_lsd.plot_lsd_profile(t, params) if rng.random() < .5 else plot_lsd.plot_lsd_profile(t, parameters=params))
        if not ok: c["bad"].append(exc_name(f))
        else:
            try:
                s = look(fig)
                if extra:                                     # panels beyond the parameters stay empty
                    if s["panels"].pop(): c["bad"].append("panel too many")
                    s["labels"].pop()
                c["panels"], c["labels"] = s["panels"], [clean(x) for x in s["labels"]]
                if not np.array_equal(t, keep): c["bad"].append("data-changed")
            except Exception as e: c["bad"].append("malformed:%s" % e)
        plt.close("all")
        return c
    with scratch("lsd-") as d:
        skip = rng.choice([None, 0, 1, 2, 2, 3, 5])
        heads = 2 if skip is None else skip
        src = os.path.join(d, rng.choice(["star.lsd", "a b.prof", "star_v_01.profD"]))
        with open(src, "w") as f:
            for k in range(heads):
                f.write(rng.choice(["*** LSD profile of 'a star'\n", " 1 2 3 4 5 6 7\n", " 3 6\n", "1\n", "-9.5 1 1 1 1 1 1\n"]))
            for r in t: f.write(" ".join("%.9f" % x for x in r) + "\n")
        before = pt.files(d)
        out = rng.choice([None, "out.png", "sub/plot.png", "other.pdf", "x.png"])
        if out and "/" in out: os.mkdir(os.path.join(d, "sub"))
        opts = ["-p", params] if params != "VI" or rng.random() < .5 else []
        if rng.random() < .4 and opts: opts = ["--params", params]
        if skip is not None: opts += [rng.choice(["-s", "--skip-rows"]), str(skip)]
        pos = [src] + ([os.path.join(d, out)] if out else [])
        argv = opts + pos if rng.random() < .5 else pos + opts
        c["_note"] += " skip %s out %s" % (skip, out)
        cap = pt.Capture(look)
        with cap.active():
            ok, e = pt.command(command.main, argv)
        if not ok: c["bad"].append(exc_name(e))
        c["bad"] += cap.errors
        seen = cap.saved[-1][0] if out and cap.saved else cap.shown[-1] if not out and cap.shown else None
        if seen is None: c["bad"].append("no figure")
        else: c["panels"], c["labels"] = seen["panels"], [clean(x) for x in seen["labels"]]
        after = pt.files(d)
        c["wrote"] = sorted(k for k in after if after[k] != before.get(k))
        c["asked"] = [out] if out else []
        if any(k not in after or after[k] != before[k] for k in before): c["bad"].append("other files changed")
        if out and out in after:
            head = after[out][:4]
            if head not in (b"\x89PNG", b"%PDF"): c["bad"].append("no image")
    return c


def stack(rng):
    n = rng.choice([1, 2, 2, 3, 4, 5, 7, 8, 9, 10, 12])
    ts = [table(rng) for _ in range(n)]
    if rng.random() < .5:                                   # of quite different strengths
        for t in ts: t[:, 1:] *= rng.choice([.125, 1, 8])
    elif n > 1: ts[rng.choice([0, -1, -1, rng.randrange(n)])][:, 1:] *= 30      # one stands out
    names = rng.choice([None, ["file %d" % (9 - k) for k in range(n)], ["b%d.lsd" % k for k in range(n)]])
    lim = rng.choice(["none", "same", "same", "given"])
    given = [-rng.uniform(.1, 2), rng.uniform(.1, 2)]
    c = dict(op="stack", stack=[rows(t) for t in ts], panels=[], names=names or [], legends=[], limits=lim, given=[fx(x) for x in given],
             ylims=[], bad=[], _note="stack of %d names %s limits %s" % (n, names, lim))
    plt.close("all")
    u = rng.random()
    if u < .3: plt.subplots(n)                              # a figure to reuse
    elif u < .5: plt.subplots(n + 2)                        # a figure that does not fit
    y = {"none": None, "same": "same", "given": list(given)}[lim]
    ok, f = call(lambda: plot_lsd.plot_lsd_stack(ts, names) if y is None and rng.random() < .7 else plot_lsd.plot_lsd_stack(ts, names, y_lim=y))
    if not ok: c["bad"].append(exc_name(f))
    else:
        try:
            s = look(plt.gcf())
            c["panels"], c["ylims"] = s["panels"], s["ylims"]
            c["legends"] = [x[0] if len(x) == 1 else "?" for x in s["legends"]]
        except Exception as e: c["bad"].append("malformed:%s" % e)
    plt.close("all")
    return c


def corrupt(c):
    if len(c["panels"]) < 1 or not c["panels"][-1]: return False
    c["panels"][-1][-1][c["id"] % 4] = fx(77.125)
    return True


def run(chk):
    chk.model("LsdMC")
    rng = chk.rng
    cases = [profile(rng, p, how) for p in SELECTIONS for how in ("function", "command")]
    n = 300 if THOROUGH else 40
    cases += [profile(rng, rng.choice(SELECTIONS), rng.choice(["function", "command"])) for _ in range(n)]
    cases += [profile(rng, "".join(rng.choice("IVN") for _ in range(rng.randint(2, 5))), rng.choice(["function", "command"])) for _ in range(n // 2)]
    cases += [stack(rng) for _ in range(3 * n // 2)]
    chk.judge("LsdTrace", cases, corrupt=corrupt, ncanary=6, label="LSD plots of the real code")
    chk.extra["method"] = "All selections and orders of I, V, N by function and by command; panels read off the figures saved or shown."
