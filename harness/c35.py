"""C35: maps drawn on axes."""
import math
import re
import warnings
from fractions import Fraction
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import QuadMesh
from matplotlib.colors import Normalize, SymLogNorm, AsinhNorm
from matplotlib.contour import QuadContourSet
from harness import plotting as pt
from harness.c24 import MARK
from harness.vlib import THOROUGH, call, fx, limbs, exc_name, spread
from starwinds_magnetogram import plots, plot_zdi
from starwinds_magnetogram.geometry import ZdiGeometry

NAMES = ("B_r", r"B_\theta", "|B|", "X", r"\Delta B", "B_{r,3}")


def rad(x): return fx(float(np.rad2deg(x)))


class Unit:
    """Numbers of a step in units of 2^e: exact for the values, monotone for the rest."""
    def __init__(self, arrays):
        top = max([abs(float(x)) for a in arrays for x in np.asarray(a).flat] + [0])
        self.e = math.frexp(top)[1] if top else 0

    def __call__(self, x):
        x = float(x)
        if not math.isfinite(x): return fx(x)
        return fx(Fraction(x) / (Fraction(2) ** self.e))


# ------------------------------------------------------------- requests
def axis(rng, lo, hi, n):
    while True:
        e = np.sort([rng.uniform(lo, hi) for _ in range(n + 1)])
        if rng.random() < .4: e = np.linspace(lo, hi, n + 1)
        if np.min(np.diff(e)) > .03: break
    return e


def numbers(rng, cl, shape, wide):
    """an array of the wanted class"""
    kind = rng.choice(["float", "float", "float", "int", "few", "float32"])
    scale = 1.0 if kind == "int" else 10.0 ** rng.choice([0, 0, 0, 1, 3, -2, -5] + ([-9, -30, -150, 120] if wide else []) if kind != "float32" else [0, 2, -3])
    def one():
        if kind == "int": return float(rng.randint(1, rng.choice([3, 9, 2000])))
        if kind == "few": return float(rng.choice([.5, 1, 2])) * scale
        return scale * rng.choice([rng.uniform(.01, 1), rng.uniform(.9, 1), 10 ** rng.uniform(-12, 0), 1.0])
    sign = {"positive": [1], "negative": [-1], "mixed": [1, -1], "zero": [0], "touching": rng.choice([[0, 1], [0, -1]]), "constant": None}[cl]
    if cl == "mixed" and rng.random() < .4: sign = [1, -1, 0]
    if cl == "mixed" and rng.random() < .15: sign = rng.choice([[1] * 12 + [-1], [-1] * 12 + [1]])
    while True:
        if sign is None:
            v = np.full(shape, one() * rng.choice([1, -1]))
        elif rng.random() < .25 and cl in ("mixed", "positive", "negative"):
            # the real thing: something smooth
            i, j = np.indices(shape)
            v = scale * np.round(np.sin(i * rng.uniform(.2, 2) + rng.uniform(0, 6)) * np.cos(j * rng.uniform(.2, 2) + rng.uniform(0, 6)), 9)
            v = v + (0 if cl == "mixed" else (1.01 if cl == "positive" else -1.01) * scale)
        else:
            v = np.array([rng.choice(sign) * one() for _ in range(shape[0] * shape[1])]).reshape(shape)
        if kind == "int": v = np.round(v).astype(rng.choice([int, np.int32]))
        elif kind == "float32": v = v.astype(np.float32)
        if cl == "mixed" and kind == "float" and rng.random() < .15:     # one sign much weaker
            v = np.where(v * rng.choice([1, -1]) > 0, v, v * 10 ** rng.uniform(-7, -3))
        v = v + 0                       # no negative zeros
        if classed(v) == cl: return v


def classed(v):
    s = {int(np.sign(x)) for x in v.flat}
    if s == {0}: return "zero"
    if {-1, 1} <= s: return "mixed"
    if 0 in s: return "touching"
    if len({float(x) for x in v.flat}) == 1: return "constant"
    return "positive" if s == {1} else "negative"


class Panel:
    """a grid with values: arrays as the functions want them, and rows for the specification"""
    def __init__(self, rng, cl, most=6, wide=True, grid=None):
        self.grid = grid
        if grid is None:
            n, m = rng.randint(2, most), rng.randint(2, most)
            self.ae, self.pe = axis(rng, 0, 2 * np.pi, n), axis(rng, 0, np.pi, m)
            self.ac, self.pc = (self.ae[1:] + self.ae[:-1]) / 2, (self.pe[1:] + self.pe[:-1]) / 2
            if rng.random() < .15: self.ae, self.ac = self.ae[::-1], self.ac[::-1]
            if rng.random() < .15: self.pe, self.pc = self.pe[::-1], self.pc[::-1]
            self.order = rng.choice(["ij", "xy"])
        else: self.ae, self.pe, self.ac, self.pc, self.order = grid
        self.v = numbers(rng, cl, (len(self.ac), len(self.pc)), wide)    # v[i][j], i azimuth
        self.shape(self.order)

    def shape(self, order):
        self.order = order
        v = self.v
        lay = (lambda a, b: np.meshgrid(a, b, indexing=self.order))
        self.A, self.P = lay(self.ac, self.pc)
        self.AE, self.PE = lay(self.ae, self.pe)
        self.V = v if self.order == "ij" else v.T.copy()

    def rows(self, u):
        return dict(vals=[[u(x) for x in r] for r in self.v], xc=[rad(x) for x in self.ac], yc=[rad(x) for x in self.pc])


# ------------------------------------------------------------- reading axes
def lines(p, cs, u):
    out = []
    for level, segs in zip(cs.levels, cs.allsegs):
        pts = [dict(x=fx(float(x)), y=fx(float(y))) for s in segs for x, y in s]
        seen, uniq = set(), []
        for v in pts:
            k = str(v)
            if k not in seen: uniq.append(v)
            seen.add(k)
        out.append(dict(level=u(level), pts=uniq))
    return out


def quads(p, mesh, u):
    xy = np.asarray(mesh.get_coordinates(), dtype=float)
    val = np.ma.filled(np.ma.asarray(mesh.get_array(), dtype=float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    xs, ys = np.rad2deg(p.ac), np.rad2deg(p.pc)
    out = []
    for k in np.ndindex(val.shape):
        c = xy[k[0]:k[0] + 2, k[1]:k[1] + 2].reshape(4, 2)
        x0, x1, y0, y1 = c[:, 0].min(), c[:, 0].max(), c[:, 1].min(), c[:, 1].max()
        i = next((n + 1 for n, x in enumerate(xs) if x0 < x < x1), 0)
        j = next((n + 1 for n, y in enumerate(ys) if y0 < y < y1), 0)
        out.append(dict(i=i, j=j, x0=fx(x0), x1=fx(x1), y0=fx(y0), y1=fx(y1), v=u(val[k])))
    return out


class Layers:
    """what is new on the axes"""
    def __init__(self, ax): self.ax, self.c, self.l = ax, list(ax.collections), list(ax.lines)
    def meshes(self): return [c for c in self.ax.collections if isinstance(c, QuadMesh) and c not in self.c]
    def contours(self): return [c for c in self.ax.collections if isinstance(c, QuadContourSet) and c not in self.c]
    def lines(self): return [c for c in self.ax.lines if c not in self.l]


def drawing(ax, p, mesh, sets, u):
    if any(c not in ax.collections for c in [mesh] + sets): raise ValueError("layer gone")
    lo, hi = mesh.get_clim()
    return dict(quads=quads(p, mesh, u), lo=u(lo), hi=u(hi), cmap=mesh.get_cmap().name, lines=sum((lines(p, c, u) for c in sets), []))


def marks(p, ls, u, ret):
    out = dict(ret=[] if ret is None else [u(x) for x in ret])
    xs, ys = np.rad2deg(p.ac), np.rad2deg(p.pc)
    for l in ls:
        m = MARK.match(l.get_label())
        if not m or len(l.get_xydata()) != 1: continue
        x, y = l.get_xydata()[0]
        i, j = np.argmin(abs(xs - x)), np.argmin(abs(ys - y))
        v = Fraction(float(p.v[i][j]))
        t = m.group(3)
        out[m.group(1).lower()] = dict(x=fx(x), y=fx(y), v=u(p.v[i][j]), text=list(t), name=list(m.group(2)), neg=v < 0 or (v == 0 and t.startswith("-")),
                                       num=limbs(abs(v.numerator)), den=limbs(v.denominator))
    if "max" not in out or "min" not in out: raise ValueError("extremes not marked")
    return out


def upright(ax): return bool(ax.get_ylim()[0] > ax.get_ylim()[1] and ax.get_xlim()[0] < ax.get_xlim()[1])


def labelled(ax): return "zimuth" in ax.get_xlabel() and "olar" in ax.get_ylabel() and ax.get_aspect() in ("equal", 1.0) and \
    all(l.get_visible() for l in ax.xaxis.get_gridlines() + ax.yaxis.get_gridlines())


# ------------------------------------------------------------- sessions
def norm_of(rng, lo, hi):
    u = rng.random()
    if u < .6 or not lo < 0 < hi: return Normalize(vmin=lo, vmax=hi)
    return SymLogNorm(linthresh=max(abs(lo), hi) / 100, vmin=lo, vmax=hi) if u < .8 else AsinhNorm(linear_width=hi / 9, vmin=lo, vmax=hi)


def blank(h, p, u):
    s = dict(op=h["op"], sym=h["sym"], zc=h["zc"], lo=[], hi=[], name=[], levels=[], xe=[], ye=[], cmap="", bad=[], got={}, later={},
             upright=True, labelled=True, kept=True)
    s["class"] = h["class"]
    s.update(p.rows(u))
    return s


def equi_geometry(rng, p):
    """plot_equirectangular works on a geometry"""
    return ZdiGeometry(p.pe, p.ae)


def step(rng, h, ax, memo):
    """-> step record, function that looks again"""
    wide = h["op"] != "contours" and "contours" not in memo["ops"]
    if h["op"] == "contours":
        p, mesh, cax = memo["last"], memo["mesh"], memo["cax"]
        cl = classed(p.v)
    else:
        p = Panel(rng, h["class"], wide=wide)
        cl = h["class"]
    if h["op"] == "equi":
        g = equi_geometry(rng, p)
        p.shape("ij")
    u = Unit([p.v])
    s = blank(dict(h, **{"class": cl}), p, u)
    lay = Layers(ax)
    look = None
    given = [p.P, p.A, p.V, p.PE, p.AE]
    before = [x.copy() for x in given]
    if h["op"] == "field":
        kw = {}
        if h["sym"] != "auto" or rng.random() < .2: kw["symmetric"] = dict(auto=None, yes=True, no=False)[h["sym"]]
        if not h["zc"] or rng.random() < .3: kw["zero_contour"] = h["zc"]
        lo, hi = float(np.min(p.v)), float(np.max(p.v))
        big = max(abs(lo), abs(hi))
        if rng.random() < .25 and big > 0:
            a, b = sorted([rng.uniform(-2, .2) * big, rng.uniform(.3, 2) * big])
            kw["norm"] = norm_of(rng, a, b)
            s["lo"], s["hi"] = u(a), u(b)
        elif rng.random() < .2 and big > 0:
            kw["abs_max"] = big * rng.choice([1.0, 1.5, 4])
            s["hi"] = u(kw["abs_max"])
        if rng.random() < .3: kw["cmap"] = s["cmap"] = rng.choice(["viridis", "jet", "RdBu_r", "plasma"])
        if rng.random() < .2: kw["legend_str"] = "B_r"
        if rng.random() < .7:
            kw["polar_corners"], kw["azimuth_corners"] = p.PE, p.AE
            s["xe"], s["ye"] = [rad(x) for x in p.ae], [rad(x) for x in p.pe]
        fn = lambda: plots.plot_magnetic_field(ax, p.P, p.A, p.V, **kw)
    elif h["op"] == "equi":
        lo, hi = float(np.min(p.v)), float(np.max(p.v))
        big = max(abs(lo), abs(hi)) or 1.0
        kw = {}
        if h["lo"]: kw["vmin"] = lo - rng.choice([0, .5, 3]) * big; s["lo"] = u(kw["vmin"])
        if h["hi"]: kw["vmax"] = hi + rng.choice([0, .5, 3]) * big; s["hi"] = u(kw["vmax"])
        if h["lo"] and lo > 0 and rng.random() < .6: kw["vmin"] = 0.0; s["lo"] = u(0.0)
        if h["hi"] and hi < 0 and rng.random() < .6: kw["vmax"] = 0.0; s["hi"] = u(0.0)
        if h["lo"] and h["hi"] and kw["vmin"] < kw["vmax"] and rng.random() < .3: kw = dict(norm=norm_of(rng, kw["vmin"], kw["vmax"]))
        if rng.random() < .4: kw["cmap"] = s["cmap"] = rng.choice(["viridis", "jet", "RdBu_r", "plasma"])
        s["xe"], s["ye"] = [rad(x) for x in p.ae], [rad(x) for x in p.pe]
        fn = lambda: plots.plot_equirectangular(g, p.V, ax, **kw)
    elif h["op"] == "extrema":
        name = rng.choice(NAMES)
        s["name"] = list(name)
        kw = dict(markers=rng.choice(["ox", "^v"])) if rng.random() < .4 else {}
        fn = lambda: plots.add_extrema(p.P, p.A, p.V, ax, legend_str=name, **kw)
    else:
        cb = ax.figure.colorbar(mesh, cax=cax)
        fn = lambda: plots.add_contours(p.P, p.A, p.V, ax, "X", cb)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, v = call(fn)
    if not ok:
        s["bad"].append(exc_name(v) + " %s" % str(v)[:60])
        return s, None
    s["kept"] = all(np.array_equal(x, y) for x, y in zip(given, before))
    try:
        meshes, sets = lay.meshes(), lay.contours()
        if h["op"] in ("field", "equi"):
            img = v[0] if h["op"] == "field" else v
            if len(meshes) != 1 or img is not meshes[0]: raise ValueError("%d maps drawn" % len(meshes))
            if h["op"] == "field" and v[1] is not None and v[1] not in sets: raise ValueError("returned line not drawn")
            look = lambda: drawing(ax, p, meshes[0], sets, u)
            s["upright"], s["labelled"] = upright(ax), labelled(ax)
            lo, hi = img.get_clim()
            if lo < hi: memo.update(last=p, mesh=img, cax=None)
        elif h["op"] == "extrema":
            ls = lay.lines()
            look = lambda: marks(p, [l for l in ls if l in ax.lines], u, v)
        else:
            if len(sets) != 1: raise ValueError("%d sets of lines" % len(sets))
            look = lambda: dict(lines=lines(p, sets[0], u))
            s["levels"] = [u(x) for x in cb.get_ticks()]
        s["got"] = look()
    except Exception as e:
        s["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return s, look


def session(rng, hist):
    fig, axs = plt.subplots(1, rng.choice([1, 1, 2, 3]), sharey=rng.random() < .5, squeeze=False)
    axs = list(axs.flat)
    memo = dict(ops=[h["op"] for h in hist])
    steps, looks, used = [], [], []
    for h in hist:
        ax = rng.choice(axs)
        if h["op"] == "contours":
            if "mesh" not in memo: continue
            ax = memo["mesh"].axes
            memo["cax"] = fig.add_axes((.9, .1, .02, .8))
        s, look = step(rng, h, ax, memo)
        steps.append(s); looks.append(look)
        if h["op"] in ("field", "equi"): used.append(ax)
    for s, look in zip(steps, looks):
        if s["bad"] or look is None: continue
        try: s["later"] = look()
        except Exception as e: s["bad"].append("later:%s %s" % (type(e).__name__, e))
    c = dict(op="session", steps=steps, upright=all(upright(a) for a in used), bad=[],
             _note="session " + ", ".join("%s %s %s%s" % (h["op"], h["class"], h["sym"], "" if h["zc"] else " no line") for h in hist))
    plt.close(fig)
    return c


def components(rng):
    fig, axs = plt.subplots(1, 3, sharey=rng.random() < .3)
    steps = []
    names = (r"B_r", r"B_\theta", r"B_\phi")
    for _ in range(rng.choice([1, 1, 2, 3])):
        first = Panel(rng, "mixed", most=5, wide=False)
        grid = (first.ae, first.pe, first.ac, first.pc, first.order)
        cls = [rng.choice(["mixed", "mixed", "positive", "negative", "touching", "zero", "constant"]) for _ in range(3)]
        if rng.random() < .3: cls = [rng.choice(cls)] * 3
        while True:
            ps = [Panel(rng, k, wide=False, grid=grid) for k in cls]
            V = np.array([p.V for p in ps])
            ok = True
            for p, w in zip(ps, V):                         # common type of the stack
                p.v = w if p.order == "ij" else w.T
                ok = ok and classed(p.v) == cls[ps.index(p)]
            if ok: break
        u = Unit([V])
        radius = rng.choice([1, 1, 2.5, 3, 1.25, 10.04])
        sym = rng.choice(["auto", "auto", "yes", "no"])
        kw = {} if sym == "auto" and rng.random() < .7 else dict(symmetric=dict(auto=None, yes=True, no=False)[sym])
        corners = rng.random() < .7
        if corners: kw.update(azimuth_corners=first.AE, polar_corners=first.PE)
        if radius != 1 or rng.random() < .3: kw["radius"] = radius
        lays = [Layers(a) for a in axs]
        olds = list(fig.axes)
        s = dict(op="components", sym=sym, panels=[], bar=[], levels=[], radius=fx(radius), bad=[])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok, v = call(lambda: plots.plot_components(first.P, first.A, V, axs, **kw))
        steps.append(s)
        if not ok:
            s["bad"].append(exc_name(v) + " %s" % str(v)[:60])
            continue
        try:
            bar = [a for a in fig.axes if a not in olds]
            if len(bar) != 1: raise ValueError("%d colour bars" % len(bar))
            s["bar"] = [u(float(l.get_ydata()[0])) for l in bar[0].lines if len(l.get_ydata()) == 1]
            for p, a, lay, name in zip(ps, axs, lays, names):
                meshes, sets = lay.meshes(), lay.contours()
                if len(meshes) != 1 or len(sets) not in (1, 2): raise ValueError("%d maps, %d sets of lines" % (len(meshes), len(sets)))
                if not s["levels"]: s["levels"] = [u(x) for x in sets[-1].levels]
                m = re.match(r"^(\w+) field .* at \$r = *([0-9.]+) ", a.get_title())
                if not m or m.group(1) != {"B_r": "Radial", r"B_\theta": "Polar", r"B_\phi": "Azimuthal"}[name]: raise ValueError("title " + a.get_title())
                d = dict(vals=[[u(x) for x in r] for r in p.v], xc=[rad(x) for x in p.ac], yc=[rad(x) for x in p.pc], xe=[], ye=[], cmap="", name=list(name), levels=[])
                if corners: d["xe"], d["ye"] = [rad(x) for x in p.ae], [rad(x) for x in p.pe]
                d["got"] = drawing(a, p, meshes[0], sets[:-1], u)
                d["got"].update(marks(p, lay.lines(), u, None))
                d["got"].update(contours=lines(p, sets[-1], u), upright=upright(a) and labelled(a), radius=fx(Fraction(m.group(2))))
                if {t.get_text() for t in a.get_legend().get_texts()} < {l.get_label() for l in lay.lines()}: raise ValueError("legend incomplete")
                s["panels"].append(d)
        except Exception as e:
            s["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    c = dict(op="session", steps=steps, upright=True, bad=[], _note="components, %d times, %s, %s" % (len(steps), sym, cls))
    plt.close(fig)
    return c


def one(rng):
    """plot_zdi_field of any function of position"""
    cl = rng.choice(["mixed", "mixed", "positive", "negative", "touching", "zero", "constant"])
    p = Panel(rng, cl, most=5, wide=False)
    g = ZdiGeometry(p.pe, p.ae)
    p.shape("ij")
    u = Unit([p.v])
    h = dict(op="one", sym=rng.choice(["auto", "auto", "yes", "no"]), zc=True)
    h["class"] = cl
    s = blank(h, p, u)
    s["xe"], s["ye"] = [rad(x) for x in p.ae], [rad(x) for x in p.pe]
    kw = {} if h["sym"] == "auto" and rng.random() < .7 else dict(symmetric=dict(auto=None, yes=True, no=False)[h["sym"]])
    if rng.random() < .3: kw["cmap"] = s["cmap"] = rng.choice(["viridis", "jet", "RdBu_r", "plasma"])
    name = rng.choice(NAMES)
    s["name"] = list(name)
    if rng.random() < .5: kw["ax"] = plt.subplots()[1]
    seen = []
    def getter(polar, azimuth):
        seen.append((np.array(polar), np.array(azimuth)))
        return p.V.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, v = call(lambda: plot_zdi.plot_zdi_field(getter, zg=g, legend_str=name, **kw))
    if not ok: s["bad"].append(exc_name(v) + " %s" % str(v)[:60])
    else:
        try:
            fig, ax = v
            if kw.get("ax") not in (None, ax) or ax.figure is not fig: raise ValueError("drawn on other axes")
            lay = Layers(ax)
            lay.c = lay.l = []
            meshes, sets = lay.meshes(), lay.contours()
            bar = [a for a in fig.axes if a is not ax]
            if len(meshes) != 1 or len(sets) not in (1, 2) or len(bar) != 1: raise ValueError("%d maps, %d sets of lines, %d bars" % (len(meshes), len(sets), len(bar)))
            if not seen or not all(np.allclose(a, p.P) and np.allclose(b, p.A) for a, b in seen): raise ValueError("field asked for elsewhere")
            s["got"] = drawing(ax, p, meshes[0], sets[:-1], u)
            s["got"].update(marks(p, lay.lines(), u, None))
            s["got"].update(contours=lines(p, sets[-1], u))
            s["levels"] = [u(x) for x in sets[-1].levels]
            s["bar"] = [u(float(l.get_ydata()[0])) for l in bar[0].lines if len(l.get_ydata()) == 1]
            s["upright"], s["labelled"] = upright(ax), labelled(ax)
        except Exception as e: s["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    plt.close("all")
    return dict(op="session", steps=[s], upright=True, bad=[], _note="field %s symmetric %s" % (cl, h["sym"]))


def corrupt(c):
    k = c["id"]
    s = c["steps"][-1]
    if s["bad"]: return False
    if s["op"] == "components": s["panels"][k % 3]["got"]["quads"][0]["v"] = fx(77.5)
    elif k % 4 == 0: c["upright"] = False
    elif s["op"] in ("field", "equi"):
        if k % 4 == 1: s["got"]["hi"] = fx(88.25)
        elif k % 4 == 2: s["got"]["quads"][-1]["x1"] = fx(999)
        elif s["got"]["lines"] and s["got"]["lines"][0]["pts"]: s["got"]["lines"][0]["pts"] = s["got"]["lines"][0]["pts"][:1] if len(s["got"]["lines"][0]["pts"]) > 2 else []
        else: s["later"] = dict(s["got"], lo=fx(5))
    elif s["op"] == "extrema": s["got"]["max"]["x"] = fx(700)
    elif s["op"] == "one": s["got"]["min"]["v"] = fx(33)
    else: s["levels"] = s["levels"][1:]
    return True


def run(chk):
    chk.model("MapMC")
    if THOROUGH: chk.model("MapMC", "MapMC2")
    chk.refuted("MapMC", "MapBad")
    beh = [b["h"] for b in chk.generate("MapMC", "MapGen")]
    rng = chk.rng
    ones = [h for h in beh if len(h) == 1]
    twos = [h for h in beh if len(h) == 2]
    jobs = ones + (twos if THOROUGH else rng.sample(twos, 250))
    jobs += [sum((rng.choice(twos) for _ in range(rng.randint(2, 4))), []) for _ in range(400 if THOROUGH else 40)]
    cases = spread(rng, session, len(jobs), jobs)
    cases += spread(rng, components, 600 if THOROUGH else 50)
    cases += spread(rng, one, 800 if THOROUGH else 70)
    chk.judge("MapTrace", cases, corrupt=corrupt, ncanary=10, label="maps drawn by the real code")
    chk.extra["method"] = "Sessions of drawings enumerated by TLC; facets, scales, lines of equal value, marks and directions read off the axes and judged against the given arrays."
