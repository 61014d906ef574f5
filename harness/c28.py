"""C28: pictures of the potential field, slices and stream traces."""
import re
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, QuadMesh
from matplotlib.contour import ContourSet
from harness import fields as fl
from harness import plotting as pt
from harness.c09 import scalar_set
from harness.c24 import MARK, panel, scales
from harness.pool import snap
from harness.vlib import THOROUGH, call, fx, exc_name, spread, unfx
from starwinds_magnetogram import coefficients, plot_pfss, plot_zdi
from starwinds_magnetogram.geometry import ZdiGeometry


def some(rng, lmax):
    """PFSS coefficients with a field that is not tiny, and not a monopole"""
    while True:
        s = scalar_set(rng, lmax=lmax)
        if any(abs(q["g"][0]) + abs(q["g"][1]) * (q["m"] > 0) > .1 for q in plain(s) if q["l"] > 0): return s


def plain(s):
    q = snap(s)
    return [dict(l=k[0], m=k[1], g=[unfx(x) for x in v[0]]) for k, v in zip(q["k"], q["v"])]


def spec_of(s):
    q = snap(s)
    return [dict(l=k[0], m=k[1], g=v[0]) for k, v in zip(q["k"], q["v"])]


def mesh_of(ax):
    m = [k for k in ax.collections if isinstance(k, QuadMesh)]
    if len(m) != 1: raise ValueError("%d maps" % len(m))
    xy = np.asarray(m[0].get_coordinates(), dtype=float)
    v = np.ma.filled(np.ma.asarray(m[0].get_array(), dtype=float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    return xy, v


def bars_of(fig, ax):
    b = [a for a in fig.axes if a is not ax]
    if len(b) != 1: raise ValueError("%d colour bars" % len(b))
    return b


def segments(ax):
    """pieces of lines (ax, ay, bx, by, width), in the order in which they are drawn"""
    out = []
    for k in ax.collections:
        if isinstance(k, LineCollection) and not isinstance(k, ContourSet):
            w = k.get_linewidths()
            for n, line in enumerate(k.get_segments()):
                for a, b in zip(line[:-1], line[1:]):
                    out.append((a[0], a[1], b[0], b[1], w[n % len(w)]))
    return out


# ------------------------------------------------------------- slices
def look_slice(ax, rng, c, most):
    fig = ax.figure
    xy, v = mesh_of(ax)
    mid = (xy[:-1, :-1] + xy[1:, :-1] + xy[:-1, 1:] + xy[1:, 1:]) / 4
    c["extent"] = [fx(mid[..., 0].min()), fx(mid[..., 0].max()), fx(mid[..., 1].min()), fx(mid[..., 1].max())]
    rad = np.hypot(mid[..., 0], mid[..., 1])
    r0, rss = c.pop("_r0"), c.pop("_rss")
    idx = list(np.ndindex(v.shape))
    pick = rng.sample(idx, most)
    for zone in (rad < r0, (rad > r0) & (rad < rss), (rad > r0) & (rad < r0 * 1.3), rad > rss):
        z = np.argwhere(zone)
        if len(z): pick += [tuple(z[rng.randrange(len(z))]) for _ in range(4)]
    c["quads"] = [dict(u=fx(float(mid[k][0])), v=fx(float(mid[k][1])), x=fx(float(v[k]))) for k in pick]
    high = c.pop("_high")
    cell = 2 * c.pop("_rmax") / 300                         # (pieces shorter than that: lines ending in a null)
    seg = [s for s in segments(ax) if np.hypot(s[0] - s[2], s[1] - s[3]) > cell / 2]
    if len(seg) < 20 and not high: raise ValueError("%d pieces of field lines" % len(seg))
    c["segs"] = [] if high else [[fx(float(x)) for x in s[:4]] for s in rng.sample(seg, min(len(seg), 3 * most))]
    c["labels"] = []
    for t in (ax.get_xlabel(), ax.get_ylabel()):
        m = re.search(r"\$([xyz])/r_", t)
        c["labels"].append(m.group(1) if m else t)
    c["circles"] = []
    for k in ax.collections:
        if isinstance(k, ContourSet):
            for level, path in sorted(zip(k.levels, k.get_paths()), key=lambda p: p[0]):
                w = path.vertices
                c["circles"].append([[fx(float(x)) for x in w[i]] for i in range(0, len(w), max(1, len(w) // 8))])
    c["scales"] = scales([ax] + bars_of(fig, ax))


def slice_case(rng):
    high = rng.random() < .3                                # lines are not judged: too fine
    lmax = rng.choice([6, 10, 16, 22]) if high else rng.choice([1, 2, 3])
    s = some(rng, lmax)
    if high and rng.random() < .7:
        s = coefficients.Coefficients()
        for _ in range(rng.choice([1, 2, 3])):
            l = rng.randint(4, lmax)
            s.set(l, rng.randint(0, l), complex(rng.choice([-1, 1]) * rng.uniform(.5, 5), rng.uniform(-3, 3)))
    before = snap(s)
    normal = rng.choice("xyz")
    r0, rss, kw = 1.0, 2.5, {}
    u = rng.random()
    if u < .3:
        rss = rng.uniform(1.3, 4); kw = dict(radius_source_surface=rss)
    elif u < .5:
        r0 = rng.uniform(.5, 2); rss = r0 * rng.uniform(1.3, 3); kw = dict(radius_source_surface=rss, radius_star=r0)
    rmax = 5
    if rng.random() < .6:
        rmax = rss * (rng.uniform(1.05, 2.2) if rng.random() < .8 else rng.uniform(4, 15)); kw["rmax"] = rmax
    elif rss > 4.8:
        rmax = rss * 1.5; kw["rmax"] = rmax
    args = [normal] if normal != "x" or rng.random() < .5 else []
    if args and rng.random() < .5: kw["normal"] = args.pop()
    c = dict(op="slice", coefs=spec_of(s), r0=fx(r0), rss=fx(rss), rmax=fx(float(rmax)), normal=normal, cell=fx(2 * rmax / 300), quads=[], segs=[], labels=["", ""],
             circles=[], extent=[], scales=[], bad=[], _r0=r0, _rss=rss, _rmax=rmax, _high=high, _note="slice %s rmax %s radii %s pairs %s" % (normal, rmax, (r0, rss), before["k"][:5]))
    ok, v = call(lambda: plot_pfss.plot_slice(s, *args, **kw))
    finish(c, ok, v, lambda: look_slice(v[1], rng, c, 24))
    if snap(s) != before: c["bad"].append("operand-changed")
    return c


def finish(c, ok, v, look):
    if not ok: c["bad"].append(exc_name(v) + " %s" % str(v)[:60])
    else:
        try: look()
        except Exception as e: c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    for k in ("_r0", "_rss", "_rmax", "_high"): c.pop(k, None)
    plt.close("all")


# ------------------------------------------------------------- maps
def maps_case(rng):
    s = some(rng, rng.choice([1, 2, 3, 5, 5, 12, 20]))
    before = snap(s)
    g = ZdiGeometry(rng.randint(3, 8), rng.randint(3, 10))
    rss, kw = 2.5, {}
    if rng.random() < .5:
        rss = rng.choice([rng.uniform(1.2, 5), rng.uniform(1.05, 1.5)]); kw["radius_source_surface"] = rss
    radius = 1
    if rng.random() < .7:
        radius = rng.choice([1.0, rng.uniform(1, rss), rng.uniform(rss, 3 * rss), 2]); kw["radius"] = radius
    if rng.random() < .3: kw["axs"] = plt.subplots(1, 3)[1]
    c = dict(op="maps", coefs=spec_of(s), r0=fx(1.0), rss=fx(rss), radius=fx(float(radius)), ts=[fx(x) for x in g.polar_corners[0, :]],
             ps=[fx(x) for x in g.azimuthal_corners[:, 0]], panels=[], scales=[], bad=[],
             _note="maps at %s source surface %s grid %s pairs %s" % (radius, rss, g.shape, before["k"][:5]))
    ok, v = call(lambda: plot_pfss.plot_components(s, geometry=g, **kw))

    def look():
        fig, axs = v
        for a in axs:
            p = panel(a, rng, 60)
            m = re.search(r"r = (\d+\.\d+) r_", a.get_title())
            p["radius"] = fx(float(m.group(1)))
            c["panels"].append({k: p[k] for k in ("quads", "max", "min", "count", "radius", "up")})
        bars = [a for a in fig.axes if a not in list(axs) and a.collections]
        c["scales"] = scales(list(axs) + bars)
        if len(c["scales"]) != 4: raise ValueError("%d colour bars" % len(bars))
    finish(c, ok, v, look)
    if snap(s) != before: c["bad"].append("operand-changed")
    return c


# ------------------------------------------------------------- stream traces
def traces_case(rng):
    kind = rng.choice(["zdi", "pfss"])
    high = rng.random() < .35                               # too fine for the grid: only the map is judged, not the traces
    g = ZdiGeometry(rng.randint(9, 22), rng.randint(12, 40)) if high else ZdiGeometry(rng.randint(16, 22), rng.randint(30, 40))
    kw = dict(geometry=g) if rng.random() < .5 else {}
    args = [] if kw else [g]
    if kind == "pfss":
        s = some(rng, rng.choice([3, 8, 18, 25]) if high else rng.choice([1, 2]))
        coefs = spec_of(s)
        note = snap(s)["k"]
        ok, v = call(lambda: plot_pfss.plot_streamtraces(s, *args, **kw))
        if ok: v = v[1]
    else:
        while True:
            co, w = fl.rnd_coefs(rng, rng.choice([3, 8, 18, 25]) if high else rng.choice([1, 2]))
            if max([abs(z if x[1] else z.real) for x in co if x[0] for z in x[3:]] + [0]) > .2: break     # (radial field alone has no traces)
        mag, how = fl.build(rng, co, w)
        coefs, note = fl.spec_coefs(co), [x[:2] for x in co]
        if rng.random() < .3: kw["ax"] = plt.subplots()[1]
        ok, v = call(lambda: plot_zdi.plot_streamtraces(mag, *args, **kw))
    c = dict(op="traces", kind=kind, coefs=coefs, ts=[fx(x) for x in g.polar_corners[0, :]], ps=[fx(x) for x in g.azimuthal_corners[:, 0]],
             count=0, up=True, quads=[], segs=[], legend=[], scales=[], bad=[], _note="traces of %s pairs %s grid %s" % (kind, note[:6], g.shape))

    def look():
        ax = v
        xy, val = mesh_of(ax)
        quads = []
        for k in np.ndindex(val.shape):
            q = xy[k[0]:k[0] + 2, k[1]:k[1] + 2].reshape(4, 2)
            quads.append((q[:, 0].min(), q[:, 0].max(), q[:, 1].min(), q[:, 1].max(), val[k]))
        xs = {x: n + 1 for n, x in enumerate(sorted({q[0] for q in quads}))}
        ys = {y: n + 1 for n, y in enumerate(sorted({q[2] for q in quads}))}
        c["count"] = len({(q[0], q[2]) for q in quads})
        c["up"] = bool(ax.get_ylim()[0] > ax.get_ylim()[1])
        for q in rng.sample(quads, 40):
            c["quads"].append(dict(i=xs[q[0]], j=ys[q[2]], **{n: fx(float(z)) for n, z in zip(("x0", "x1", "y0", "y1", "v"), q)}))
        seg = segments(ax)
        if len(seg) < 50: raise ValueError("%d pieces of traces" % len(seg))
        c["segs"] = [] if high else [[fx(float(x)) for x in s] for s in rng.sample(seg, 60)]
        leg = ax.get_legend()
        for h, t in zip(leg.get_lines(), leg.get_texts()):
            m = re.match(r"^\$B_\\perp=\s*(\S+)\$$", t.get_text())
            if m: c["legend"].append([fx(float(h.get_linewidth())), fx(float(m.group(1)))])
        c["scales"] = scales([ax] + bars_of(ax.figure, ax))
    finish(c, ok, v, look)
    return c


def corrupt(c):
    k = c["id"]
    if c["op"] == "slice":
        if k % 4 == 0: c["quads"][0] = dict(u=fx(1.234 * 1.5), v=fx(.5), x=fx(54321.5))
        elif k % 4 == 1: c["labels"][0] = "q"
        elif k % 4 == 2: c["circles"][1][0][0] = fx(77.0)
        elif c["segs"]: c["segs"] = [[s[2], s[3], s[0], s[1]] for s in c["segs"]]
        else: return False
    elif c["op"] == "maps":
        if k % 2: c["panels"][k % 3]["quads"][0]["v"] = fx(54321.5)
        else: c["panels"][1]["radius"] = fx(99.0)
    else:
        if k % 3 == 0 and c["segs"]: c["segs"] = [[s[2], s[3], s[0], s[1], s[4]] for s in c["segs"]]
        elif k % 3 == 1: c["legend"][0][0] = fx(50.0)
        else: c["quads"][0]["v"] = fx(54321.5)
    return True


def run(chk):
    chk.model("SliceMC")
    rng = chk.rng
    t = 8 if THOROUGH else 1
    cases = spread(rng, slice_case, 24 * t) + spread(rng, maps_case, 24 * t) + spread(rng, traces_case, 24 * t)
    chk.judge("SliceTrace", cases, corrupt=corrupt, ncanary=12, label="pictures of the real code")
    chk.extra["method"] = "Facets, field lines, circles, scales, labels and legends read off the figures, judged against the specified field."
