"""C24: magnetogram plots."""
import os
import re
from fractions import Fraction
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import QuadMesh
from matplotlib.colors import to_hex
from matplotlib.patches import Wedge
from harness import fields as fl
from harness import filetext as ft
from harness import plotting as pt
from harness.c25 import full_grid
from harness.vlib import THOROUGH, call, fx, limbs, exc_name, scratch, spread
from starwinds_magnetogram import plot_zdi
from starwinds_magnetogram.bin import plot_magnetogram as command

GETTERS = dict(r="get_radial_field", p="get_polar_field", a="get_azimuthal_field", strength="get_field_strength",
               rp="get_radial_poloidal_field", rt="get_radial_toroidal_field", pp="get_polar_poloidal_field_new",
               pt="get_polar_toroidal_field", ap="get_azimuthal_poloidal_field", at="get_azimuthal_toroidal_field_new")
TEX = dict(r="B_r", p=r"B_\theta", a=r"B_\phi", strength="|B|")
MARK = re.compile(r"^(Max|Min) \$(.*?)=(.*)\$ G$")


# ------------------------------------------------------------- reading figures
def panel(ax, rng, most):
    """One map: facets (a sample), extremes marked, title, mean stated."""
    mesh = [k for k in ax.collections if isinstance(k, QuadMesh)]
    if len(mesh) != 1: raise ValueError("%d maps on a panel" % len(mesh))
    xy = np.asarray(mesh[0].get_coordinates(), dtype=float)
    val = np.ma.filled(np.ma.asarray(mesh[0].get_array(), dtype=float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    quads = []
    for k in np.ndindex(val.shape):
        c = xy[k[0]:k[0] + 2, k[1]:k[1] + 2].reshape(4, 2)
        quads.append((c[:, 0].min(), c[:, 0].max(), c[:, 1].min(), c[:, 1].max(), val[k]))
    xs = {x: n + 1 for n, x in enumerate(sorted({q[0] for q in quads}))}
    ys = {y: n + 1 for n, y in enumerate(sorted({q[2] for q in quads}))}
    facets = [dict(i=xs[q[0]], j=ys[q[2]], x0=fx(q[0]), x1=fx(q[1]), y0=fx(q[2]), y1=fx(q[3]), v=fx(q[4]), _q=q) for q in quads]
    out = dict(count=len({(f["i"], f["j"]) for f in facets}), up=bool(ax.get_ylim()[0] > ax.get_ylim()[1]), titled=ax.get_title() != "", title=list(ax.get_title()), mean=[])
    for t in ax.texts:
        m = re.match(r"^abs mean: (\S+) G ?$", t.get_text())
        if m: out["mean"] = fx(float(m.group(1)))
    lines = {l.get_label(): l for l in ax.lines}
    marked = []
    for t in ax.get_legend().get_texts():
        m = MARK.match(t.get_text())
        if not m: continue
        x, y = (float(v) for v in lines[t.get_text()].get_xydata()[0])
        near = min(facets, key=lambda f: abs((f["_q"][0] + f["_q"][1]) / 2 - x) + abs((f["_q"][2] + f["_q"][3]) / 2 - y))
        v = Fraction(near["_q"][4])
        out[m.group(1).lower()] = dict(i=near["i"], j=near["j"], x=fx(x), y=fx(y), v=near["v"], text=list(m.group(3)), name=list(m.group(2)),
                                       neg=v < 0, num=limbs(abs(v.numerator)), den=limbs(v.denominator))
        marked.append(near)
    if "max" not in out or "min" not in out: raise ValueError("extremes not marked")
    if len(facets) > most:
        facets.sort(key=lambda f: f["_q"][4])
        pick = facets[:1] + facets[-1:] + rng.sample(facets, most - 4) + marked
    else: pick = facets
    out["quads"] = [{k: v for k, v in f.items() if k != "_q"} for f in pick]
    return out


def scales(axs):
    """what the colours of the maps on these axes mean"""
    out = []
    for a in axs:
        for k in a.collections:
            if isinstance(k, QuadMesh):
                lo, hi = k.get_clim()
                n = k.norm                                   # a few inner points tell norms apart
                inner = [round(float(n(lo + f * (hi - lo))), 6) for f in (.1, .3, .5, .8)] if lo < hi else []
                out.append(dict(lo=fx(float(lo)), hi=fx(float(hi)), cmap=k.get_cmap().name, how=" ".join(map(str, inner))))
    return out


def fields(rng, most):
    def look(fig):
        maps = [a for a in fig.axes if a.get_legend() is not None]
        bars = [a for a in fig.axes if a.get_legend() is None]
        if len(bars) != 1: raise ValueError("%d colour bars" % len(bars))
        return dict(panels=[panel(a, rng, most) for a in maps], scales=scales(maps + bars),
                    bar=[fx(float(l.get_ydata()[0])) for a in bars for l in a.lines if len(l.get_ydata()) == 1])
    return look


def matrix(types, negative):
    def look(fig):
        fig.canvas.draw()
        axs = [a for a in fig.axes if a.images]
        out = dict(images=[], placed=True, ticks=[], scales=[])
        for a, t in zip(axs, types):
            out["scales"].append([fx(float(x)) for x in a.images[0].get_clim()])
            v = np.ma.filled(np.ma.asarray(a.images[0].get_array(), dtype=float), np.nan)
            out["images"].append([[fx(x) for x in r] for r in v])
            ex = a.images[0].get_extent()
            place = list(ex) == [-.5, v.shape[1] - .5, v.shape[0] - .5, -.5] and a.images[0].origin == "upper"
            y = a.get_ylim()
            out["placed"] = bool(out["placed"] and place and y[0] > y[1] and t in a.get_title().split())
        # rows are degrees: their ticks are not shifted; keep only the ticks of the orders
        for a in axs:
            for x, l in zip(a.get_xticks(), a.get_xticklabels()):
                s = l.get_text().replace("\u2212", "-")
                if s: out["ticks"].append([fx(float(x)), fx(float(s))])
            for y, l in zip(a.get_yticks(), a.get_yticklabels()):
                s = l.get_text().replace("\u2212", "-")
                if s and abs(float(s) - y) > 1e-9: out["placed"] = False
        return out
    return look


def degree(fig):
    ax = [a for a in fig.axes if a.get_legend() is not None][0]
    shown = {t.get_text() for t in ax.get_legend().get_texts()}
    colour = {to_hex(l.get_color()): l.get_label() for l in ax.lines if l.get_label() in shown}
    curves = []
    for l in ax.lines:
        x = [float(v) for v in l.get_xdata()]
        if any(v != int(v) for v in x): raise ValueError("degrees are no integers")
        curves.append(dict(name=colour.get(to_hex(l.get_color()), "?"), summed=l.get_label() not in shown, x=[int(v) for v in x],
                           y=[fx(float(v)) for v in l.get_ydata()]))
    return dict(curves=curves)


def summary(fig):
    pies = []
    for a in fig.axes:
        w = [p for p in a.patches if isinstance(p, Wedge) and p.get_visible()]
        t = [x.get_text() for x in a.texts if x.get_visible() and x.get_text()]
        if not w:
            pies.append([])
            continue
        leg = a.get_legend()
        names = [x.get_text().replace("$", "") for x in leg.get_texts()]
        if not len(w) == len(t) == len(names): raise ValueError("%d wedges %d percentages %d names" % (len(w), len(t), len(names)))
        for p, h in zip(w, leg.get_patches()):
            if p.get_facecolor() != h.get_facecolor(): raise ValueError("legend in other colours")
        pies.append([dict(name=n, share=fx((p.theta2 - p.theta1) / 360), text=fx(Fraction(x.rstrip("%")) / 100)) for n, p, x in zip(names, w, t)])
    return dict(pies=pies)


# ------------------------------------------------------------- cases
def plain(rng, lmax):
    """coefficients with some energy"""
    while True:
        c, _ = fl.rnd_coefs(rng, lmax)
        if any(abs(z.real) > .1 for x in c for z in (x[2:] if x[0] else x[2:3])): break
    f = rng.choice([1, 1, 1, 1, .5, .1, .01, .001, 100, 1e4])
    return [c[:2] + type(c[2:])(z * f for z in c[2:]) for c in c]


def text(rng, coefs, groups):
    """a file holding the coefficients (as printed)"""
    out = [rng.choice(["General poloidal plus toroidal field", "# star", "", "5 3 -3"])]
    keys = [(c[0], c[1]) for c in coefs]
    for g in range(groups):
        if rng.random() < .5: rng.shuffle(keys)
        d = {(c[0], c[1]): c[2 + g] for c in coefs}
        for l, m in keys:
            z = d[l, m]
            out.append("%s%d %d %s %s" % (rng.choice(["", " "]), l, m, "%.6e" % z.real, "%.5f" % z.imag if abs(z.imag) < 1e4 else repr(z.imag)))
        if rng.random() < .6: out.append("")
    return "\n".join(out) + "\n"


def blank(op, **k):
    c = dict(op=op, coefs=[], text=[], kind="zdi", bad=[])
    c["from"] = "coefs"
    c.update(k)
    return c


def look_for(plot, rng):
    if plot == "energy-by-degree": return degree
    if plot == "energy-summary": return summary
    if plot == "energy-matrix": return matrix(["total"], False)
    return fields(rng, 18)


def case_for(plot):
    if plot == "energy-by-degree": return blank("degree", scaled=True, curves=[])
    if plot == "energy-summary": return blank("summary", pies=[])
    if plot == "energy-matrix": return blank("matrix", types=["total"], negative=False, images=[], placed=False, ticks=[], scales=[])
    return blank("field", plot=plot, q="", term="", ts=[], ps=[], nt=65, np=130, panels=[], bar=[], scales=[], sym="auto", cmap="")


def by_command(rng, beh):
    """a sequence of plot commands over one directory"""
    out = []
    with scratch("plot-") as d:
        for h in beh:
            kind, plot, ok_wanted = h["kind"], h["plot"], h["ok"]
            coefs = plain(rng, rng.choice([1, 2, 3, 5, 8, 16] if plot not in ("map",) else [1, 2, 4]))
            txt = text(rng, coefs, 1 if kind == "pfss" else rng.choice([1, 2, 3, 3]))
            src = os.path.join(d, rng.choice(["star.dat", "mgram-a_star.dat", "a b.txt", "x"]))
            with open(src, "w") as f: f.write(txt)
            dst = None if h["to"] == "shown" else os.path.join(d, h["to"] if rng.random() < .8 else h["to"][:-3] + "pdf")
            if dst and rng.random() < .3:
                with open(dst, "wb") as f: f.write(b"an older image")
            before = pt.files(d)
            opts = []
            if kind != "zdi" or rng.random() < .5: opts += [rng.choice(["-y", "--type"]), kind]
            if plot != "map" or rng.random() < .5: opts += [rng.choice(["-p", "--plot_type"]), plot]
            pos = [src] + ([dst] if dst else [])
            argv = pos + opts if rng.random() < .5 else opts + pos
            plain_args = [str(x) for x in argv]
            cap = pt.Capture(look_for(plot, rng) if ok_wanted else (lambda fig: None), real=rng.random() < .2)
            with cap.active():
                ok, e = pt.command(command.main, argv)
            after = pt.files(d)
            note = "command %s, degrees %s" % (" ".join(plain_args[-6:]), sorted({c[0] for c in coefs}))
            if not ok_wanted:
                out.append(dict(op="refused", ok=ok, changed=after != before, bad=[], _note=note))
                continue
            c = case_for(plot)
            c.update({"from": "text", "text": ft.lines_of(txt), "kind": kind, "_note": note})
            if not ok: c["bad"].append(exc_name(e) + " %s" % str(e)[:60])
            c["bad"] += cap.errors
            seen = [x[0] for x in cap.saved] if dst else cap.shown
            name = os.path.relpath(dst, d) if dst else None
            if ok and not cap.errors:
                if len(seen) != 1 or (dst and cap.shown) or (not dst and cap.saved): c["bad"].append("%d figures saved, %d shown" % (len(cap.saved), len(cap.shown)))
                elif seen[0] is not None: c.update(seen[0])
                if {k for k in after if after[k] != before.get(k)} - {name} or set(before) - set(after): c["bad"].append("other files changed")
                if dst and after.get(name) == before.get(name): c["bad"].append("image not written")
            out.append(c)
    return out


def by_function(rng):
    lmax = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
    coefs = plain(rng, lmax)
    mag, how = fl.build(rng, coefs, 3)
    u = rng.random()
    plt.close("all")
    if u < .7:
        g = full_grid(rng)
        q = rng.choice(list(GETTERS))
        c = blank("field", coefs=fl.spec_coefs(coefs), plot="one", q=q, term="", nt=0, np=0, panels=[], bar=[], scales=[], sym="auto", cmap="")
        look = {}
        if rng.random() < .3: c["sym"] = rng.choice(["yes", "no", "auto"]); look["symmetric"] = dict(yes=True, no=False, auto=None)[c["sym"]]
        if rng.random() < .3: look["cmap"] = c["cmap"] = rng.choice(["viridis", "jet", "RdBu_r", "plasma"])
        c["ts"], c["ps"] = [fx(x) for x in g.polar_corners[0, :]], [fx(x) for x in g.azimuthal_corners[:, 0]]
        if q in ("rt", "pt", "at"):
            pass
        if u < .4:
            tex = TEX["strength" if q == "strength" else q[0]]
            fn = lambda: plot_zdi.plot_zdi_field(getattr(mag, GETTERS[q]), zg=g, legend_str=tex, **look)
            if u < .1: fn = lambda: plot_zdi.plot_zdi_field(getattr(mag, GETTERS[q]), plt.subplots()[1], g, legend_str=tex, **look)
            ok, v = call(fn)
        else:
            c["plot"], c["q"] = "map", ""
            c["term"] = rng.choice(["", "poloidal", "toroidal"])
            kw = dict(term=c["term"]) if c["term"] or rng.random() < .2 else {}
            if kw and not c["term"]: kw = dict(term=None)
            kw.update(look)
            ok, v = call(lambda: plot_zdi.plot_zdi_components(mag, zg=g, **kw) if rng.random() < .7
                         else plot_zdi.plot_zdi_components(mag, axs=plt.subplots(1, 3)[1], zg=g, **kw))
        look = fields(rng, 40)
        c["_note"] = "plot %s %s of %s grid %s" % (c["plot"], c["q"] + c["term"], [x[:2] for x in coefs][:6], g.shape)
    elif u < .85:
        types = rng.choice([["total"], ["radial"], ["poloidal", "toroidal"], ["total", "radial", "poloidal", "toroidal"], ["toroidal"]])
        negative = rng.random() < .5
        c = blank("matrix", coefs=fl.spec_coefs(coefs), types=types, negative=negative, images=[], placed=False, ticks=[], scales=[])
        arg = types[0] if len(types) == 1 and rng.random() < .6 else types
        ok, v = call(lambda: plot_zdi.plot_energy_matrix(mag, arg, negative) if rng.random() < .5 else
                     plot_zdi.plot_energy_matrix(mag, types=arg, negative_orders=negative))
        look = matrix(types, negative)
        c["_note"] = "energy matrix %s negative %s of %s" % (types, negative, [x[:2] for x in coefs][:6])
    elif u < .93:
        scaled = rng.random() < .5
        c = blank("degree", coefs=fl.spec_coefs(coefs), scaled=scaled, curves=[])
        ok, v = call(lambda: plot_zdi.plot_energy_by_degree(mag, scaled=scaled) if rng.random() < .8 or not scaled else plot_zdi.plot_energy_by_degree(mag))
        look = degree
        c["_note"] = "energy by degree scaled %s of %s" % (scaled, [x[:2] for x in coefs][:6])
    else:
        c = blank("summary", coefs=fl.spec_coefs(coefs), pies=[])
        ok, v = call(lambda: plot_zdi.plot_energy_summary(mag))
        look = summary
        c["_note"] = "energy summary of %s" % [x[:2] for x in coefs][:6]
    if not ok: c["bad"].append(exc_name(v) + " %s" % str(v)[:60])
    else:
        try: c.update(look(plt.gcf()))
        except Exception as e: c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    plt.close("all")
    return c


def corrupt(c):
    k = c["id"]
    if c["op"] == "refused": c["ok"] = True
    elif c["op"] == "field":
        if not any(x != [[0], [0]] for y in c["coefs"] for x in (y["a"], y["b"], y["g"])) and not c["text"]: return False
        p = c["panels"][-1]
        if k % 3 == 0: p["quads"][-1]["v"] = fx(54321.5)
        elif k % 5 == 1: c["scales"][-1] = dict(c["scales"][-1], how="odd")
        elif k % 3 == 1: p["max"]["text"] = list("+7.77")
        else: p["min"]["v"] = fx(54321.5)
    elif c["op"] == "matrix": c["images"][-1][-1][-1] = fx(54321.5)
    elif c["op"] == "degree": c["curves"][k % 6]["y"][-1] = fx(54321.5)
    elif c["op"] == "summary":
        if not c["pies"][0]: return False
        c["pies"][0][0]["share"] = fx(2.5)
    return True


def run(chk):
    chk.model("DrawMC")
    beh = [b["h"] for b in chk.generate("DrawMC", "DrawGen")]
    rng = chk.rng
    refused = [h for h in beh if not h[0]["ok"]]
    drawn = {}
    for h in beh:
        if h[0]["ok"]: drawn.setdefault((h[0]["kind"], h[0]["plot"]), []).append(h)
    jobs = []
    for key in sorted(drawn):
        jobs += drawn[key] if THOROUGH else [rng.choice(drawn[key])]
    jobs += refused if THOROUGH else rng.sample(refused, 30)
    flat = [h[0] for h in beh]
    jobs += [rng.sample(flat, 3) for _ in range(20 if THOROUGH else 2)]   # sessions: one directory, several commands
    cases = sum(spread(rng, by_command, len(jobs), jobs), [])
    cases += spread(rng, by_function, 600 if THOROUGH else 90)
    chk.judge("DrawTrace", cases, corrupt=corrupt, ncanary=10, label="magnetogram plots of the real code")
    chk.extra["method"] = "Requests enumerated by TLC; facets, marks, labels, curves and shares read off the figures and judged against the specified field and energies."
