"""C29: answers do not depend on what was called before; calls leave shared state alone."""
import functools
import hashlib
import logging
import math
import os
import random
import sys
import types
import warnings
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from harness.vlib import THOROUGH, call, fx, scratch, spread
import starwinds_magnetogram as package
from starwinds_magnetogram import (associated_legendre, coefficients as co, colorbar_manual_tickmarks as cbm, converter,
                                   coordinate_transforms as ct, fibonacci_sphere as fib, geometry, image_converter as ic,
                                   longitudinal_field as lf, parker_solution as ps, pfss_magnetogram as pm, plot_lsd,
                                   plot_pfss, plot_zdi, plots, reader_writer as rw, rotate, zdi_magnetogram as zm)
from starwinds_magnetogram.bin import convert_magnetogram, plot_magnetogram, plot_lsd as plot_lsd_command


# ---------------------------------------------------------------- inputs, made anew for every call
def rs(seed):
    return np.random.RandomState(seed)


def cset(seed, w=3, L=4):
    r = rs(seed)
    s = co.Coefficients(np.zeros(w, dtype=complex) if w else 0j)
    for l in range(1, L + 1):
        for m in range(l + 1):
            v = r.normal(size=w or 1) + 1j * r.normal(size=w or 1)
            s.append(l, m, v if w else v[0])
    return s


def points(seed, shape=(3, 2)):
    r = rs(100 + seed)
    return r.uniform(.2, 2.9, size=shape), r.uniform(0, 6.2, size=shape)


def geo(kind):
    if kind == 0: return geometry.ZdiGeometry(10, 12)
    if kind == 1:      # same shape, other corners
        return geometry.ZdiGeometry(np.pi * .999 * np.linspace(0, 1, 10) ** 1.2, 2 * np.pi * .999 * np.linspace(0, 1, 12) ** 1.1)
    return geometry.ZdiGeometry(9, 14)


def zdi(seed, **k):
    return zm.from_coefficients(cset(seed, **k))


def sets(s):
    d, o, v = s.as_arrays(include_unset=False)
    return [d, o, v]


def mag_text(seed, w=3, L=3):
    r = rs(seed)
    out = ["General poloidal plus toroidal field", "%d 3 -3" % ((L + 1) * (L + 2) // 2 - 1)]
    for _ in range(w):
        for l in range(1, L + 1):
            for m in range(l + 1): out.append("%d %d %.6e %.6e" % (l, m, r.normal(), r.normal()))
        out.append("")
    return "\n".join(out) + "\n"


def put(name, text):
    with open(name, "w") as f: f.write(text)
    return name


def content(name):
    with open(name) as f: return f.read()


def main_of(mod, *argv):
    old = sys.argv
    sys.argv = ["command"] + list(argv)
    try:
        mod.main()
    except SystemExit as e:
        if e.code: raise
    finally:
        sys.argv = old


def lsd_rows(seed, n=9):
    r = rs(seed)
    t = r.normal(size=(n, 7))
    t = np.abs(t)
    t[:, 0] = np.linspace(-50, 50, n)
    return t


def spectrum(seed, n=40):
    r = rs(seed)
    t = r.normal(size=(n, 6))
    t[:, 0] = np.cumsum(np.where(np.arange(n) % 13 == 12, .9, .03)) + 300 + seed
    return t


def picture():
    """What the current figure shows."""
    out = []
    for ax in plt.gcf().axes:
        out += [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), np.array(ax.get_xlim()), np.array(ax.get_ylim())]
        for ln in ax.lines: out += [np.asarray(ln.get_xydata(), float), str(ln.get_linestyle()), float(ln.get_linewidth())]
        for c in ax.collections:
            a = c.get_array()
            if a is not None: out += [np.ma.filled(np.ma.asarray(a, float), -1), np.array(c.get_clim())]
        for t in ax.texts: out.append(t.get_text())
        for p in ax.patches: out.append(np.asarray(p.get_path().vertices, float))
    plt.close(plt.gcf())
    return out


def drawn(fn):
    fn()
    return picture()


def items(fn):
    d = {}
    fn(d)
    return [list(kv) for kv in sorted(d.items())]


def field_call(method, seed, pts):
    return lambda: [getattr(zdi(seed), method)(*points(pts))]


def fig_ax():
    plt.figure()
    return plt.gca()


SLOW = ("draw-slice", "draw-default-lines")


# name, function, family
def calls():
    C = []

    def add(name, fn, family="plain"): C.append((name, fn, family))
    for k in (1, 2):
        add("arrays-%d" % k, lambda k=k: list(cset(k).as_arrays(include_unset=bool(k - 1))) + [str(cset(k)), repr(cset(k, L=1))])
        add("algebra-%d" % k, lambda k=k: sets(cset(k) + cset(k + 5) * 2) + sets(cset(k).truncated(2)) + sets(co.hsplit(cset(k))[1]))
        add("noise-%d" % k, lambda k=k: sets(co.noise(1, 2 + k, noise_fn=lambda size: np.arange(size) + k, beta=k)))
        add("read-%d" % k, lambda k=k: sets(rw.read_magnetogram_file(put("same.dat", mag_text(k)))))
        add("write-%d" % k, lambda k=k: [rw.write_magnetogram_file(cset(k, w=k, L=2), "w.dat", write_swmf_header=k == 1), content("w.dat")])
        add("to-pfss-%d" % k, lambda k=k: sets(converter.convert_zdi_to_pfss(cset(k, w=0))))
        add("to-zdi-%d" % k, lambda k=k: sets(converter.convert_pfss_to_zdi(cset(k, w=0))))
        add("fold-%d" % k, lambda k=k: sets(converter.map_to_positive_orders(rotate.rotate_magnetogram_euler_zyz_deg(cset(k, w=0, L=2), [10 * k, 20, 30]))))
        add("legendre-%d" % k, lambda k=k: list(associated_legendre.calculate_lpmn(np.array([1, 2, 5]), np.array([0, 2, 3]), points(k)[0])))
        add("radial-%d" % k, field_call("get_radial_field", k, 1))
        add("polar-%d" % k, field_call("get_polar_field", 1, k))
        add("azimuthal-%d" % k, field_call("get_azimuthal_field", k, 2))
        add("cartesian-%d" % k, field_call("get_cartesian_field", k, k))
        add("energy-%d" % k, lambda k=k: [items(lambda d: zdi(k).energy(dest=d)), *zdi(k).energy_matrix(), str(zdi(k, L=1))])
        add("parts-%d" % k, lambda k=k: [zdi(k).as_restricted((1, k)).get_radial_field(*points(1)), zdi(k).as_toroidal().get_azimuthal_field(*points(1))])
        add("pfss-%d" % k, lambda k=k: list(pm.evaluate_spherical(cset(k, w=0), np.array(1.7), *points(1))))
        add("pfss-source-surface-%d" % k, lambda k=k: list(pm.evaluate_spherical(cset(1, w=0), np.array(1.2), *points(1), radius_source_surface=1 + k)))
        add("pfss-cartesian-%d" % k, lambda k=k: list(pm.evaluate_cartesian(cset(k, w=0), *[1 + x for x in rs(k).uniform(size=(3, 2, 2))])))
        add("spherical-%d" % k, lambda k=k: list(ct.spherical_coordinates_from_rectangular(*rs(k).normal(size=(3, 4)))))
        add("matrix-%d" % k, lambda k=k: [ct.spherical_to_rectangular_transformation_matrix(*points(k, (4,))), ct.rectangular_to_spherical_transformation_matrix(*points(k, (4,)))])
        add("rotate-%d" % k, lambda k=k: sets(rotate.rotate_magnetogram_euler_zyz_deg(cset(3, w=1, L=3), [10 * k, 20, 5])))
        add("longitudinal-%d" % k, lambda k=k: [lf.get_longitudinal_field_curve(geo(k - 1), zdi(k), .5 * k)])
        add("statistics-%d" % k, lambda k=k: [items(lambda d: geometry.numerical_description(geo(2 * k - 2), zdi(1), dest=d))])
        add("samples-%d" % k, lambda k=k: [converter.get_zdi_coeffs(*_sampled(0, k, [1, 2, 2], [0, 1, 2]))])
        add("samples-all-%d" % k, lambda k=k: sets(converter.convert_latlon_to_zdi_coeffs(*_sampled(2, k), max_degree=k)))
        add("to-image-%d" % k, lambda k=k: [ic.to_image(cset(k, w=0, L=3), geo(0))])
        add("from-image-%d" % k, lambda k=k: sets(ic.from_image(rs(k).normal(size=(11, 9)), geo(0), 2 + k)[0]))
        add("parker-%d" % k, lambda k=k: _parker(k))
        add("intervals-%d" % k, lambda k=k: [np.array([list(map(float, x)) for x in plot_lsd.wl_intervals(spectrum(k)[:, 0], .1 * k)])])
        add("fibonacci-%d" % k, lambda k=k: [np.array(fib.fibonacci_sphere(20 + k))])
        add("labels-%d" % k, lambda k=k: [str(cbm.generate_major(0, 2 + k, 1)), str(cbm.generate_minor(0, 2, k)), plots.latex_float(1.5 * 10 ** k), cbm.tesla_to_gauss("$10^{%d}$" % k)])
        add("convert-%d" % k, lambda k=k: [main_of(convert_magnetogram, put("in.dat", mag_text(k)), "out.dat", *(["--degree-max", "5", "-q"] if k == 2 else [])), content("out.dat")], "commands")
        add("back-%d" % k, lambda k=k: [main_of(convert_magnetogram, put("in.dat", mag_text(k, w=1)), "out.dat", ["--no-conversion", "--pfss-to-zdi"][k - 1]), content("out.dat")], "commands")
        add("draw-components-%d" % k, lambda k=k: drawn(lambda: plot_zdi.plot_zdi_components(zdi(k), zg=geo(0))), "draws")
        add("draw-pfss-%d" % k, lambda k=k: drawn(lambda: plot_pfss.plot_components(cset(k, w=0, L=2), geometry=geo(0), radius=k)), "draws")
        add("draw-longitudinal-%d" % k, lambda k=k: drawn(lambda: lf.plot_longitudinal_field_curve(fig_ax(), geo(0), zdi(k), 1.)), "draws")
        add("draw-lsd-%d" % k, lambda k=k: drawn(lambda: _lsd(k)), "draws")
        add("draw-spectrum-%d" % k, lambda k=k: drawn(lambda: plot_lsd.plot_spectrum(spectrum(k))), "draws")
        add("draw-energy-%d" % k, lambda k=k: drawn(lambda: plot_zdi.plot_energy_by_degree(zdi(k), scaled=k == 1)), "draws")
    for k in (0, 1, 2):
        add("grid-%d" % k, lambda k=k: list(geo(k).corners()) + list(geo(k).centers()) + [geo(k).areas(), geo(k).unit_normals()])
        add("visible-%d" % k, lambda k=k: [geo(k).projected_visible_area_fraction(np.array([.6, 0, .8])), np.array(geo(k).centers_cartesian())])
        add("harmonic-%d" % k, lambda k=k: [ic.spherical_harmonic(1, 2, *geo(k).centers()[::-1])])
    add("image-default-grid", lambda: sets(ic.from_image(rs(9).normal(size=(11, 9)), lmax=3)[0]))
    add("random-sphere", lambda: [np.array(fib.fibonacci_sphere(5, randomize=True)).shape], "random")
    add("random-noise", lambda: [co.noise(1, 3).size], "random")
    for k in (0, 1):
        kw = [{}, dict(zg=geo(0))][k]
        add("draw-field-%d" % k, lambda kw=kw: drawn(lambda: plot_zdi.plot_zdi_field(zdi(1, L=2).get_radial_field, **kw)), "draws")
        add("draw-three-%d" % k, lambda kw=kw: drawn(lambda: plot_zdi.plot_zdi_components(zdi(1, L=2), **kw)), "draws")
        add("draw-three-pfss-%d" % k, lambda k=k: drawn(lambda: plot_pfss.plot_components(cset(1, w=0, L=2), **[{}, dict(geometry=geo(0))][k])), "draws")
    add("draw-map", lambda: drawn(lambda: plots.plot_equirectangular(geo(0), np.arange(geo(0).areas().size).reshape(geo(0).areas().shape) - 5., fig_ax())), "draws")
    add("draw-default-lines", lambda: drawn(lambda: plot_zdi.plot_streamtraces(zdi(1, L=2))), "draws")
    add("draw-matrix", lambda: drawn(lambda: plot_zdi.plot_energy_matrix(zdi(2))), "draws")
    add("draw-summary", lambda: drawn(lambda: plot_zdi.plot_energy_summary(zdi(2))), "draws")
    add("draw-slice", lambda: drawn(lambda: plot_pfss.plot_slice(cset(1, w=0, L=2))), "draws")
    add("draw-command", lambda: [main_of(plot_magnetogram, put("mapx_a.dat", mag_text(1)), "o.png", "-p", "energy-by-degree"), os.path.getsize("o.png") > 1000], "draw-commands")
    add("draw-lsd-command", lambda: [put("l.txt", "h\nh\n" + "\n".join(" ".join("%r" % float(x) for x in r) for r in lsd_rows(3))),
                                     main_of(plot_lsd_command, "l.txt", "o.png"), *picture()], "draw-commands")
    add("refused-command", lambda: [_refused(convert_magnetogram, put("in.dat", mag_text(1)), "in.dat"), content("in.dat")], "commands")
    add("refused-file", lambda: [_raises(lambda: rw.read_magnetogram_file("absent.dat"))])
    return C


def _lsd(k):
    plt.subplots(3)
    plot_lsd.plot_lsd_profile(lsd_rows(k), "VNI")


def _sampled(g, k, *lm):
    zg, z = geo(g), zdi(k)
    pl, az = zg.centers()
    return (pl, az, *lm, z.get_radial_field(pl, az), z.get_polar_field(pl, az), z.get_azimuthal_field(pl, az))


def _parker(k):
    p = ps.ParkerSolution(temperature=1.1e6 * k)
    r = np.array([1.1, 2., 7., 30.]) * p.stellar_radius
    return [p.speed(r), np.log10(p.density(r)), str(p), np.log10(flux() if callable(flux := p.total_mass_flux) else flux)]


def _raises(fn):
    try:
        fn()
        return "no exception"
    except Exception as e:
        return type(e).__name__


def _refused(mod, *argv):
    return _raises(lambda: main_of(mod, *argv))


# ---------------------------------------------------------------- observing
def digest(v):
    """-> dict(txt, num): structure and texts; for arrays size, extremes and weighted sums."""
    txt, num = [], []

    def go(x):
        if isinstance(x, (list, tuple)):
            txt.append("[%d" % len(x))
            for y in x: go(y)
        elif isinstance(x, (str, bool, type(None))): txt.append(repr(x))
        elif isinstance(x, (int, float, complex, np.ndarray, np.generic)):
            a = np.asarray(x)
            txt.append("%s%s" % (a.dtype.kind, a.shape))
            if a.dtype.kind in "OUSb":
                txt.append(str(a.tolist()))
                return
            a = a.astype(complex).ravel()
            a = np.concatenate([a.real, a.imag]) if np.asarray(x).dtype.kind == "c" else a.real
            txt.append("nonfinite %d" % np.sum(~np.isfinite(a)))
            a = np.where(np.isfinite(a), a, 0.5)
            if a.size:
                w1, w2 = np.sin(1 + np.arange(a.size)), np.cos(3 * np.arange(a.size)) + 2
                num.extend([a[0], a[-1], a.min(), a.max(), float(np.mean(w1 * a)), float(np.mean(w2 * a))])
        else: txt.append(type(x).__name__)
    go(v)
    return dict(txt=hashlib.md5("|".join(txt).encode()).hexdigest() if len("|".join(txt)) > 60 else "|".join(txt), num=[fx(x) for x in num])


def scribble(v):
    """The caller does what it likes with what it was given."""
    if isinstance(v, (list, tuple)):
        for x in v: scribble(x)
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fci":
        v[...] = 777


def h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:10]


def plain(v):
    if isinstance(v, np.ndarray): return ("array", v.tolist())
    if isinstance(v, (int, float, complex, str, tuple, list, type(None), bool)): return v
    if isinstance(v, dict): return sorted((str(k), str(plain(x))) for k, x in v.items())
    if isinstance(v, geometry.ZdiGeometry): return ("grid", [plain(x) for x in v.corners()])
    return type(v).__name__


def constants():
    """Module variables and default arguments of the package."""
    out = []
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("starwinds_magnetogram"): continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"): continue
            if isinstance(v, (types.ModuleType, type, logging.Logger)): continue
            if isinstance(v, types.FunctionType):
                if v.__defaults__ or v.__kwdefaults__: out.append((name, k, [plain(x) for x in v.__defaults__ or ()], plain(v.__kwdefaults__ or {})))
            elif isinstance(v, (int, float, complex, str, tuple, np.ndarray, bool)): out.append((name, k, plain(v)))
    return out


def state():
    root = logging.getLogger()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rc = dict(matplotlib.rcParams)
    return {"cwd": h(os.getcwd()), "environment": h(sorted(os.environ.items())), "arguments": h(sys.argv), "numpy-errors": h(np.geterr()),
            "numpy-print": h(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            "numpy-random": "%d %d" % (hash(np.random.get_state()[1].tobytes()), np.random.get_state()[2]),
            "python-random": str(hash(random.getstate())), "warnings": h([str(f) for f in warnings.filters]), "matplotlib": h(sorted((k, str(v)) for k, v in rc.items())),
            "root-log": h([root.level, [type(x).__name__ for x in root.handlers], logging.root.manager.disable]),
            "package-log-level": h(logging.getLogger(package.__package__).level), "package-constants": h(constants()),
            "figures": h(plt.get_fignums()), "standard-streams": h([id(sys.stdin), sys.getrecursionlimit()])}


@functools.lru_cache(None)
def table():
    return calls()


def perform(name, fn, limit=120):
    ok, v = call(fn, limit=limit)
    if not ok:
        return dict(txt="exception:%s" % type(v).__name__, num=[])
    d = digest(v)
    scribble(v)
    return d


def fresh(rng, k):
    np.random.seed(1), random.seed(1)
    with scratch("c29-") as d:
        os.chdir(d)
        name, fn, _ = table()[k]
        return perform(name, fn)


def session(rng, ks):
    np.random.seed(1), random.seed(1)
    names = table()
    with scratch("c29-") as d:
        os.chdir(d)
        start, steps = state(), []
        for k in ks:
            name, fn, _ = names[k]
            a = perform(name, fn)
            steps.append(dict(call=name, ans=a, shared=state()))
        return start, steps


def corrupt(c):
    s = c["steps"][len(c["steps"]) // 2]
    if c["id"] % 2: s["shared"]["numpy-errors"] = "changed"
    elif s["ans"]["num"]: s["ans"]["num"][-1] = fx(54321.5)
    else: s["ans"]["txt"] = "other"


def run(chk):
    chk.model("SessionMC")
    chk.refuted("SessionMC", "SessionBad1")
    chk.refuted("SessionMC", "SessionBad2")
    names = table()
    n = len(names)
    answers = spread(chk.rng, fresh, n, [k for k in range(n)])
    fast = [k for k in range(n) if names[k][0] not in SLOW]
    plans = [[fast[k - 1] for k in b["session"]] for b in chk.generate("SessionGen", "SessionGen", env={"N": str(len(fast))})]
    for _ in range(60 if THOROUGH else 8):
        p = list(range(n)) + fast
        chk.rng.shuffle(p)
        plans.append(p)
    done = spread(chk.rng, session, len(plans), plans)
    cases = []
    for p, (start, steps) in zip(plans, done):
        fam = {f: sorted({names[k][0] for k in p if names[k][2] == f}) for f in ("draws", "random", "commands", "draw-commands")}
        cases.append(dict(fresh={names[k][0]: answers[k] for k in set(p)}, start=start, steps=steps, draws=fam["draws"] + fam["draw-commands"],
                          random=fam["random"], commands=fam["commands"] + fam["draw-commands"], _note="session of %d calls from %s" % (len(p), names[p[0]][0])))
    bad = [(names[k][0], answers[k]["txt"]) for k in range(n) if answers[k]["txt"].startswith("exception")]
    for b in bad: chk.direct("exception-in-a-new-process", "%s %s" % b)
    chk.extra["calls"] = n
    chk.judge("SessionTrace", cases, corrupt=corrupt, label="sessions of calls in one process")
