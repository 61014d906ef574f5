"""C18: longitudinal field curves."""
import numpy as np
from harness import fields as fl
from harness.c17 import corners
from harness.vlib import THOROUGH, call, fx, exc_name
from starwinds_magnetogram import longitudinal_field as lf
from starwinds_magnetogram.geometry import ZdiGeometry


def rnd_grid(rng):
    u = rng.random()
    if u < .6:
        nt, na = rng.randint(3, 8), rng.randint(4, 11)
        g = ZdiGeometry(nt, na)
        return g
    if u < .8:
        return ZdiGeometry(np.concatenate([[0], np.sort([rng.uniform(.2, 2.9) for _ in range(3)]), [np.pi]]),
                           np.linspace(0, 2 * np.pi, rng.randint(4, 9)))
    return ZdiGeometry(corners(rng, np.pi, rng.randint(2, 6)), corners(rng, 2 * np.pi, rng.randint(2, 7)))


def azimuths(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    u = rng.random()
    if u < .25:
        a = [rng.randint(-3, 7) for _ in range(n)]
        return a, rng.choice([list, tuple, np.array, lambda x: np.array(x, dtype=np.int32)])(a)
    if u < .35:
        a = [float(np.float32(rng.uniform(0, 6))) for _ in range(n)]
        return a, np.array(a, dtype=np.float32)
    a = [rng.choice([rng.uniform(0, 2 * np.pi), rng.uniform(-9, 9), 0.0, np.pi]) for _ in range(n)]
    return a, rng.choice([list, tuple, np.array])(a)


@fl.in_units
def case(rng, grid=None, ncalls=5):
    try:
        g = grid or rnd_grid(rng)
        coefs, w = fl.rnd_coefs(rng, rng.choice([1, 2, 3, 5, 5, 11, 20]))
        mag, how = fl.build(rng, coefs, w)
        field = mag.get_cartesian_field(*g.centers())
    except Exception as e:
        return dict(op="long", bad=["setup:" + type(e).__name__], _note="")
    c = dict(op="long", bad=[], calls=[], ts=[fx(x) for x in g.polar_corners[0, :]], ps=[fx(x) for x in g.azimuthal_corners[:, 0]],
             field=[[fl.down(x) for x in v] for v in np.asarray(field).reshape(-1, 3)],
             _note="grid %s pairs %s" % (g.shape, [x[:2] for x in coefs][:6]))
    polar = rng.choice([0.0, np.pi / 2, np.pi, 1, rng.uniform(0, np.pi), rng.uniform(0, np.pi)])
    last = None
    for k in range(ncalls):
        if rng.random() < .3: polar = rng.uniform(0, np.pi)
        if last is not None and rng.random() < .4:         # the same directions in another order, or some of them
            a = list(last)
            rng.shuffle(a)
            a = a[:rng.randint(1, len(a))]
            arg = rng.choice([list, np.array])(a)
        else:
            a, arg = azimuths(rng)
        default = rng.random() < .15
        last = a
        # (a plot needs every value finite: some facet seen from everywhere)
        plot = rng.random() < .15 and np.ptp(g.polar_corners) > 3.1 and np.ptp(g.azimuthal_corners) > 6.2 and g.shape[0] > 4
        keep = np.array(arg)
        shown = []
        if plot:
            import matplotlib.pyplot as plt
            fig, ax = plt.subplots()
            ok, v = call(lambda: lf.plot_longitudinal_field_curve(ax, g, mag, polar, *([] if default else [arg])))
            plt.close(fig)
            if ok:
                try:
                    shown = [fx(x) for x in np.asarray(v[1])[0]]
                    v = np.asarray(v[1])[1]
                except Exception as e:
                    c["bad"].append("malformed:%s" % e)
                    return c
        elif default:
            ok, v = call(lambda: lf.get_longitudinal_field_curve(g, mag, polar))
        else:
            ok, v = call(lambda: lf.get_longitudinal_field_curve(g, mag, polar, arg))
        if not ok:
            # (from where nothing is seen there is no mean to return; the specification decides whether that is so)
            c["calls"].append(dict(pol=fx(float(polar)), azi=[fx(float(x)) for x in a], default=default, out=[], shown=[], single=False, raised=True))
            c["_note"] += " %s pol=%s az=%s" % (exc_name(v), polar, "default" if default else repr(arg)[:60])
            if not isinstance(v, ArithmeticError): c["bad"].append("%s azimuths %s" % (exc_name(v), "default" if default else repr(arg)[:60]))
            continue
        if not np.array_equal(np.array(arg), keep): c["bad"].append("azimuths-changed")
        v = np.asarray(v)
        if v.ndim != 1 or v.dtype.kind != "f":
            c["bad"].append("malformed result %s %s" % (v.shape, v.dtype))
            return c
        c["calls"].append(dict(pol=fx(float(polar)), azi=[fx(float(x)) for x in a], default=default, out=[fl.down(x) for x in v], shown=shown,
                               single=getattr(arg, "dtype", None) == np.float32, raised=False))
        c["_note"] += " pol=%s az=%s" % (polar, "default" if default else repr(arg)[:60])
    return c


def corrupt(c):
    if not c["calls"] or not c["calls"][-1]["out"]: return False
    c["calls"][-1]["out"] = c["calls"][-1]["out"][:-1]
    return True


def run(chk):
    chk.model("LongMC")
    rng = chk.rng
    cases = [case(rng, ZdiGeometry(33, 40), 2)] + ([case(rng, ZdiGeometry(), 1)] if THOROUGH else [])
    cases += [case(rng) for _ in range(3000 if THOROUGH else 220)]
    chk.judge("LongTrace", cases, corrupt=corrupt, label="longitudinal fields of the real code")
