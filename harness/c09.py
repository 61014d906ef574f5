"""C09: ZDI and PFSS radial coefficients describe one surface field."""
import numpy as np
from harness import fields as fl
from harness.pool import snap
from harness.vlib import THOROUGH, call, fx, cx, exc_name
from starwinds_magnetogram import coefficients as shc, converter, pfss_magnetogram as pm, zdi_magnetogram as zm

EMPTY = dict(d=[], k=[], v=[], lmax=0, mmin=0, size=0)


def scalar_set(rng, pairs=None, lmax=None):
    if rng.random() < .08:                          # real coefficients
        ps = pairs or fl.rnd_pairs(rng, lmax)
        return shc.from_arrays([l for l, m in ps], [m for l, m in ps], [fl.up(float(fl.rnd_z(rng).real)) for _ in ps])
    s = shc.Coefficients()
    for l, m in pairs or fl.rnd_pairs(rng, lmax):
        v = fl.up(fl.rnd_z(rng))
        s.append(l, m, rng.choice([v, np.array([v])]))
    return s


def surface_pfss(s, th, ph, rng):
    """The code's PFSS field at the surface, azimuth reversed."""
    u = rng.random()
    if u < .5: r = np.ones_like(th)
    elif u < .75: r = 1.0
    else: r = np.array([1.0])
    return pm.evaluate_spherical(s, r, th, -ph)


@fl.in_units
def case(rng, pairs=None, high=False):
    z = scalar_set(rng, pairs)
    c = dict(op="forward", zdi=snap(z), pfss=EMPTY, back=EMPTY, pts=[], zr=[], pr=[], bad=[])
    th, ph = fl.equator_points(rng) if high else fl.rnd_points(rng)
    c["pts"] = fl.spec_points(th, ph)
    c["_note"] = "pairs %s theta %s" % (c["zdi"]["k"][:8], np.ravel(th)[:3])
    ok, p = call(lambda: converter.convert_zdi_to_pfss(z))
    if not ok:
        c["bad"] = [exc_name(p)]
        return c
    try:
        c["pfss"] = snap(p)
        ok, b = call(lambda: converter.convert_pfss_to_zdi(p))
        if not ok:
            c["bad"].append(exc_name(b) + " back")
        else:
            c["back"] = snap(b)
        if snap(z) != c["zdi"] or snap(p) != c["pfss"]:
            c["bad"].append("operand-changed")
        ok, v = call(lambda: zm.from_coefficients(z).get_radial_field(th, ph))
        if ok: c["zr"] = fl.flat(v, th.shape)
        else: c["bad"].append(exc_name(v) + " zdi field")
        ok, v = call(lambda: surface_pfss(p, th, ph, rng))
        if ok: c["pr"] = fl.flat(v[0], th.shape)
        else: c["bad"].append(exc_name(v) + " pfss field")
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def corrupt(c):
    if not c["pfss"]["v"] or c["zdi"]["v"][0][0] == cx(0):
        return False
    c["pfss"]["v"][0][0] = [[-x for x in z[:1]] + z[1:] for z in c["pfss"]["v"][0][0]]
    return True


def run(chk):
    chk.model("ConvMC")
    rng = chk.rng
    cases = [case(rng, [(l, m)]) for l in range(31) for m in range(l + 1) if THOROUGH or l <= 12 or rng.random() < .5]
    cases += [case(rng) for _ in range(8000 if THOROUGH else 900)]
    chk.judge("ConvTrace", cases, corrupt=corrupt, label="conversions and both radial fields")
    high = [case(rng, pairs, True) for pairs in fl.high_pairs(rng, 400 if THOROUGH else 60)]
    chk.judge("ConvTrace", high, cfg="ConvTraceHigh", corrupt=corrupt, label="degrees 31 to 150")
