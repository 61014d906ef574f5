"""C10: the ZDI form of a PFSS set has its surface vector field."""
import numpy as np
from harness import fields as fl
from harness.c09 import EMPTY, scalar_set, surface_pfss
from harness.pool import snap
from harness.vlib import THOROUGH, call, fx, cx, exc_name
from starwinds_magnetogram import converter, zdi_magnetogram as zm


@fl.in_units
def case(rng, pairs=None, high=False):
    p = scalar_set(rng, pairs)
    c = dict(op="reverse", pfss=snap(p), zdi=EMPTY, pts=[], zf=[], pf=[], bad=[])
    th, ph = fl.equator_points(rng) if high else fl.rnd_points(rng)
    c["pts"] = fl.spec_points(th, ph)
    c["_note"] = "pairs %s theta %s" % (c["pfss"]["k"][:8], np.ravel(th)[:3])
    ok, z = call(lambda: converter.convert_pfss_to_zdi(p))
    if not ok:
        c["bad"] = [exc_name(z)]
        return c
    try:
        c["zdi"] = snap(z)
        ok, m = call(lambda: zm.from_coefficients(z))
        if not ok:
            c["bad"].append(exc_name(m))
            return c
        ok, v = call(lambda: (m.get_radial_field(th, ph), m.get_polar_field(th, ph), m.get_azimuthal_field(th, ph)))
        if ok: c["zf"] = [list(t) for t in zip(*[fl.flat(x, th.shape) for x in v])]
        else: c["bad"].append(exc_name(v) + " zdi field")
        ok, v = call(lambda: surface_pfss(p, th, ph, rng))
        if ok: c["pf"] = [list(t) for t in zip(*[fl.flat(x, th.shape) for x in v])]
        else: c["bad"].append(exc_name(v) + " pfss field")
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def corrupt(c):
    if not c["zf"]:
        return False
    c["zf"][-1][1] = fx(54321.5)
    return True


def run(chk):
    chk.model("ConvMC")
    rng = chk.rng
    cases = [case(rng, [(l, m)]) for l in range(31) for m in range(l + 1) if THOROUGH or l <= 12 or rng.random() < .5]
    cases += [case(rng) for _ in range(8000 if THOROUGH else 900)]
    chk.judge("ConvTrace", cases, corrupt=corrupt, label="conversions and both vector fields")
    high = [case(rng, pairs, True) for pairs in fl.high_pairs(rng, 400 if THOROUGH else 60)]
    chk.judge("ConvTrace", high, cfg="ConvTraceHigh", corrupt=corrupt, label="degrees 31 to 150")
