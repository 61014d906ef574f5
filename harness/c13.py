"""C13: energies."""
import contextlib
import io
import re
import numpy as np
from harness import fields as fl
from harness.vlib import THOROUGH, call, fx, exc_name

LABELS = {r"Radial\s+energy\*?": "radial.energy.fraction", r"Poloidal energy": "poloidal.energy.fraction",
          r"Toroidal energy": "toroidal.energy.fraction",
          r"poloidal l1 \(dipole\):": "total.energy.dipole.fraction", r"poloidal l2 \(quadrupole\):": "total.energy.quadrupole.fraction",
          r"poloidal l3 \(octopole\):": "total.energy.octopole.fraction", r"toroidal l1:": "total.energy.toroidal.l1.fraction",
          r"toroidal l2:": "total.energy.toroidal.l2.fraction", r"toroidal l3:": "total.energy.toroidal.l3.fraction",
          r"axisymmetric:": "total.energy.axisymmetric.fraction",
          r"poloidal axisymmetric:": "total.energy.poloidal.axisymmetric.fraction",
          r"toroidal axisymmetric:": "total.energy.toroidal.axisymmetric.fraction",
          r"dipole axisymmetric:": "total.energy.dipole.axisymmetric.fraction"}


def reals(v, n):
    a = np.asarray(v)
    if a.shape != (n,):
        raise ValueError("shape")
    if np.iscomplexobj(a):
        if np.any(np.abs(a.imag) > 0): raise TypeError("complex energy")
        a = a.real
    return [fl.down(x, 2) for x in a]


def shown(text):
    out = {}
    for line in text.splitlines():
        for pat, name in LABELS.items():
            m = re.match(r"\s*" + pat + r"\s+([-+.\deE]+)%", line)
            if m:
                out["magnetogram." + name] = [fx(float(m.group(1)) / 100), fx(.000501)]
        m = re.match(r"Total energy:\s*([-+.\deE]+)", line)
        if m:
            v = float(m.group(1))
            out["magnetogram.total.energy.B2"] = [fx(v), fx(abs(v) * .0051 + 1e-12)]
    return out


@fl.in_units
def quiet_case(rng, op):
    return case(rng, op)


def case(rng, op):
    coefs, w = fl.rnd_coefs(rng, rng.choice([1, 1, 2, 3, 4, 8, 15, 30]) if op != "matrix" else rng.choice([1, 2, 3, 5, 9, 17, 30]))
    if rng.random() < .25:                          # orders of either sign
        coefs = [(l, m * rng.choice([1, -1]), *z) for l, m, *z in coefs]
        have = {x[:2] for x in coefs}
        coefs += [(l, -m, *[fl.rnd_z(rng) for _ in range(w)], *[0j] * (3 - w)) for l, m, *z in coefs if (l, -m) not in have and rng.random() < .4]
    u = rng.random()
    if u < .1: coefs = [(l, m, a, 0j, 0j) for l, m, a, b, g in coefs]
    elif u < .2: coefs = [(l, m, 0j, 0j, g) for l, m, a, b, g in coefs]; w = 3
    elif u < .25: coefs = [(l, m, 0j, 0j, 0j) for l, m, a, b, g in coefs]
    c = dict(op=op, coefs=fl.spec_coefs(coefs), ea=[], eb=[], eg=[], dict={}, shown={}, table=[], shares=False, er=[], ep=[], et=[], bad=[],
             _note="%s of pairs %s" % (op, [x[:2] for x in coefs][:10]))
    try:
        mag, how = fl.build(rng, coefs, w)
    except Exception as e:
        c["bad"] = ["exception:" + type(e).__name__]
        return c
    try:
        if op == "matrix":
            ok, v = call(mag.energy_matrix)
            if not ok:
                c["bad"] = [exc_name(v)]
                return c
            for n, x in zip(("er", "ep", "et"), v):
                c[n] = [[fl.down(z, 2) for z in row] for row in np.asarray(x)]
            if len(v) != 3: c["bad"].append("not three matrices")
            return c
        text = ""
        dest = {"other": 1} if op == "dict" else None
        if op == "dict":
            ok, v = call(lambda: mag.energy(dest=dest))
        else:
            buf = io.StringIO()
            shares = rng.random() < .5

            def go():
                with contextlib.redirect_stdout(buf):
                    return mag.energy(show_fractions=shares) if shares or rng.random() < .4 else mag.energy()
            ok, v = call(go)
            text = buf.getvalue()
            c["shares"] = shares
            c["table"] = [list(x) for x in text.split("Total energy")[0].splitlines()] if shares else []
        if not ok:
            c["bad"] = [exc_name(v)]
            return c
        # one energy per coefficient, in the magnetogram's own order of coefficients
        order = list(zip(np.atleast_1d(mag.degrees_l).tolist(), np.atleast_1d(mag.orders_m).tolist()))
        if sorted(order) != sorted(x[:2] for x in coefs):
            c["bad"].append("pairs held differ")
            return c
        pos = [order.index(tuple(x[:2])) for x in coefs]
        vals = [reals(x, len(coefs)) for x in v]
        c["ea"], c["eb"], c["eg"] = ([x[i] for i in pos] for x in vals)
        if op == "dict":
            c["dict"] = {k: fl.down(np.real(x), 2 if k.endswith(".B2") else 0) for k, x in dest.items() if k.startswith("magnetogram.")}
        c["shown"] = shown(text)
    except Exception as e:
        c["bad"].append("malformed:%s %s" % (type(e).__name__, e))
    return c


def corrupt(c):
    if c["op"] == "dict":
        c["dict"]["magnetogram.total.energy.B2"] = fx(12345.5)
    elif c["op"] == "matrix":
        c["et"][-1][0] = fx(1.5)
    else:
        c["eg"][0] = fx(99999.5)
    return True


def run(chk):
    chk.model("EnergyMC")
    n = 5000 if THOROUGH else 350
    cases = [(case if op == "print" else quiet_case)(chk.rng, op) for op in ("dict", "print", "matrix") for _ in range(n)]
    chk.extra["printed values compared"] = sum(len(c["shown"]) for c in cases)
    chk.judge("EnergyTrace", cases, corrupt=corrupt, label="energies of random magnetograms")
