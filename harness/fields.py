"""ZDI magnetograms for the field checks: random coefficients, points, observed values."""
import functools
import math
from fractions import Fraction
import numpy as np
from harness import pool
from harness.vlib import call, cx, fx, exc_name
from starwinds_magnetogram import zdi_magnetogram as zm
from starwinds_magnetogram import coefficients as shc


UNIT = 0                # what is given to the code is 2^UNIT times what is recorded (linear parts of the system)


def in_units(fn):
    """Run a case in units of its own: values as small or large as in any system of units, recorded exactly."""
    @functools.wraps(fn)
    def wrapped(rng, *a, **kw):
        global UNIT
        UNIT = rng.choice([0] * 6 + [-300, -60, -30, 40, 300])
        pool.UNIT = -UNIT
        try: return fn(rng, *a, **kw)
        finally: UNIT = pool.UNIT = 0
    return wrapped


def up(x):
    return x * 2.0 ** UNIT if UNIT else x


def down(x, power=1):
    x = float(x)
    return fx(Fraction(x) / Fraction(2) ** (UNIT * power)) if UNIT and math.isfinite(x) else fx(x)


def rnd_z(rng):
    k = rng.random()
    if k < .15: return 0j
    if k < .25: return complex(rng.choice([1, -1, 2]))
    if k < .35: return complex(0, rng.gauss(0, 1))
    return complex(rng.gauss(0, 1), rng.gauss(0, 1)) * 10 ** rng.choice([0, 0, 0, 1, 2, -2, 3])


def rnd_pairs(rng, lmax=None, l0=True):
    lmax = rng.choice([1, 1, 2, 3, 4, 6, 10, 15, 30]) if lmax is None else lmax
    pairs = [(l, m) for l in range(0 if l0 else 1, lmax + 1) for m in range(l + 1)]
    k = rng.random()
    if k < .25: ks = [rng.choice(pairs)]
    elif k < .4 and lmax <= 6: ks = list(pairs)
    else: ks = rng.sample(pairs, rng.randint(1, min(len(pairs), 9)))
    k = rng.random()
    if k < .5: rng.shuffle(ks)
    elif k < .6: ks.sort(reverse=True)
    else: ks.sort()
    return ks


def rnd_coefs(rng, lmax=None):
    """list of (l, m, a, b, g)"""
    w = rng.choice([1, 2, 3, 3, 3])
    out = []
    for l, m in rnd_pairs(rng, lmax):
        v = [rnd_z(rng) for _ in range(w)] + [0j] * (3 - w)
        out.append((l, m, *v))
    return out, w


def build(rng, coefs, w):
    """-> (magnetogram, how)"""
    l = np.array([c[0] for c in coefs])
    m = np.array([c[1] for c in coefs])
    arrs = [up(np.array([c[2 + i] for c in coefs], dtype=complex)) for i in range(w)]
    u = rng.random()
    if u < .45:
        s = shc.Coefficients(np.zeros(w, dtype=complex))
        for i, c in enumerate(coefs):
            s.append(c[0], c[1], np.array([a[i] for a in arrs]))
        return zm.from_coefficients(s), "from_coefficients"
    if u < .55 and len(coefs) == 1 and w == 1:
        return zm.ZdiMagnetogram(int(l[0]), int(m[0]), arrs[0][0]), "scalars"
    if u < .65 and all(not np.any(a.imag) for a in arrs):
        arrs = [a.real for a in arrs]
        return zm.ZdiMagnetogram(l, m, *arrs), "real arrays"
    if u < .8:
        kw = dict(zip(("alpha_lm", "beta_lm", "gamma_lm"), arrs))
        return zm.ZdiMagnetogram(l, m, **kw), "keywords"
    return zm.ZdiMagnetogram(l, m, *arrs), "arrays"


def spec_coefs(coefs):
    return [dict(l=c[0], m=c[1], a=cx(c[2]), b=cx(c[3]), g=cx(c[4])) for c in coefs]


def rnd_points(rng, n=None, zero_d=False):
    """Arrays of polar and azimuth angles of some common shape, off the axis."""
    shape = rng.choice([(1,), (2,), (4,), (1, 1), (2, 3), (3, 2), (2, 1, 2), (1, 3)] + [()] * zero_d) if n is None else (n,)
    th = np.empty(shape)
    ph = np.empty(shape)
    for ix in np.ndindex(shape):
        k = rng.random()
        th[ix] = rng.uniform(.02, np.pi - .02) if k < .8 else rng.choice([np.pi / 2, .005, np.pi - .004, 1.0, np.pi / 4])
        k = rng.random()
        ph[ix] = rng.uniform(0, 2 * np.pi) if k < .6 else (rng.uniform(-20, 20) if k < .8 else rng.choice([0., np.pi, -np.pi, 2 * np.pi, 1.]))
    if rng.random() < .2:                           # points close to one another
        eps = 10. ** -rng.randint(1, 10)
        for ix in np.ndindex(shape):
            th[ix] = th.flat[0] + rng.choice([0, -1, 1, rng.uniform(-1, 1)]) * eps * min(1, th.flat[0], np.pi - th.flat[0]) / 2
            ph[ix] = ph.flat[0] + rng.choice([0, -1, 1, rng.uniform(-1, 1)]) * eps
    if rng.random() < .25 and len(shape) == 2:      # the package's own layout: meshgrid
        th, ph = np.meshgrid(th[0, :], ph[:, 0])
    if rng.random() < .06:
        ph = np.round(ph).astype(int)
    if rng.random() < .06:                          # other memory layouts
        th, ph = np.asfortranarray(th), np.asfortranarray(ph)
    elif rng.random() < .06 and shape and shape[0] > 1:
        th, ph = np.repeat(th, 2, axis=0)[::-2], np.repeat(ph, 2, axis=0)[::-2]
    return th, ph


def spec_points(th, ph):
    return [[fx(a), fx(b)] for a, b in zip(np.ravel(th), np.ravel(ph))]


METHODS = dict(r="get_radial_field", p="get_polar_field", a="get_azimuthal_field", strength="get_field_strength",
               rp="get_radial_poloidal_field", rt="get_radial_toroidal_field", pp="get_polar_poloidal_field_new",
               pt="get_polar_toroidal_field", ap="get_azimuthal_poloidal_field", at="get_azimuthal_toroidal_field_new",
               xyz="get_cartesian_field", xyzp="get_cartesian_poloidal_field", xyzt="get_cartesian_toroidal_field")


def flat(v, shape, vector=False):
    a = np.asarray(v)
    want = tuple(shape) + ((3,) if vector else ())
    if a.shape != want:
        raise ValueError("shape %s instead of %s" % (a.shape, want))
    if np.iscomplexobj(a):
        raise TypeError("complex field")
    if vector:
        return [[down(x) for x in row] for row in a.reshape(-1, 3)]
    return [down(x) for x in a.ravel()]


def observe(mag, th, ph, names, bad):
    obs = {}
    th0, ph0 = th.copy(), ph.copy()
    for n in names:
        ok, v = call(lambda: getattr(mag, METHODS[n])(th, ph))
        if not ok:
            bad.append("%s %s" % (exc_name(v), n))
            continue
        try:
            obs[n] = flat(v, th.shape, n.startswith("xyz"))
        except Exception as e:
            bad.append("malformed:%s %s" % (e, n))
    if not (np.array_equal(th, th0) and np.array_equal(ph, ph0)):
        bad.append("points-changed")
    return obs


def all_select():
    return dict(kind="all", lo=0, hi=0, mo=0, mh=0)


def case(coefs, th, ph, obs, bad, select=None, note=""):
    return dict(op="zdi", coefs=spec_coefs(coefs), pts=spec_points(th, ph), obs=obs, bad=bad, select=select or all_select(),
                _note="%s coefs=%s theta=%s phi=%s" % (note, [c[:2] for c in coefs][:12], np.ravel(th)[:3], np.ravel(ph)[:3]))


def corrupt(c):
    for n in c["obs"]:
        if c["obs"][n] and not n.startswith("xyz"):
            if c["coefs"] and any(x != [[0], [0]] for k in c["coefs"] for x in (k["a"], k["b"], k["g"])):
                c["obs"][n][-1] = fx(54321.25)
                return True
    return False


# degrees above 30: the specification's recurrences need directions near the equator there
OVERFLOW = [(88, 87), (100, 100), (110, 109), (150, 140)]      # P_lm beyond the range of scipy.special.lpmv: known finding


def high_pairs(rng, n):
    """n lists of pairs with degrees up to 150"""
    out = []
    for _ in range(n):
        ps = set()
        for _ in range(rng.choice([1, 1, 2, 3])):
            l = rng.choice([rng.randint(31, 85), rng.randint(31, 85), rng.randint(86, 150)])
            ps.add((l, rng.choice([0, rng.randint(0, min(l, 68)), l if l <= 85 else 172 - l if 90 <= l <= 110 else 60])))
        out.append(sorted(ps, key=lambda x: rng.random()))
    return out


def equator_points(rng):
    shape = rng.choice([(1,), (2,), (1, 2)])
    th = np.empty(shape)
    for ix in np.ndindex(shape): th[ix] = np.pi / 2 + rng.uniform(-.45, .45)
    ph = np.empty(shape)
    for ix in np.ndindex(shape): ph[ix] = rng.uniform(-7, 7)
    return th, ph
