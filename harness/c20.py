"""C20: image transforms in interleaved histories."""
import numpy as np
from harness import fields as fl
from harness.c17 import corners
from harness.vlib import THOROUGH, call, fx, cx, exc_name
from starwinds_magnetogram import coefficients as shc
from starwinds_magnetogram import image_converter as ic
from starwinds_magnetogram.geometry import ZdiGeometry


def one(z):
    z = complex(z)
    return [fl.down(z.real), fl.down(z.imag)]


@fl.in_units
def history(rng, n, high=False):
    return Session(rng, high).run(n)


class Session:
    def __init__(self, rng, high=False):
        self.rng, self.high = rng, high
        self.steps, self.bad, self.log = [], [], []
        self.returned = []
        self.grids = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            u = rng.random()
            if high:                                   # near the equator, see DESIGN.md
                t = np.pi / 2 + np.sort([rng.uniform(-.44, .44) for _ in range(rng.randint(3, 5))])
                g = ZdiGeometry(t, corners(rng, 2 * np.pi, rng.randint(3, 5)))
            elif u < .5:
                g = ZdiGeometry(rng.randint(3, 7), rng.randint(3, 8))
            else:
                g = ZdiGeometry(corners(rng, np.pi, rng.randint(3, 6)), corners(rng, 2 * np.pi, rng.randint(3, 7)))
            self.grids.append(g)
        if len(self.grids) > 1 and not high and rng.random() < .5:      # same shape, other angles; or same azimuths, other polar angles
            g = self.grids[0]
            t, p = g.polar_corners[0, :].copy(), g.azimuthal_corners[:, 0].copy()
            if rng.random() < .5: t = .05 + t * .9
            else: p = p * .8 + .1
            self.grids[1] = ZdiGeometry(t, p)

    def image(self, v, shape, of=one):
        a = np.asarray(v)
        if a.shape != shape: raise ValueError("shape %s not %s" % (a.shape, shape))
        return [[of(z) for z in row] for row in a]

    def gspec(self, g):
        return dict(ts=[fx(x) for x in g.polar_corners[0, :]], ps=[fx(x) for x in g.azimuthal_corners[:, 0]])

    def coefs(self, lmax):
        rng = self.rng
        pairs = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
        ks = rng.sample(pairs, rng.randint(1, min(len(pairs), 6)))
        if self.high and rng.random() < .7: ks[0] = (lmax, rng.randint(-lmax, lmax))
        ks = list(dict.fromkeys(ks))
        s = shc.Coefficients()
        for l, m in ks: s.append(l, m, fl.up(fl.rnd_z(rng)))
        return s

    def spec_coefs(self, s):
        out = []
        for (l, m), v in s.contents():
            v = np.atleast_1d(v)
            if v.shape != (1,): raise ValueError("width")
            out.append(dict(l=int(l), m=int(m), v=one(v[0])))
        return out

    def harmonic(self):
        rng, g = self.rng, self.rng.choice(self.grids)
        pl, az = g.centers()
        l = rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 20, 30]) if not self.high else rng.randint(28, 80)
        m = rng.randint(-l, l)
        kw = {} if rng.random() < .75 else dict(use_cache=rng.random() < .5)
        if rng.random() < .2: pl, az = pl[:1, :], az[:1, :]
        ok, v = call(lambda: ic.spherical_harmonic(m, l, az, pl, **kw))
        if not ok: return exc_name(v)
        self.returned.append(v)
        self.steps.append(dict(op="harmonic", l=l, m=m, ths=[fx(x) for x in pl[0, :]], phs=[fx(x) for x in az[:, 0]], out=self.image(v, pl.shape, cx)))

    def to_image(self):
        g = self.rng.choice(self.grids)
        s = self.coefs(self.rng.choice([0, 1, 2, 4, 7, 14, 25]) if not self.high else self.rng.choice([31, 32, 33, 45, 60]))
        before = self.spec_coefs(s)
        ok, v = call(lambda: ic.to_image(s, g))
        if not ok: return exc_name(v)
        if self.spec_coefs(s) != before: self.bad.append("operand-changed")
        self.returned.append(v)
        self.steps.append(dict(op="to_image", coefs=before, out=self.image(v, g.centers()[0].shape), **self.gspec(g)))

    def from_image(self):
        rng, g = self.rng, self.rng.choice(self.grids)
        shape = g.centers()[0].shape
        img = np.array([[rng.gauss(0, 1) for _ in range(shape[1])] for _ in range(shape[0])])
        u = rng.random()
        if u < .35:
            img = img + 1j * img[::-1]
            if rng.random() < .5:                      # real, imaginary or zero in places
                for i in range(shape[0]) if rng.random() < .7 else range(1):
                    if rng.random() < .6: img[i] = rng.choice([img[i].real, 1j * img[i].imag, 0 * img[i]])
            if rng.random() < .3: img[:, rng.randrange(shape[1])] = 1.5
        elif u < .4: img = np.round(img * 5).astype(int)
        elif u < .5: img = np.ones(shape)
        if rng.random() < .2: img = img * 10.0 ** rng.uniform(-6, 6)
        limit = rng.choice([1, 2, 3, 4, 4, 9])
        default = rng.random() < .3
        if default: g = ZdiGeometry(shape[1] + 1, shape[0] + 1)
        arg = img.copy()
        if fl.UNIT: arg = arg * 2.0 ** fl.UNIT
        given = arg.copy()
        ok, v = call(lambda: ic.from_image(arg, lmax=limit) if default else ic.from_image(arg, g, limit))
        if not ok: return exc_name(v)
        if not np.array_equal(arg, given): self.bad.append("image-changed")
        c, zg = v
        if zg.shape != g.shape: self.bad.append("grid-returned")
        out = self.spec_coefs(c)
        self.returned += [x for _, x in c.contents() if isinstance(x, np.ndarray)] + [arg]
        self.steps.append(dict(op="from_image", img=[[cx(z) for z in row] for row in img], limit=limit, out=out, **self.gspec(g)))

    def recover(self):
        rng = self.rng
        nt = rng.choice([20, 30])
        g = ZdiGeometry(nt + 1, rng.choice([13, 15]) + 1)
        s = self.coefs(rng.choice([0, 1, 2, 3, 4]))
        spec = self.spec_coefs(s)
        limit = rng.choice([1, 3, 5, 6])
        ok, v = call(lambda: ic.from_image(ic.to_image(s, g), g, lmax=limit)[0])
        if not ok: return exc_name(v)
        self.steps.append(dict(op="recover", coefs=spec, nt=nt, limit=limit, out=self.spec_coefs(v)))

    def poke(self):
        for a in self.returned[-self.rng.randint(1, 4):]:
            try: a[...] = self.rng.choice([0, 77, -3])
            except (ValueError, TypeError): pass
        return None

    def run(self, n):
        for _ in range(n):
            k = self.rng.choice(["harmonic", "harmonic", "to_image", "to_image", "from_image", "from_image", "recover", "poke", "poke"] if not self.high else
                                ["harmonic", "to_image", "to_image", "poke"])
            self.log.append(k)
            try:
                e = getattr(self, k)()
                if e: self.bad.append("%s %s" % (e, k))
            except Exception as e:
                self.bad.append("malformed:%s %s %s" % (k, type(e).__name__, e))
            if self.bad: break
        return dict(op="history", steps=self.steps, bad=self.bad, _note="%s grids %s" % (self.log, [g.shape for g in self.grids]))


def full_limit(rng):
    """The default limit of 30 degrees once."""
    s = Session(rng)
    g = ZdiGeometry(4, 5)
    img = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(4)])
    ok, v = call(lambda: ic.from_image(img, g))
    if not ok: return dict(op="history", steps=[], bad=[exc_name(v)], _note="default limit")
    try:
        st = [dict(op="from_image", img=[[cx(z) for z in row] for row in img], limit=30, out=s.spec_coefs(v[0]), **s.gspec(g))]
        return dict(op="history", steps=st, bad=[], _note="default limit")
    except Exception as e:
        return dict(op="history", steps=[], bad=["malformed:%s" % e], _note="default limit")


def corrupt(c):
    if not c["steps"]: return False
    s = c["steps"][-1]
    if s["op"] in ("harmonic", "to_image"): s["out"][-1][0][0] = fx(1e5)
    else: s["out"][0]["v"][0] = fx(1e5)
    return True


def run(chk):
    chk.model("ImageMC")
    rng = chk.rng
    cases = [full_limit(rng)] + [history(rng, rng.randint(3, 9)) for _ in range(3000 if THOROUGH else 250)]
    chk.extra["calls in histories"] = sum(len(c["steps"]) for c in cases)
    chk.judge("ImageTrace", cases, corrupt=corrupt, ncanary=6, label="histories of image transforms")
    cases = [history(rng, rng.randint(2, 6), True) for _ in range(400 if THOROUGH else 40)]
    chk.judge("ImageTrace", cases, corrupt=corrupt, ncanary=3, label="degrees 31 to 80 near the equator", cfg="ImageTraceHigh")
