"""Recorder for histories over real coefficient sets (events for spec/ContainerTrace.tla)."""
import math
from fractions import Fraction
import numpy as np
from harness.vlib import call, cx, fx, exc_name, limbs
from starwinds_magnetogram import coefficients as shc


UNIT = 0            # values are recorded in units of 2^-UNIT (histories of very small or large values)


def vec(a):
    a = np.atleast_1d(np.asarray(a))
    if a.ndim != 1:
        raise ValueError("value is not a vector: shape %s" % (a.shape,))
    if not UNIT: return [cx(z) for z in a]
    return [[in_units(complex(z).real), in_units(complex(z).imag)] for z in a]


def in_units(x):
    return fx(Fraction(x) * Fraction(2) ** UNIT) if math.isfinite(x) else fx(x)


def snap(s):
    ks, vs = [], []
    for (l, m), v in s.contents():
        ks.append([int(l), int(m)])
        vs.append(vec(v))
    return dict(d=vec(s.default_coefficients), k=ks, v=vs, lmax=int(s.degree_max), mmin=int(s.order_min),
                size=int(s.size))


class Malformed(Exception):
    pass


class Pool:
    def __init__(self, note=""):
        self.h, self.snaps, self.ev, self.args = [], [], [], []
        self.note = note
        self.dead = False
        self.log = []

    def case(self):
        return dict(ev=self.ev, _note=self.note or "; ".join(self.log)[:400])

    def _emit(self, op, ok, new=(), bad=(), **f):
        """Record an event with everything that changed in the live sets."""
        chg, news, bad = [], [], list(bad)
        try:
            for i, s in enumerate(self.h):
                t = snap(s)
                if t != self.snaps[i]:
                    chg.append(dict(h=i + 1, s=t))
                    self.snaps[i] = t
            for s in new:
                t = snap(s)
                news.append(t)
                self.h.append(s)
                self.snaps.append(t)
        except Exception as e:
            bad.append("malformed:" + type(e).__name__)
        if bad:
            self.dead = True
        e = dict(op=op, ok=bool(ok), new=news, chg=chg, bad=bad)
        e.update(f)
        self.ev.append(e)
        self.log.append(op + (str([f[k] for k in ("h", "g", "l", "m", "L", "n") if k in f])) + ("" if ok else "!"))

    def _do(self, op, fn, results=1, **f):
        """An operation yielding new sets."""
        ok, v = call(fn)
        if not ok:
            self._emit(op, False, bad=[] if op == "from_arrays" else [exc_name(v)], **f)
            return
        new = v if isinstance(v, (list, tuple)) else [v]
        self._emit(op, True, new=new, **f)

    def S(self, h):
        return self.h[h - 1]

    # ---- operations; every handle is 1-based
    def new(self, default, raw=None):
        d = np.array(default) if raw is None else raw
        self.args.append(d)
        self._do("new", lambda: shc.Coefficients(d), v=vec(d))

    def new_plain(self):
        self._do("new", lambda: shc.Coefficients(), v=[cx(0)])

    def store(self, h, l, m, v, app, raw=None):
        raw = np.array(v, dtype=complex) if raw is None else raw
        if isinstance(raw, np.ndarray) and raw.ndim:
            self.args.append(raw)
        fn = self.S(h).append if app else self.S(h).set
        ok, e = call(lambda: fn(l, m, raw))
        self._emit("append" if app else "set", ok, h=h, l=int(l), m=int(m), v=vec(v))

    def _obs(self, op, fn, conv, **f):
        ok, v = call(fn)
        bad = [] if ok else [exc_name(v)]
        ret = {}
        if ok:
            try:
                ret = conv(v)
            except Exception as e:
                bad = ["malformed:" + type(e).__name__]
        self._emit(op, ok, bad=bad, **f, **ret)
        return v if ok else None

    def get(self, h, l, m):
        return self._obs("get", lambda: self.S(h).get(l, m), lambda v: dict(ret=vec(v)), h=h, l=l, m=m)

    def has(self, h, l, m):
        self._obs("has", lambda: self.S(h).has(l, m), lambda v: dict(ret=bool(v)), h=h, l=l, m=m)

    def default(self, h):
        return self._obs("default", lambda: self.S(h).default_coefficients, lambda v: dict(ret=vec(v)), h=h)

    def arrays(self, h, unset=None, lmin=None, lmax=None, mmin=None, mmax=None):
        s = self.S(h)
        kw = {}
        if unset is not None: kw["include_unset"] = unset
        if lmin is not None: kw["degree_l_min"] = lmin
        if lmax is not None: kw["degree_l_max"] = lmax
        if mmin is not None: kw["order_m_min"] = mmin
        if mmax is not None: kw["order_m_max"] = mmax
        el = 0 if lmin is None else lmin
        eh = int(s.degree_max) if lmax is None else lmax
        em = -eh if mmin is None else mmin
        ex = eh if mmax is None else mmax
        # a non-empty requested range only
        if not any(abs(m) <= l for l in range(max(el, 0), eh + 1) for m in range(max(em, -l), min(ex, l) + 1)):
            return None
        width = len(self.snaps[h - 1]["d"])

        def conv(v):
            d, o, c = v
            d, o, c = np.asarray(d), np.asarray(o), np.asarray(c)
            n = len(d)
            if d.shape != (n,) or o.shape != (n,) or len(c) != n or (n and c.shape != (n, width)):
                raise ValueError("shapes")
            if n and not (np.issubdtype(d.dtype, np.integer) and np.issubdtype(o.dtype, np.integer)):
                raise TypeError("index types")
            return dict(k=[[int(a), int(b)] for a, b in zip(d, o)], vs=[vec(x) for x in c])
        return self._obs("arrays", lambda: s.as_arrays(**kw), conv, h=h, unset=True if unset is None else unset,
                         lmin=el, lmax=eh, mmin=em, mmax=ex)

    def isclose(self, h, g, rtol=1e-5, atol=1e-8, default=False):
        kw = {} if default else dict(rtol=rtol, atol=atol)

        def conv(v):
            ks, vs = [], []
            for (l, m), b in v.contents():
                ks.append([int(l), int(m)])
                vs.append([bool(x) for x in np.atleast_1d(b)])
            return dict(k=ks, vs=vs)
        self._obs("isclose", lambda: shc.isclose(self.S(h), self.S(g), **kw), conv, h=h, g=g,
                  rtol=fx(rtol), atol=fx(atol))

    def allclose(self, h, g, rtol=1e-5, atol=1e-8):
        self._obs("allclose", lambda: shc.allclose(self.S(h), self.S(g), rtol=rtol, atol=atol),
                  lambda v: dict(ret=bool(v)), h=h, g=g, rtol=fx(rtol), atol=fx(atol))

    def copy(self, h, method=True):
        self._do("copy", (lambda: self.S(h).copy()) if method else (lambda: shc.copy(self.S(h))), h=h)

    def empty_like(self, h):
        self._do("empty_like", lambda: shc.empty_like(self.S(h)), h=h)

    def zeros_like(self, h):
        self._do("zeros_like", lambda: shc.zeros_like(self.S(h)), h=h)

    def trunc(self, h, L, method=True):
        self._do("trunc", (lambda: self.S(h).truncated(L)) if method else (lambda: shc.truncated(self.S(h), L)), h=h, L=L)

    def scale(self, h, fn, power=None, method=True):
        table = [[[l, m], cx(fn(l, m))] for (l, m) in sorted(self.S(h).coefficients)] \
            if False else [[k, cx(fn(*k))] for k in self.snaps[h - 1]["k"]]
        kw = {} if power is None else dict(power=power)
        p = 1 if power is None else power
        if p < 0:       # the machine scales by non-negative powers: give it the inverse
            table = [[k, cx(complex(fn(*k)) ** -1)] for k in self.snaps[h - 1]["k"]]
            p = -p
        self._do("scale", (lambda: self.S(h).scale(fn, **kw)) if method else (lambda: shc.scale(self.S(h), fn, **kw)),
                 h=h, f=table, power=p)

    def binop(self, op, h, g, method=True):
        a, b = self.S(h), self.S(g)
        fn = {"add": lambda: a + b if method else shc.add(a, b), "sub": lambda: a - b,
              "mul": lambda: a * b if method else shc.multiply(a, b)}[op]
        self._do(op, fn, h=h, g=g)

    def times(self, h, z, side="right"):
        s = self.S(h)
        fn = {"right": lambda: s * z, "left": lambda: z * s, "fn": lambda: shc.multiply(s, z),
              "div": lambda: s / z}[side]
        zz = complex(z)
        if side == "div":
            zz = 1 / zz
        self._do("times", fn, h=h, z=cx(zz))

    def pow(self, h, n):
        self._do("pow", lambda: self.S(h) ** n, h=h, n=n)

    def hsplit(self, h, cuts=None, method=True, sections=None):
        s = self.S(h)
        arg = sections if sections is not None else (None if cuts is None else list(cuts))
        w = len(self.snaps[h - 1]["d"])
        if sections is not None:
            c = [i * (w // sections) for i in range(sections + 1)]
        else:
            c = [] if cuts is None else [0] + list(cuts) + [w]
        if arg is None:
            fn = (lambda: s.hsplit()) if method else (lambda: shc.hsplit(s))
        else:
            fn = (lambda: s.hsplit(arg)) if method else (lambda: shc.hsplit(s, arg))
        self._do("hsplit", fn, h=h, cuts=c)

    def hstack(self, hs, as_list=False):
        sets = [self.S(h) for h in hs]
        self._do("hstack", lambda: shc.hstack(sets if as_list else tuple(sets)), hs=list(hs))

    def from_arrays(self, ks, vals, w, flat=False, scalar=False, dtype=complex):
        """vals: list of vectors."""
        d = np.array([k[0] for k in ks])
        o = np.array([k[1] for k in ks])
        c = np.array(vals, dtype=dtype)
        if flat:
            c = c[:, 0]
        self.args += [c]
        if scalar:
            a = (int(d[0]), int(o[0]), dtype(c.ravel()[0]))
        else:
            a = (d, o, c)
        self._do("from_arrays", lambda: shc.from_arrays(*a), k=[list(map(int, k)) for k in ks],
                 vs=[vec(v) for v in vals], w=w)

    def derive(self, name, fn):
        ok, v = call(fn)
        if not ok:
            self._emit("derive", False, bad=[exc_name(v) + " in " + name])
            return
        self._emit("derive", True, new=v if isinstance(v, (list, tuple)) else [v], name=name)

    # ---- writing into arrays that crossed the interface
    def poke(self, array, value=77.5 - 3j):
        a = np.asarray(array)
        if a.dtype.kind in "iu":
            value = 77
        elif a.dtype.kind == "f":
            value = 77.5
        try:
            a[...] = value
        except (ValueError, TypeError):     # read-only results are as good as copies
            pass
        self._emit("poke", True)

    def poke_stored(self, h, l, m, value):
        ok, a = call(lambda: self.S(h).get(l, m))
        if ok:
            try:
                a[...] = value
            except (ValueError, TypeError):
                pass
            self._emit("pokestored", True, h=h, l=l, m=m,
                       v=vec(np.full(len(self.snaps[h - 1]["d"]), value, dtype=complex)))
