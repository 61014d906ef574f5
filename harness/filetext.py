"""Texts of magnetogram files, as written by many hands."""
import random
from harness.vlib import call, cx, exc_name
from harness.pool import snap

JUNK = ["", "   ", "General poloidal plus toroidal field", "135 3 -3", "1 0", "1", "1 0 2.5", "1.0 0 2.5 3.5", "1 0.0 2.5 3",
        "a b c d", "# 1 0 2 3", "1 0 x 3.0", "1 0 3.0 x", "1e0 0 2 3", "l m g h nOrder CR dLon", "0  0.0  -2  3  2",
        "496  1", "30  2077  0.0", "1,0,2.0,3.0", "1 0 1.5D+02 2.0", "1 0 1.5e 2.0", "1 0 e5 2", "1 0 . 2", "1 0 + 2", "- 0 1 2",
        "1 0 --1 2", "1 0 1.2.3 4", "[1 0 2 3]", "Order:15", "1;0 2 3 4", "1 0 2e+ 3", "0x1 0 2 3"]
TINY = False            # numbers far below one (judged in units of 2^-1020)
KIND = {"blank": ["", "  ", "\t"], "short": ["1 0", "1 0 2.5", "15", "135 3 -3"],
        "float-degree": ["1.0 0 2.5 3.5", "1 0.0 2.5 3.5", "1e0 0 1 1"],
        "word": ["General poloidal plus toroidal field", "1 0 x 3.0", "1 0 3.0 y", "n m g h nOrder CR dLon", "1 0 1.2.3 4"]}


def number(rng, v=None):
    """A decimal notation (within the double range, 1e-8..1e8 or zero)."""
    if v is None:
        v = rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 1), rng.gauss(0, 300), rng.uniform(-1, 1) * 10 ** rng.uniform(-6, 7),
                        rng.uniform(-1, 1) * 10 ** rng.uniform(-99, 99) if rng.random() < .15 else -0.0])
        if TINY and rng.random() < .8: v = rng.choice([-1, 1]) * 10 ** rng.uniform(-300, -15)
    f = rng.random()
    if TINY and f < .9: s = rng.choice(["%e", "%.17e", "%.9E", "%r"]) % v
    elif f < .35: s = "%e" % v
    elif f < .5: s = "%.4f" % v
    elif f < .6: s = "%d" % int(v)
    elif f < .7: s = "%.3E" % v
    elif f < .8: s = repr(v)
    elif f < .85: s = "%.17e" % v
    elif f < .9: s = ("%.5f" % v).rstrip("0")           # 12.  or 0.5
    elif f < .95: s = ("%.5f" % (v % 1)).lstrip("0")    # .5
    else: s = "%.2fe%d" % (v if abs(v) < 100 else v / abs(v) * 3.75, rng.randint(-6, 6))
    if not s.startswith(("-", "+")) and rng.random() < .15: s = "+" + s
    return s


def integer(rng, n):
    s = "%d" % n
    if n >= 0 and rng.random() < .1: s = "+" + s
    if n >= 0 and rng.random() < .1: s = "0" + s
    if n == 0 and rng.random() < .1: s = "-0"
    return s


def trailer(rng):
    """Anything that may follow the four fields of a row."""
    s = "".join(rng.choice("##!!%;,/*$&@+-.0aE~|<>()[]{}=?^_:x1") for _ in range(rng.randint(1, 4)))
    return s + rng.choice(["", " x", " 1.0"])


def row(rng, l, m):
    w = lambda: rng.choice([" ", "  ", "\t", "   ", " \t "])
    s = integer(rng, l) + w() + integer(rng, m) + w() + number(rng) + w() + number(rng)
    if rng.random() < .3: s = w() + s
    if rng.random() < .2: s += w()
    if rng.random() < .15: s += w() + rng.choice(["extra", "7", "0.5 0.5", "# c", "1 0 2 3", trailer(rng)])
    return s


def lines_of(text):
    """The text as the specification sees it: lines of characters."""
    ls = text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    return [list(x) for x in ls]


def behaviour_text(rng, beh):
    out = []
    for x in beh:
        out.append(row(rng, x["l"], x["m"]) if x["row"] else rng.choice(KIND[x["k"]]))
    return out


def random_lines(rng):
    L = rng.choice([0, 1, 2, 3, 5, 8, 15, 30])
    pairs = [(l, m) for l in range(L + 1) for m in range(-l if rng.random() < .3 else 0, l + 1)]
    out = []
    ngroups = rng.choice([1, 1, 2, 3, 3, 4, 6])
    if rng.random() < .08:                             # high degrees
        top = rng.choice([100, 999, 1500, 40])
        pairs = [(l, m) for l in rng.sample(range(top + 2), 5) for m in {0, l, l // 2, -l, l // 3}]
    for g in range(ngroups):
        k = rng.random()
        ps = list(pairs)
        if k < .4: pass
        elif k < .7: rng.shuffle(ps)
        else: ps = rng.sample(pairs, rng.randint(0, len(pairs)))
        if len(ps) > 60: ps = ps[:rng.randint(20, 60)] if rng.random() < .8 else ps[:140]
        for p in ps:
            if rng.random() < .08: out.append(rng.choice(JUNK))
            out.append(row(rng, *p))
        if rng.random() < .5: out.append(rng.choice(JUNK))
        if rng.random() < .1 and ps: out.append(row(rng, *rng.choice(ps)))
    if rng.random() < .1:
        l = rng.randint(0, 5)
        out.insert(rng.randint(0, len(out)), row(rng, l, rng.choice([l + 1, -l - 1, l + 4])))
    if rng.random() < .03:
        out.insert(rng.randint(0, len(out)), row(rng, -1, rng.choice([0, 1])))
    if rng.random() < .3: out = [rng.choice(JUNK) for _ in range(rng.randint(1, 5))] + out
    return out


def read_case(read, path, note):
    """Read a file with the code under test."""
    ok, v = call(read, path)
    c = dict(ok=ok, err="" if ok else type(v).__name__, bad=[], _note=note)
    c["res"] = dict(d=[], k=[], v=[], lmax=0, mmin=0, size=0)
    if ok:
        try:
            c["res"] = snap(v)
        except Exception as e:
            c["bad"] = ["malformed:" + type(e).__name__]
    return c
