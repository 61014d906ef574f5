"""Looking at matplotlib figures: what the commands save or show, and what is drawn on them."""
import contextlib
import itertools
import os
import sys
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from matplotlib.collections import LineCollection
from harness.vlib import call, fx


COUNT = itertools.count()


class Capture:
    """Figures at the moment they are saved or shown: (look(fig), target)."""
    def __init__(self, look, real=True):
        self.look, self.real, self.saved, self.shown, self.errors = look, real, [], [], []

    def _see(self, fig):
        try:
            return self.look(fig)
        except Exception as e:
            self.errors.append("malformed figure:%s %s" % (type(e).__name__, e))
            return None

    @contextlib.contextmanager
    def active(self):
        save, show = Figure.savefig, plt.show
        def _save(fig, fname, *a, **k):
            self.saved.append((self._see(fig), str(fname)))
            if self.real: return save(fig, fname, *a, **k)
            with open(fname, "wb") as f: f.write(b"image %d" % next(COUNT))       # no two alike
        def _show(*a, **k):
            for n in plt.get_fignums():
                self.shown.append(self._see(plt.figure(n)))
        Figure.savefig, plt.show = _save, _show
        plt.close("all")
        try:
            yield self
        finally:
            Figure.savefig, plt.show = save, show
            plt.close("all")


def command(main, argv, prog="prog", limit=120):
    old = sys.argv
    sys.argv = [prog] + [str(a) for a in argv]
    try:
        return call(main, limit=limit)
    finally:
        sys.argv = old


def files(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f: out[os.path.relpath(p, d)] = f.read()
    return out


def errorbars(ax):
    """points with error bars of one panel: rows x, y, lower, upper; -> list, label"""
    pts = []
    for k in ax.containers:
        line, _, bars = k.lines
        xy = line.get_xydata()
        segs = bars[0].get_segments()
        if len(segs) != len(xy): raise ValueError("%d bars for %d points" % (len(segs), len(xy)))
        for (x, y), s in zip(xy, segs):
            if s[0][0] != x or s[1][0] != x: raise ValueError("bar away from its point")
            pts.append([fx(x), fx(y), fx(min(s[0][1], s[1][1])), fx(max(s[0][1], s[1][1]))])
    return pts
