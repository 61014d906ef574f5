"""C34: arguments common to all commands."""
import contextlib
import io
import logging
import os
import sys
import starwinds_magnetogram
from harness import plotting as pt
from harness.vlib import THOROUGH, call, exc_name, scratch
from starwinds_magnetogram.bin import convert_magnetogram, plot_lsd, plot_magnetogram

NAME = "starwinds_magnetogram"
COMMANDS = dict(convert=(convert_magnetogram.main, "sw-convert-magnetogram", ["--degree-max=x", "--degree-max=1.5"]),
                lsd=(plot_lsd.main, "sw-plot-lsd", ["--skip-rows=x", "-s2.5"]),
                magnetogram=(plot_magnetogram.main, "sw-plot-magnetogram", None))
FORMS = dict(quiet=["-q", "--quiet"], verbose=["-v", "--verbose"], debug=["--debug"], version=["--version"], help=["-h", "--help"],
             unknown=["--frobnicate", "-Z", "--no-such-option"])


class Records(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.got = []

    def emit(self, r):
        self.got.append(r.levelno)


def inputs(rng, d, which):
    p = os.path.join(d, "input.dat")
    with open(p, "w") as f:
        if which == "lsd":
            f.write("title\n 4 6\n")
            for k in range(4): f.write(" ".join("%.4f" % rng.uniform(.1, 9) for _ in range(7)) + "\n")
        else:
            f.write("General poloidal plus toroidal field\n9 3 -3\n")
            for g in range(3 if which == "magnetogram" else rng.choice([3, 2])):
                for l in range(1, 4):
                    for m in range(l + 1): f.write("%d %d %.5f %.5f\n" % (l, m, rng.gauss(0, 9), rng.gauss(0, 9)))
                f.write("\n")


def go(which, argv, d):
    """-> (exit code or None, exception, text on both channels)."""
    main, prog, _ = COMMANDS[which]
    buf = io.StringIO()
    old, cwd = sys.argv, os.getcwd()
    cap = pt.Capture(lambda fig: None)

    def run():
        sys.argv = [prog] + argv
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), cap.active():
                main()
        finally:
            sys.argv = old
            os.chdir(cwd)
    ok, e = call(run)
    if ok: return 0, None, buf.getvalue()
    if isinstance(e, SystemExit):
        return (0 if e.code is None else e.code if isinstance(e.code, int) else 1), None, buf.getvalue()
    return None, e, buf.getvalue()


def case(rng, words, which):
    main, prog, bads = COMMANDS[which]
    if bads is None: words = ["unknown" if w == "bad" else w for w in words]
    lg = logging.getLogger(NAME)
    with scratch("args-") as d:
        inputs(rng, d, which)
        outs = ["input.dat", "made.dat" if which == "convert" else "made.png", "third"]
        argv, plain, n = [], [], 0
        for w in words:
            if w == "file":
                a = outs[min(n, 2)]
                n += 1
                plain.append(a)
            else:
                a = rng.choice(bads if w == "bad" else FORMS[w])
            argv.append(a)
        if which == "magnetogram":
            argv[:0] = ["-p", "energy-by-degree"]
            plain[:0] = ["-p", "energy-by-degree"]
        c = dict(op="args", words=words, code=-1, told=[], level=-1, stops=0, wrote=[], asked=[], same=True, below=0, bad=[],
                 _note="%s %s" % (prog, argv))
        before = pt.files(d)
        rec, stops, hook, lev = Records(), [], sys.breakpointhook, lg.level
        sys.breakpointhook = lambda *a, **k: stops.append(1)
        lg.addHandler(rec)
        lg.setLevel(37)
        try:
            code, e, text = go(which, argv, d)
            c["level"] = lg.level
        finally:
            lg.removeHandler(rec)
            lg.setLevel(lev)
            sys.breakpointhook = hook
        c["stops"] = len(stops)
        if e is not None:
            c["bad"].append(exc_name(e))
            return c
        c["code"] = code
        after = pt.files(d)
        c["wrote"] = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
        if any(k not in after for k in before): c["bad"].append("input removed")
        if starwinds_magnetogram.__version__ in text: c["told"].append("version")
        if "usage:" in text.lower(): c["told"].append("usage")
        if "usage:" in text.lower() and all(o in text for o in ("--quiet", "--verbose", "--version", "input_file")): c["told"].append("help")
        c["below"] = sum(1 for x in rec.got if x < c["level"])
        if code == 0 and not {"version", "help"} & set(words):
            for k in set(after) - set(before): os.unlink(os.path.join(d, k))
            code2, e2, _ = go(which, plain, d)
            lg.setLevel(lev)
            ref = pt.files(d)
            if e2 is not None or code2 != 0: c["bad"].append("plain run fails")
            c["asked"] = sorted(k for k in ref if k not in before)
            c["same"] = which != "convert" or all(after.get(k) == ref[k] for k in c["asked"])
        return c


def corrupt(c):
    c["wrote"] = c["wrote"] + ["elsewhere"]
    return True


def run(chk):
    chk.model("ArgsMC")
    rng = chk.rng
    beh = chk.generate("ArgsMC", "ArgsGen")
    runs = [b for b in beh if set(b) <= {"quiet", "verbose", "debug", "file"} and 1 <= b.count("file") <= 2]
    rest = [b for b in beh if b not in runs]
    cases = []
    for which, n, r in (("convert", 300, None), ("lsd", 150, 25), ("magnetogram", 80, 25)):
        k = len(rest) if THOROUGH else n
        cases += [case(rng, b, which) for b in (rng.sample(rest, min(k, len(rest))))]
        cases += [case(rng, b, which) for b in (runs if THOROUGH or r is None else rng.sample(runs, r))]
    chk.extra["command lines that run"] = sum(c["asked"] != [] for c in cases)
    chk.judge("ArgsTrace", cases, corrupt=corrupt, label="command lines enumerated by TLC")
