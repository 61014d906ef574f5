"""C07: what the converter command writes."""
import os
import sys
import numpy as np
from harness import filetext as ft
from harness.vlib import THOROUGH, call, scratch, cx, exc_name
from starwinds_magnetogram.bin import convert_magnetogram as cm


def run_cli(argv, cwd):
    """The command in this process: -> (ok, exception)."""
    def go():
        old, oldcwd = sys.argv, os.getcwd()
        sys.argv = ["sw-convert-magnetogram"] + list(argv)
        os.chdir(cwd)
        try:
            cm.main()
        finally:
            sys.argv = old
            os.chdir(oldcwd)
    ok, e = call(go)
    if not ok and isinstance(e, SystemExit) and not e.code:
        return True, None
    return ok, e


def input_lines(rng, groups):
    L = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 15, 30])
    out = []
    if rng.random() < .6: out += ["General poloidal plus toroidal field", "%d 3 -3" % (L * 3)]
    base = [(l, m) for l in range(L + 1) for m in range(0, l + 1)]
    if rng.random() < .6: base = [p for p in base if p[0] > 0] or base
    if rng.random() < .15: base += [(l, -m) for l, m in base if m]
    if len(base) > 40: base = rng.sample(base, 40)
    # groups are told apart by repeated pairs: keep one pair common to all
    for g in range(groups):
        ps = list(base)
        if rng.random() < .4: rng.shuffle(ps)
        if rng.random() < .3: ps = [ps[0]] + rng.sample(ps[1:], rng.randint(0, len(ps) - 1))
        if g:
            ps = [base[0]] + [p for p in ps if p != base[0]]
        elif base[0] not in ps:
            ps.append(base[0])
        out += [ft.row(rng, *p) for p in ps]
        if rng.random() < .5: out.append("")
    if rng.random() < .04: out = [x for x in out if len(x.split()) < 4]
    if rng.random() < .04: out.append(ft.row(rng, 1, 2))
    return out


def case(rng, d, i):
    mode = rng.choice(["forward", "forward", "reverse", "none"])
    groups = rng.choice([1, 1, 1, 3]) if mode != "forward" else rng.choice([1, 3, 3, 2, 4])
    lines = input_lines(rng, groups)
    text = "\n".join(lines) + "\n"
    inp = rng.choice(["mag.dat", "a.b.txt", "noext", "x-1.zdi"])
    wd = os.path.join(d, "c%d" % i)
    os.mkdir(wd)
    with open(os.path.join(wd, inp), "w") as f:
        f.write(text)
    L = -1 if rng.random() < .5 else rng.choice([0, 1, 2, 5, 12, 35 if rng.random() < .2 else 7])
    header = rng.random() < .6
    argv = []
    if mode == "reverse": argv.append("--pfss-to-zdi")
    if mode == "none": argv.append("--no-conversion")
    if mode == "none" and rng.random() < .2: argv.append("--pfss-to-zdi")   # conversion disabled wins
    if L >= 0: argv += ["--degree-max", str(L)]
    if not header: argv.append("--no-header")
    default = rng.random() < .3
    out = os.path.splitext(inp)[0] + ("_zdi" if mode == "reverse" else "_wso") + os.path.splitext(inp)[1] if default \
        else rng.choice(["out.dat", "sub/../o.txt", os.path.join(wd, "abs.dat"), inp + "2"])
    os.mkdir(os.path.join(wd, "sub"))
    files = [inp] + ([] if default else [out])
    rng.shuffle(argv) if L < 0 else None
    argv = files + argv if rng.random() < .5 else argv + files
    ok, e = run_cli(argv, wd)
    c = dict(op="cli", mode=mode, input=ft.lines_of(text), L=L, header=header, ok=ok, err="" if ok else type(e).__name__,
             text=[], bad=[], _note="%s with input %r" % (argv, text[:160]))
    if ok:
        try:
            with open(os.path.join(wd, out)) as f:
                c["text"] = ft.lines_of(f.read())
        except OSError as x:
            c["bad"] = ["no-output:" + type(x).__name__]
    return c


def corrupt(c):
    """Swap two digits in a written number."""
    if not c["ok"]:
        return False
    for ln in reversed(c["text"]):
        for i, ch in enumerate(ln):
            if ch in "12345678" and i > 11 and i < 16:
                ln[i] = "9"
                return True
    return False


def run(chk):
    chk.model("MagFileMC")
    with scratch() as d:
        cases = [case(chk.rng, d, i) for i in range(2500 if THOROUGH else 420)]
    chk.judge("MagFileTrace", cases, corrupt=corrupt, label="runs of the converter command")
    ft.TINY = True
    try:
        with scratch() as d: cases = [case(chk.rng, d, i) for i in range(300 if THOROUGH else 50)]
    finally: ft.TINY = False
    chk.judge("MagFileTrace", cases, cfg="MagFileTraceTiny", corrupt=corrupt, ncanary=3, label="conversions of very small numbers")
