"""C08: the converter command and the file system (everything happens in a scratch tree)."""
import os
from harness.c07 import run_cli
from harness.vlib import THOROUGH, scratch

ZDI = "General poloidal plus toroidal field\n3 3 -3\n" + "\n".join(["1 0 1.0 0.0\n1 1 2.0 -1.0\n"] * 3) + "\n"
WSO = "0 0 0.0 0.0\n1 0 5.0 0.0\n1 1 2.0 -1.0\n"
BAD = "1 0 1.0 0.0\n1 2 3.0 4.0\n"
JUNK = "not a magnetogram\n"
# spellings of the entries of the tree, from the working directory
ALIASES = ["{}", "./{}", "sub/../{}", "{abs}/{}", "../link/{}", "../work/{}", "..//work/./{}"]


def build(root):
    w = os.path.join(root, "work")
    os.makedirs(os.path.join(w, "sub"))
    os.makedirs(os.path.join(root, "far"))
    os.symlink("work", os.path.join(root, "link"))
    for n, t in (("m.dat", ZDI), ("w.dat", WSO), ("bad.dat", BAD), ("junk.txt", JUNK)):
        with open(os.path.join(w, n), "w") as f:
            f.write(t)
    with open(os.path.join(root, "far", "f.dat"), "w") as f:
        f.write(WSO.replace("5.0", "6.0"))
    os.link(os.path.join(w, "m.dat"), os.path.join(w, "hard.dat"))
    os.symlink("m.dat", os.path.join(w, "sym.dat"))
    os.symlink("later.dat", os.path.join(w, "dang.dat"))
    os.symlink("../far/f.dat", os.path.join(w, "fl.dat"))
    return w


def tree(root, ids):
    """Everything under the root; paths relative to root/work."""
    out = []
    w = os.path.join(root, "work")
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            q = os.path.relpath(p, w)
            e = dict(path=q, kind="file", ino=0, data=0, to="")
            if os.path.islink(p):
                e["kind"] = "link"
                e["to"] = os.path.relpath(os.path.join(os.path.realpath(base), os.readlink(p)), os.path.realpath(w))
            elif os.path.isdir(p):
                e["kind"] = "dir"
            else:
                e["ino"] = ids.setdefault(("ino", os.stat(p).st_ino), len(ids) + 1)
                with open(p, "rb") as f:
                    e["data"] = ids.setdefault(("data", f.read()), len(ids) + 1)
            out.append(e)
    out.sort(key=lambda e: e["path"])
    return out


def spell(rng, name, w):
    a = rng.choice(ALIASES) if rng.random() < .6 else "{}"
    return a.format(name, abs=w)


def default_out(inp, mode):
    b, e = os.path.splitext(os.path.basename(inp))
    return b + ("_zdi" if mode == "reverse" else "_wso") + e


def decorate(rng, w):
    """Things that may already be where a default output would go."""
    for n in ("m_wso.dat", "w_zdi.dat", "w_wso.dat", "f_wso.dat", "sym_wso.dat"):
        p, u = os.path.join(w, n), rng.random()
        if u < .12: os.symlink("nowhere.dat", p)
        elif u < .2: os.symlink("m.dat", p)
        elif u < .28: os.link(os.path.join(w, "w.dat"), p)
        elif u < .34: os.mkdir(p)
        elif u < .42:
            with open(p, "w") as f: f.write("precious\n")


def steps(rng, root, runs, cases, extra=False):
    w = build(root)
    if extra: decorate(rng, w)
    ids = {}
    hist = []
    for r in runs:
        pre = tree(root, ids)
        inp = spell(rng, r["in"], w)
        argv = [inp] + ([] if r["dflt"] else [spell(rng, r["out"], w)])
        if r["mode"] == "reverse": argv.append("--pfss-to-zdi")
        if r["mode"] == "none": argv.append("--no-conversion")
        u = rng.random()
        if u < .12: argv.append("--degree-max=%d" % rng.choice([-1, 0, 3]))
        if u > .85: argv.append("--no-header")
        ok, e = run_cli(argv, w)
        hist.append(" ".join(a.replace(w, "$W") for a in argv) + ("" if ok else " -> %s" % type(e).__name__))
        out = default_out(r["in"], r["mode"]) if r["dflt"] else os.path.normpath(r["out"])
        cases.append(dict(pre=pre, post=tree(root, ids), ok=ok, bad=[],
                          run=dict(mode=r["mode"], out=out, dflt=r["dflt"], **{"in": os.path.normpath(r["in"])}),
                          _note="; ".join(hist)))


def random_runs(rng):
    ins = ["m.dat", "hard.dat", "w.dat", "sym.dat", "../far/f.dat", "m_wso.dat", "w_zdi.dat", "new.dat", "bad.dat", "junk.txt",
           "sub/x.dat", "dang.dat", "fl.dat", "fl.dat"]
    outs = ["", "", "", "m.dat", "hard.dat", "sym.dat", "w.dat", "new.dat", "m_wso.dat", "w_zdi.dat", "../far/f.dat",
            "../far/g.dat", "sub/x.dat", "f_wso.dat", "dang.dat", "later.dat", "fl.dat", "sub", "nodir/x.dat"]
    res = []
    for _ in range(rng.randint(2, 7)):
        o = rng.choice(outs)
        res.append(dict(mode=rng.choice(["forward", "reverse", "none"]), out=o, dflt=o == "", **{"in": rng.choice(ins)}))
    return res


def corrupt(c):
    """Pretend the input was rewritten, or another file touched."""
    for e in c["post"]:
        if e["path"] == "bad.dat":
            e["data"] = 999
            return True
    return False


def run(chk):
    chk.model("CliMC")
    b1 = chk.generate("CliMC", "CliGen1")
    b2 = chk.generate("CliMC", "CliGen2")
    if not THOROUGH:
        chk.rng.shuffle(b2)
        b2 = b2[:700]
    for label, behs in (("single runs enumerated by TLC", b1), ("pairs of runs enumerated by TLC", b2),
                        ("random run histories", [random_runs(chk.rng) for _ in range(3000 if THOROUGH else 500)])):
        cases = []
        with scratch() as d:
            for i, b in enumerate(behs):
                root = os.path.join(d, "t%d" % i)
                os.mkdir(root)
                steps(chk.rng, root, b, cases, label.startswith("random"))
        chk.extra["runs ok, " + label] = sum(c["ok"] for c in cases)
        chk.judge("CliTrace", cases, corrupt=corrupt, label=label)
