"""C30: chains of conversions, by command, by function or step by step."""
import os
from harness import filetext as ft
from harness.c07 import run_cli, input_lines
from harness.vlib import THOROUGH, call, scratch
from starwinds_magnetogram import coefficients as shc, converter, reader_writer as rw
from starwinds_magnetogram.bin import convert_magnetogram as cm


def source_lines(rng, groups):
    while True:
        ls = input_lines(rng, groups)
        rows = [x.split() for x in ls if len(x.split()) >= 4]
        try:
            rows = [(int(r[0]), int(r[1])) for r in rows]
        except ValueError:
            continue
        if rows and all(abs(m) <= l for l, m in rows): return ls


def by_function(rng, r, d):
    i, o, L = os.path.join(d, r["in"]), os.path.join(d, r["out"]), None if r["lim"] < 0 else r["lim"]
    kw = {} if rng.random() < .5 else dict(write_swmf_header=rng.random() < .5)
    if r["mode"] == "forward": return call(lambda: cm.convert_zdi_to_pfss(i, o, degree_max=L, **kw))
    if r["mode"] == "reverse": return call(lambda: cm.convert_pfss_to_zdi(i, o, degree_max=L))
    return call(lambda: cm.no_conversion(i, o, degree_max=L, **kw))


def by_steps(rng, r, d, held):
    """Read, convert and write with the library; a set read earlier may be used again."""
    i, o, L = os.path.join(d, r["in"]), os.path.join(d, r["out"]), None if r["lim"] < 0 else r["lim"]

    def go():
        s = held.get(r["in"]) if rng.random() < .5 else None
        if s is None: s = rw.read_magnetogram_file(i)
        if r["mode"] == "forward":
            t = converter.convert_zdi_to_pfss(shc.hsplit(s)[0])
        elif r["mode"] == "reverse":
            t = converter.convert_pfss_to_zdi(s)
        else:
            t = s
        rw.write_magnetogram_file(t, o, degree_max=L, write_swmf_header=rng.random() < .4)
        held.pop(r["out"], None)
        held[r["in"]] = s
    return call(go)


FILES = ["z", "p", "a", "b", "c", "x_wso.dat", "x_zdi.dat", "y_zdi.dat", "y_wso.dat", "z_zdi", "zdi.txt", "m.dat", "out.txt", "pfss.dat",
         "magnetogram_zdi_pfss.dat", "field_pfss.dat", "cr2100.dat", "a b", "tau.boo_zdi.txt", "b_zdi_wso.dat", "WSO"]


def history(rng, d, runs):
    """What the files are called means nothing: each of the five names stands for some file."""
    w = os.path.join(d, "w")
    os.mkdir(w)
    real = dict(zip("zpabc", rng.sample(FILES, 5) if rng.random() < .7 else "zpabc"))
    back, abstract = {v: k for k, v in real.items()}, runs
    runs = [dict(r, out=real[r["out"]], **{"in": real[r["in"]]}) for r in runs]
    src = {}
    for n, g in (("z", rng.choice([3, 3, 2, 4])), ("p", 1)):
        lines = source_lines(rng, g)
        with open(os.path.join(w, real[n]), "w") as f: f.write("\n".join(lines) + "\n")
        src[n] = [list(x) for x in lines]
    done, held, width = [], {}, {real["z"]: 2, real["p"]: 1}
    for r in runs:
        how = rng.choice(["command", "command", "function", "steps"])
        # the library does not check what it is given: legal steps only
        if how == "steps" and (r["in"] not in width or r["in"] == r["out"] or (r["mode"] != "forward" and width[r["in"]] != 1)):
            how = "command"
        if how == "command":
            a = [r["in"], r["out"]] + {"forward": [], "reverse": ["--pfss-to-zdi"], "none": ["--no-conversion"]}[r["mode"]]
            if r["lim"] >= 0: a.append("--degree-max=%d" % r["lim"])
            if rng.random() < .4: a.append("--no-header")
            if rng.random() < .2: a.append(rng.choice(["-q", "-v", "--quiet", "--verbose"]))
            ok, e = run_cli(a, w)
            held.clear()
        elif how == "function":
            ok, e = by_function(rng, r, w)
            held.clear()
        else:
            ok, e = by_steps(rng, r, w, held)
        if ok: width[r["out"]] = 3 if r["mode"] == "reverse" else 1
        done.append(dict(r, ok=ok))
        done[-1]["_how"] = how + ("" if ok else " " + type(e).__name__)
    files = {}
    for n in sorted(os.listdir(w)):
        with open(os.path.join(w, n)) as f: files[back.get(n, n)] = ft.lines_of(f.read())
        os.unlink(os.path.join(w, n))
    os.rmdir(w)
    return dict(sources=src, runs=[dict(a, ok=r["ok"]) for a, r in zip(abstract, done)], files=files, bad=[],
                _note="; ".join("%s %s->%s lim %d (%s)" % (r["mode"], r["in"], r["out"], r["lim"], r["_how"]) for r in done))


def random_runs(rng):
    names = ["a", "b", "c"]
    out, have, width = [], ["z", "p"], {"z": 3, "p": 1}
    for _ in range(rng.randint(3, 9)):
        i = rng.choice(have)
        modes = ["forward", "none", "reverse"] if width[i] == 1 or rng.random() < .1 else ["forward"]
        r = dict(mode=rng.choice(modes), out=rng.choice(names), lim=rng.choice([-1, -1, -1, 0, 1, 3, 8, 20]), **{"in": i})
        if r["out"] != i and (width[i] == 1 or r["mode"] == "forward"):
            if r["out"] not in have: have.append(r["out"])
            width[r["out"]] = 3 if r["mode"] == "reverse" else 1
        out.append(r)
    return out


def corrupt(c):
    """A digit of the last row of a derived file."""
    for n, t in c["files"].items():
        if n in ("a", "b", "c"):
            for ln in reversed(t):
                if "e+0" not in "".join(ln) and "e-0" not in "".join(ln): continue      # rows, not the heading
                for i, ch in enumerate(ln):
                    if ch in "12345678" and 11 < i < 16:
                        ln[i] = "9"
                        return True
    return False


def run(chk):
    chk.model("WorkspaceMC")
    beh = chk.generate("WorkspaceMC", "WorkspaceGen")
    if not THOROUGH:
        chk.rng.shuffle(beh)
        beh = beh[:250]
    for label, bs in (("pairs of runs enumerated by TLC", beh),
                      ("random histories of 3 to 9 runs", [random_runs(chk.rng) for _ in range(3000 if THOROUGH else 250)])):
        with scratch() as d:
            cases = [history(chk.rng, d, b) for b in bs]
        chk.extra["runs carried out, " + label] = sum(r["ok"] for c in cases for r in c["runs"])
        chk.judge("WorkspaceTrace", cases, corrupt=corrupt, label=label)
