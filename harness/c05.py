"""C05: reading a magnetogram file."""
import os
from harness import filetext as ft, pool
from harness.vlib import THOROUGH, scratch, cx
from starwinds_magnetogram import reader_writer as rw


def case(rng, d, i, lines):
    text = "\n".join(lines)
    if rng.random() < .8: text += "\n"
    nl = "\r\n" if rng.random() < .15 else "\n"
    path = os.path.join(d, "f%d.dat" % i)
    with open(path, "w", newline="") as f:
        f.write(text.replace("\n", nl))
    c = ft.read_case(rw.read_magnetogram_file, path, "read %r" % text[:300])
    c.update(op="read", text=ft.lines_of(text))
    return c


def corrupt(c):
    if not c["ok"] or not c["res"]["v"]:
        return False
    c["res"]["v"][-1][-1] = cx(777.5)
    return True


def corrupt_ok(c):
    c["ok"] = not c["ok"]
    return True


def run(chk):
    chk.model("MagFileMC")
    beh = chk.generate("MagFileMC", "MagFileGen")
    with scratch() as d:
        cases = [case(chk.rng, d, i, ft.behaviour_text(chk.rng, b)) for i, b in enumerate(beh)]
        chk.judge("MagFileTrace", cases, corrupt=corrupt, label="line sequences generated by TLC, read by the code")
        cases = [case(chk.rng, d, i, ft.random_lines(chk.rng)) for i in range(3000 if THOROUGH else 500)]
        chk.judge("MagFileTrace", cases, corrupt=corrupt_ok, label="random files")
        ft.TINY, pool.UNIT = True, 1020
        try: cases = [case(chk.rng, d, i, ft.random_lines(chk.rng)) for i in range(300 if THOROUGH else 50)]
        finally: ft.TINY, pool.UNIT = False, 0
        chk.judge("MagFileTrace", cases, cfg="MagFileTraceTiny", corrupt=corrupt_ok, ncanary=3, label="files of very small numbers")
