import importlib, sys, traceback
from harness import vlib


def main():
    pid = sys.argv[1]
    chk = vlib.Check(pid)
    try:
        mod = importlib.import_module("harness.%s" % pid.lower())
        mod.run(chk)
    except vlib.MachineryError as e:
        if not chk.fails:
            print("MACHINERY ERROR:", e)
            return 3
        print("(after a violation) machinery error:", str(e)[:500])
    except Exception as e:
        traceback.print_exc()
        # raised inside the code under test, on an input for which the harness expects none
        if "/starwinds_magnetogram/" in traceback.format_exc() and "File" in traceback.format_exc():
            chk.direct(vlib.exc_name(e), traceback.format_exc()[-600:])
        if not chk.fails:
            return 3
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
