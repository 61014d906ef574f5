"""Shared machinery of the checks: number encoding, guarded calls, TLC runs, evidence, verdicts."""
import contextlib
import copy
import io
import json
import logging
import math
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = os.environ.get("VERIF_TLA", "/opt/veriftools/tla")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

FRAC_BITS = 90
_BIGSENT = 1 << 420


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- numbers
def limbs(n):
    """Integer -> the tuple representation of spec/BigInt.tla."""
    if n == 0:
        return [0]
    s = 1 if n > 0 else -1
    n = abs(n)
    out = [s]
    while n:
        out.append(n & 32767)
        n >>= 15
    return out


def fx(x):
    """Real number (float, int, Fraction) -> fixed-point limbs; non-finite -> a value nothing is near."""
    if isinstance(x, Fraction):
        f = x
    else:
        x = float(x)
        if x != x:
            return limbs(7 * _BIGSENT)
        if math.isinf(x):
            return limbs(_BIGSENT if x > 0 else -_BIGSENT)
        f = Fraction(x)
    n = f * (1 << FRAC_BITS)
    q = abs(n.numerator) // n.denominator
    return limbs(q if n >= 0 else -q)


def cx(z):
    z = complex(z)
    return [fx(z.real), fx(z.imag)]


def unfx(l):
    """Inverse of fx, as float (for messages)."""
    v = 0
    for d in reversed(l[1:]):
        v = (v << 15) | d
    return float(Fraction(l[0] * v, 1 << FRAC_BITS))


# ---------------------------------------------------------------- guarded calls
class CallTimeout(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise CallTimeout("no answer in %d s" % seconds)
    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *a, limit=120, **k):
    """Run fn with output captured. -> (ok, value or exception)."""
    out = io.StringIO()
    try:
        with time_limit(limit), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            v = fn(*a, **k)
        return True, v
    except CallTimeout as e:
        return False, e
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:     # SystemExit from argparse included
        return False, e


def _one(job):
    fn, seed, args = job
    import numpy
    numpy.random.seed(zlib.crc32(seed.encode()))
    return fn(random.Random(seed), *args)


def spread(rng, fn, n, args=None):
    """[fn(its own rng[, args[k]]), ...] n times, over several processes (forked), in order."""
    base = rng.random()
    jobs = [(fn, "%r/%d" % (base, k), (args[k],) if args else ()) for k in range(n)]
    with multiprocessing.get_context("fork").Pool(min(8, max(1, n))) as pool:
        return pool.map(_one, jobs, chunksize=1)


def exc_name(e):
    return "exception:" + type(e).__name__


# ---------------------------------------------------------------- TLC
class Tlc:
    _built = None

    @classmethod
    def classes(cls, workdir):
        if cls._built is None:
            d = os.path.join(workdir, "classes")
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["javac", "-cp", os.path.join(TLA, "tla2tools.jar"), "-d", d,
                                os.path.join(VERIF, "java", "BigIntOverrides.java")],
                               capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("javac: " + r.stderr)
            cls._built = d
        return cls._built


class TlcResult:
    pass


def run_tlc(workdir, module, cfg=None, env=None, workers=8, overrides=True, extra=(), timeout=800, heap="6g",
            allow=()):
    """Run TLC on spec/<module>.tla. Returns parsed result; any TLC error is a MachineryError
    unless its kind is listed in `allow`."""
    cls = Tlc.classes(workdir)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    cp = ":".join([os.path.join(TLA, "tla2tools.jar"), os.path.join(TLA, "CommunityModules-deps.jar"), cls])
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"]
    if overrides:
        cmd.append("-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.BigIntOverrides")
    cmd += ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", (cfg or module) + ".cfg"] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t0
    r.generated = r.distinct = 0
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout):
        pass
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m.groups())
    r.violated = re.findall(r"(?:Invariant|Action property|Temporal properties|property) (\S*) ?(?:is|were) violated", p.stdout)
    ok = p.returncode == 0 and "No error has been found" in p.stdout or \
        (p.returncode == 0 and "-simulate" in extra)
    if not ok and "violated" not in allow:
        tail = "\n".join(p.stdout.splitlines()[-60:])
        e = MachineryError("TLC failed on %s (rc %d):\n%s\n%s" % (module, p.returncode, tail, p.stderr[-2000:]))
        e.out = p.stdout
        raise e
    return r


_ESC = re.compile(r'\\(.)')


def printed(out, tag):
    """JSON payloads of PrintT("<tag> " \\o ToJson(..)) lines."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + ' ') and line.endswith('"'):
            body = _ESC.sub(lambda m: m.group(1), line[len(tag) + 2:-1])
            res.append(json.loads(body))
    return res


# ---------------------------------------------------------------- a check run
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.outdir = os.path.join(VERIF, "out", pid)
        self.states = self.transitions = self.traces = 0
        self.parts, self.samples, self.fails, self.assumptions = [], [], [], []
        self.canaries = 0
        self.evals = 0
        self.extra = {}

    # -- the number modules: Java overrides against TLA+ definitions, identities of the functions
    def numbers(self):
        a, b = (open(os.path.join(SPEC, n + ".tla")).read().split("EXTENDS", 1)[1] for n in ("BigInt", "BigIntPlain"))
        if a != b: raise MachineryError("BigIntPlain.tla is not BigInt.tla")
        self.model("BigIntCheck", "BigIntCheck3" if THOROUGH else "BigIntCheck")
        self.model("RealMC")

    # -- exploring the specification itself
    def model(self, module, cfg=None, **kw):
        r = run_tlc(self.work, module, cfg, **kw)
        self.states += r.distinct
        self.transitions += max(0, r.generated - 1)
        self.parts.append(dict(part="model checking", module=module, cfg=cfg or module,
                               states=r.distinct, generated=r.generated, wall_s=round(r.wall, 1)))
        return r

    def refuted(self, module, cfg, **kw):
        """A model that has to fail: shows that the properties checked on its sibling say something."""
        r = run_tlc(self.work, module, cfg, allow=("violated",), **kw)
        if not r.violated:
            raise MachineryError("TLC found nothing wrong with %s/%s" % (module, cfg))
        self.parts.append(dict(part="model with a planted fault, refuted", module=module, cfg=cfg, violated=r.violated,
                               wall_s=round(r.wall, 1)))
        return r

    def generate(self, module, cfg, tag="BEH", **kw):
        """Behaviours or inputs enumerated by TLC from the specification."""
        r = run_tlc(self.work, module, cfg, **kw)
        beh = printed(r.out, tag)
        self.states += r.distinct
        self.transitions += max(0, r.generated - 1)
        self.parts.append(dict(part="generated from specification", module=module, cfg=cfg, states=r.distinct,
                               generated=r.generated, behaviours=len(beh), wall_s=round(r.wall, 1)))
        if not beh:
            raise MachineryError("no behaviours from %s/%s" % (module, cfg))
        beh.sort(key=lambda b: json.dumps(b, sort_keys=True))
        return beh

    # -- judging observations of the real code
    def judge(self, module, cases, corrupt=None, ncanary=3, cfg=None, label=None, describe=None, timeout=800,
              per_case_states=2):
        if not cases:
            raise MachineryError("no cases for " + module)
        base = len(self.traces_ids) if hasattr(self, "traces_ids") else 0
        for i, c in enumerate(cases):
            c["id"] = i
            c.setdefault("bad", [])
        allc = list(cases)
        can = []
        if corrupt:
            idx = list(range(len(cases)))
            random.Random(7).shuffle(idx)
            for i in idx:
                if len(can) >= ncanary:
                    break
                if cases[i]["bad"]:
                    continue
                c = copy.deepcopy(cases[i])
                try:
                    if corrupt(c) is False:
                        continue
                except (LookupError, TypeError, ValueError, AttributeError):     # an observation of unexpected shape
                    continue
                c["id"] = len(cases) + len(can)
                can.append(c)
            allc += can
        path = os.path.join(self.work, "trace-%d.ndjson" % len(self.parts))
        with open(path, "w") as f:
            for c in allc:
                f.write(json.dumps({k: v for k, v in c.items() if not k.startswith("_")}) + "\n")
        try:
            r = run_tlc(self.work, module, cfg, env={"TRACE": path}, timeout=timeout)
        except MachineryError as e:
            real = self._outside(module, cases, cfg, timeout, e)
            self.parts.append(dict(part=label or "conformance", module=module, cases=len(cases), failing=len(real)))
            self.traces += len(cases)
            self._keep(module, cases, real)
            return real
        fails = {}
        for fl in printed(r.out, "FAIL"):
            fails.setdefault(fl["id"], fl)
        n = len(cases)
        real = [fails[i] for i in sorted(fails) if i < n]
        if r.distinct < 2 * len(allc):
            raise MachineryError("%s judged only %d states for %d cases" % (module, r.distinct, len(allc)))
        missed = [c["id"] for c in can if c["id"] not in fails]
        if can and len(missed) == len(can) and not real:      # a corruption may happen to be without consequence, not all of them
            raise MachineryError("%s accepted %d corrupted observations (vacuous?) e.g. %s" %
                                 (module, len(missed), json.dumps(can[missed[0] - n])[:600]))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += n
        self.canaries += len(can) - len(missed)
        self.parts.append(dict(part=label or "conformance", module=module, cases=n, failing=len(real),
                               corrupted_rejected="%d/%d" % (len(can) - len(missed), len(can)),
                               states=r.distinct, wall_s=round(r.wall, 1)))
        for i in (0, n // 2):
            s = describe(cases[i]) if describe else cases[i].get("_note", cases[i].get("op", ""))
            if len(self.samples) < 12:
                self.samples.append(dict(module=module, case=s))
        self._keep(module, cases, real)
        return real

    def _keep(self, module, cases, real):
        for fl in real:
            c = cases[fl["id"]]
            self.fails.append(dict(module=module, clauses=fl.get("clauses"), at=fl.get("at"), op=fl.get("op"),
                                   note=c.get("_note"), key=c.get("_key"), case=c))

    def _outside(self, module, cases, cfg, timeout, err):
        """TLC could not evaluate the specification on these observations.  Either it rejected some
        before, or one of them is of a shape the specification does not have: find that one.  Never
        the case on the unchanged tree (there the error is passed on when no single observation is at fault)."""
        if not hasattr(err, "out"):
            raise err
        seen = {}
        for fl in printed(err.out, "FAIL"):
            if fl["id"] < len(cases): seen.setdefault(fl["id"], fl)
        if seen:
            return [seen[i] for i in sorted(seen)]

        def fine(part):
            p = os.path.join(self.work, "part.ndjson")
            with open(p, "w") as f:
                for c in part:
                    f.write(json.dumps({k: v for k, v in c.items() if not k.startswith("_")}) + "\n")
            try:
                run_tlc(self.work, module, cfg, env={"TRACE": p}, timeout=timeout)
                return True
            except MachineryError as e:
                if not hasattr(e, "out"): raise
                return False
        if fine(cases[:1]) is False and len(cases) > 3 and not any(fine([cases[i]]) for i in (1, len(cases) // 2, -1)):
            raise err                  # nothing can be judged: the machinery is broken
        part = cases
        while len(part) > 1:
            h = len(part) // 2
            part = part[h:] if fine(part[:h]) else part[:h]
        if fine(part):
            raise err
        return [dict(id=part[0]["id"], clauses=["outside-the-specification"], at=None, op=part[0].get("op"))]

    def direct(self, clause, note, key=None):
        """A violation seen by the harness itself (for instance a changed file)."""
        self.fails.append(dict(module="harness", clauses=[clause], note=note, key=key, case=None))

    # -- verdict
    def finish(self):
        known = load_known(self.pid)
        viol, shown_known = [], set()
        for f in self.fails:
            k = next((kf for kf in known if kf["key"] == f.get("key")), None)
            if k:
                shown_known.add(k["text"])
            else:
                viol.append(f)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples, parts=self.parts,
                                corrupted_observations_rejected=self.canaries, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for t in sorted(shown_known):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s: %d spec states, %d traces of the real code judged, %d failing, %.1f s" %
              (self.pid, self.states, self.traces, len(viol), time.time() - self.t0))
        if viol:
            os.makedirs(self.outdir, exist_ok=True)
            for n, f in enumerate(viol[:5]):
                p = os.path.join(self.outdir, "violation-%d.json" % n)
                with open(p, "w") as fh:
                    json.dump(dict(property=self.pid, seed=SEED, tier=TIER, **f), fh, indent=1, default=str)
                print("  clauses %s %s %s" % (f["clauses"], "op=%s at=%s" % (f.get("op"), f.get("at")) if f.get("op") else "",
                                              str(f.get("note"))[:300]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        return 0


def load_known(pid):
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append(dict(key=m.group(2), text=m.group(3)))
    return res


@contextlib.contextmanager
def scratch(prefix="scratch-"):
    d = tempfile.mkdtemp(prefix="verif-" + prefix)
    old = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
