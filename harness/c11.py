"""C11: the ZDI field is the harmonic expansion."""
from harness import fields as fl
from harness.vlib import THOROUGH


@fl.in_units
def random_cases(rng):
    coefs, w = fl.rnd_coefs(rng)
    bad = []
    try:
        mag, how = fl.build(rng, coefs, w)
    except Exception as e:
        return [fl.case(coefs, *fl.rnd_points(rng, zero_d=True), {}, ["exception:" + type(e).__name__])]
    th, ph = fl.rnd_points(rng, zero_d=True)
    cases = [fl.case(coefs, th, ph, fl.observe(mag, th, ph, ("r", "p", "a"), bad), bad, None, how)]
    if rng.random() < .3:       # the same magnetogram again, elsewhere
        th, ph = fl.rnd_points(rng, zero_d=True)
        bad = []
        cases.append(fl.case(coefs, th, ph, fl.observe(mag, th, ph, ("a", "r", "p"), bad), bad, None, how + " again"))
    return cases


@fl.in_units
def signed_case(rng):
    """Orders of either sign: the radial field (the other components are defined for orders from 0)."""
    coefs, w = fl.rnd_coefs(rng)
    coefs = [(l, m * rng.choice([1, -1]), *z) for l, m, *z in coefs]
    have = {x[:2] for x in coefs}
    coefs += [(l, -m, *[fl.rnd_z(rng) for _ in range(w)], *[0j] * (3 - w)) for l, m, *z in coefs if (l, -m) not in have and rng.random() < .4]
    if not any(x[1] < 0 for x in coefs): return None
    th, ph = fl.rnd_points(rng, zero_d=True)
    bad = []
    try:
        mag, how = fl.build(rng, coefs, w)
    except Exception as e:
        return fl.case(coefs, th, ph, {}, ["exception:" + type(e).__name__])
    return fl.case(coefs, th, ph, fl.observe(mag, th, ph, ("r", "rp"), bad), bad, None, how + " signed orders")


def run(chk):
    chk.numbers()
    chk.model("HarmMC", "HarmMC30" if THOROUGH else "HarmMC")
    chk.model("ZdiMC")
    rng = chk.rng
    cases = []
    # every (l, m) up to degree 30 once, alone, each coefficient kind
    for l in range(31):
        for m in range(l + 1):
            coefs = [(l, m, fl.rnd_z(rng) or 1j, fl.rnd_z(rng) or 2, fl.rnd_z(rng) or -1.5j)]
            if l > 12 and not THOROUGH and rng.random() < .5:
                continue
            mag, how = fl.build(rng, coefs, 3)
            th, ph = fl.rnd_points(rng, 1)
            bad = []
            cases.append(fl.case(coefs, th, ph, fl.observe(mag, th, ph, ("r", "p", "a"), bad), bad, None, how))
    for i in range(8000 if THOROUGH else 1200): cases += random_cases(rng)
    cases += [c for c in (signed_case(rng) for _ in range(2000 if THOROUGH else 250)) if c]
    chk.judge("FieldTrace", cases, corrupt=fl.corrupt, label="fields of the real code at random points")
    high = []
    for pairs in fl.high_pairs(rng, 600 if THOROUGH else 60) + [[x] for x in fl.OVERFLOW]:
        coefs = [(l, m, fl.rnd_z(rng) or 1j, fl.rnd_z(rng) or 2, fl.rnd_z(rng) or -1.5j) for l, m in pairs]
        mag, how = fl.build(rng, coefs, 3)
        th, ph = fl.equator_points(rng)
        bad = []
        high.append(fl.case(coefs, th, ph, fl.observe(mag, th, ph, ("r", "p", "a"), bad), bad, None, how))
        if pairs[0] in fl.OVERFLOW: high[-1]["_key"] = "legendre-overflow"
    chk.judge("FieldTrace", high, cfg="FieldTraceHigh", corrupt=fl.corrupt, label="fields of degrees 31 to 150")
