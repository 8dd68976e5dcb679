"""The preset for HST/ACS: for every date of an era, what the returned objects hold is compared with the calibration of that era."""
import math

from shape import *
from scen import *

WHERE = "arcticpy/main.py: model_for_HST_ACS"
LAUNCH, COOLED, SM4 = Fraction(24523345, 10), Fraction(2453920), Fraction(2454968)

# the published calibration: density in traps per pixel at launch and its growth per day
EARLY = (0.017845, 3.5488e-4)
LATE = (-0.246591 * 1.011, 5.58980e-4 * 1.011)
SHARES = (1.27, 3.38, 2.85)
RELEASE = (0.74, 7.7, 37)          # pixels, at the temperature after cooling
ENERGY = (0.31, 0.34, 0.44)        # eV
KELVIN = 273.15
BOLTZMANN = 8.617343e-5
WARM, COLD = KELVIN - 77, KELVIN - 81

ERAS = [("from launch until the ACS was cooled", LAUNCH, COOLED, EARLY, WARM), ("from cooling to the repair", COOLED, SM4, EARLY, COLD), ("after the repair", SM4, None, LATE, COLD)]


def run(mods, rep):
    rep.parallel([(era, (mods, i)) for i in range(len(ERAS))])


def release(i, temp):
    return RELEASE[i] * (temp / COLD) * math.exp(ENERGY[i] / (BOLTZMANN * COLD * temp) * (temp - COLD))


def close(a, b):
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-12)


def value(t, fixed):
    if t is None or opaque(t):
        return None
    try:
        y = T.Valuation(0, fixed).term(t)
    except (ArithmeticError, RecursionError):
        return None
    return None if isinstance(y, complex) else float(y)


def era(rep, mods, i):
    name, lo, hi, (d0, growth), temp = ERAS[i]
    first, last = float(lo), float(hi) - 1 if hi is not None else float(lo) + 20000
    for what, date in (("any date", None), ("the first date", lo), ("the last date", hi - Fraction(1, 1000) if hi is not None else lo + 40000)):
        try:
            h = H(mods, {"exact": True, "unroll": 8})
            d = vnum(date) if date is not None else h.sym("date%d_" % i, lo, hi - Fraction(1, 10**6) if hi is not None else INF)
            r = h.call("model_for_HST_ACS", d)
            parts = h.ip.iter_exact(r, h.st)
            if parts is None or len(parts) != 3:
                raise Missing("result is not traps, CCD and clock sequence")
            traps = h.ip.iter_exact(parts[0], h.st)
            if traps is None:
                raise Missing("list of traps")
            props = [(h.get(t, "density").term, h.get(t, "release_timescale").term, h.st.heap[t.locs()[0]].cls) for t in traps]
        except (Missing, Dead, IndexError, KeyError) as e:
            if isinstance(e, Dead):
                rs = [e for e in h.ip.events if e.kind == "raise"]
                if rs and not any(e.path for e in rs):
                    rep.violation("preset", "%s %s gives a model" % (what, name), rs[0].where, "it is rejected")
                    continue
            rep.undecided("preset", "%s %s" % (what, name), repr(e))
            continue
        rep.covered(h.ip)
        at = "%s %s" % (what, name)
        if len(props) != 3:
            rep.violation("preset", "%s: three species" % at, WHERE, "%d species" % len(props))
            continue
        x = single_atom(d.term).id if date is None else None
        dates = [first, first + 1, 0.5 * (first + last), last] if date is None else [float(date)]
        tot = sum(SHARES)
        for s, (de, tr, cls) in enumerate(props):
            sp = "%s: species %d" % (at, s + 1)
            rep.expect(any(c.name == "TrapInstantCapture" for c in cls.mro() if isinstance(c, Class)), "preset", "%s captures instantly" % sp, WHERE, "is a %s" % cls.name)
            for what_, t, want in (("density grows from launch as calibrated", de, lambda y: SHARES[s] / tot * (d0 + growth * (y - float(LAUNCH)))),
                                   ("release time at the temperature of the era", tr, lambda y: release(s, temp))):
                ys = [value(t, {x: y} if x is not None else {}) for y in dates]
                if any(y is None for y in ys):
                    rep.undecided("calibration", "%s: %s" % (sp, what_), str(t)[:200])
                    continue
                bad = [(y, v) for y, v in zip(dates, ys) if not close(v, want(y))]
                rep.expect(not bad, "calibration", "%s: %s" % (sp, what_), WHERE, bad and "is %.8g instead of %.8g on %.1f" % (bad[0][1], want(bad[0][0]), bad[0][0]))
                if x is not None:
                    # between those dates: a polynomial of degree one or a constant
                    rate = partial(t, x)
                    rep.expect(not depends(rate, x), "calibration", "%s: %s at every date in between" % (sp, what_), WHERE, "rate of change %s" % str(rate)[:200]) \
                        if rate is not None and not opaque(rate) else rep.undecided("calibration", sp, "rate of change of %s" % str(t)[:200])
        ccd(rep, h, parts[1], at)
        roe(rep, h, parts[2], at)


def fixed(rep, h, obj, attr, want, what, where=WHERE):
    try:
        els = h.ip.iter_exact(h.get(obj, attr), h.st)
    except (Missing, Dead) as e:
        els = None
    if els is None:
        rep.undecided("settings", what, "%s not followed" % attr)
        return
    vals = [value(e.term, {}) if e.term is not None else None for e in els]
    if any(v is None for v in vals):
        rep.undecided("settings", what, "%s not followed" % attr)
        return
    rep.expect(len(vals) == 1 and close(vals[0], want), "settings", what, where, "%s is %s" % (attr, vals))


def ccd(rep, h, c, at):
    for attr, want, what in (("full_well_depth", 84700, "full well depth"), ("well_fill_power", 0.478, "filling power"), ("well_notch_depth", 0, "no notch"),
                             ("fraction_of_traps_per_phase", 1, "a single phase with all traps")):
        fixed(rep, h, c, attr, want, "%s: %s" % (at, what))


def roe(rep, h, r, at):
    fixed(rep, h, r, "dwell_times", 1, "%s: time is counted in transfers" % at)
