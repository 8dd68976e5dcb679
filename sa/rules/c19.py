"""Configurations that make no sense reach no normal return; the neighbouring ones that do are not turned away."""
from mats import *
from scen import *

TM = "arcticpy/trap_managers.py: TrapManager.n_traps_per_pixel"
PER_PHASE = ("full_well_depth", "well_fill_power", "well_notch_depth", "well_bloom_level")


def run(mods, rep):
    jobs = []
    for p in PER_PHASE:
        for how in ("given", "set"):
            jobs.append((ccd, (mods, p, how)))
    for c in ("TrapManager", "TrapManagerInstantCapture", "TrapManagerTrackTime"):
        jobs.append((densities, (mods, c)))
    jobs += [(dates, (mods,)), (dtypes, (mods, "ROE")), (dtypes, (mods, "ROEChargeInjection")), (dtypes, (mods, "ROETrapPumping")), (pumping, (mods,))]
    for kind in ("ROE", "ROEChargeInjection", "ROETrapPumping"):
        for d in ("parallel", "serial"):
            for n in (1, 2, 3, 4):
                jobs.append((phases, (mods, kind, d, n)))
    rep.parallel(jobs)


def outcome(h, f):
    """'returns' | 'refuses' | None (not known) of a call"""
    n0 = len(h.ip.events)
    try:
        f()
        done = True
    except Dead:
        done = False
    evs = [e for e in h.ip.events[n0:]]
    refusals = [e for e in evs if e.kind in ("raise", "indexerror")]
    if done:
        return None if any(e.path for e in refusals) else "returns"
    return "refuses" if refusals else None


def judge(rep, rule, what, where, got, want):
    if got == want:
        rep.ok(rule, what, where)
    elif got is None:
        rep.undecided(rule, what, "neither a normal return nor an error is certain")
    else:
        rep.violation(rule, what, where, "accepted without an error" if want == "refuses" else "rejected although valid")


def attempt(rep, rule, what, where, want, go):
    """go(h) prepares and returns the call"""
    try:
        h, f = go()
    except (Missing, Dead) as e:
        rep.undecided(rule, what, repr(e))
        return
    judge(rep, rule, what, where, outcome(h, f), want)
    rep.covered(h.ip)


def lst(h, xs):
    return h.put(Lst(list(xs), None, None, "list"))


def ccd(rep, mods, par, how):
    where = "arcticpy/ccd.py: CCD.%s" % par
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3, 4):
            def go():
                h = H(mods, {"exact": True, "unroll": 8})
                fr = lst(h, [h.sym("share%d_" % i, 0, 1, unit=ONEU) for i in range(n)])
                vals = lst(h, [h.sym("value%d_" % i, 1, 2, unit=None if par == "well_fill_power" else CHARGE) for i in range(m)])
                kw = {"fraction_of_traps_per_phase": fr}
                if how == "given":
                    kw[par] = vals
                    return h, lambda: h.new("CCD", **kw)
                c = h.new("CCD", **kw)
                return h, lambda: h.ip.setattr(c, par, vals, h.st, NODE, h.mod, None)
            attempt(rep, "per-phase", "%s %s for %d phase%s of a CCD of %d" % (par, how, m, "s" if m > 1 else "", n), where, "returns" if n == m else "refuses", go)


def densities(rep, mods, cls):
    kind = {"TrapManager": "Trap", "TrapManagerInstantCapture": "TrapInstantCapture", "TrapManagerTrackTime": "TrapLogNormalLifetimeContinuum"}[cls]
    for n in (1, 2, 3):
        for m in (1, 2, 3, 4):
            def go():
                h = H(mods, {"exact": True, "unroll": 8})
                ts = []
                for i in range(n):
                    a = [h.sym("density%d_" % i, 1, unit=CHARGE), h.sym("tau%d_" % i, Fraction(1, 100), unit=TIME)]
                    if kind == "TrapLogNormalLifetimeContinuum":
                        a.append(h.sym("sigma%d_" % i, Fraction(1, 100), unit=ONEU))
                    ts.append(h.new(kind, *a))
                tm = h.new(cls, lst(h, ts), vnum(3))
                vals = lst(h, [h.sym("new%d_" % i, 1, unit=CHARGE) for i in range(m)])
                return h, lambda: h.ip.setattr(tm, "n_traps_per_pixel", vals, h.st, NODE, h.mod, None)
            attempt(rep, "densities", "%s: %d densities for %d species" % (cls, m, n), TM, "returns" if n == m else "refuses", go)


LAUNCH = Fraction(24523345, 10)


def dates(rep, mods):
    where = "arcticpy/main.py: model_for_HST_ACS"
    def at(lo, hi):
        def go():
            h = H(mods)
            d = vnum(lo) if lo == hi else h.sym("date_%s" % ("before" if hi < INF else "after"), lo, hi, unit=TIME)
            return h, lambda: h.call("model_for_HST_ACS", d)
        return go
    attempt(rep, "date", "any date before launch", where, "refuses", at(-INF, LAUNCH - Fraction(1, 10**6)))
    attempt(rep, "date", "the day before launch", where, "refuses", at(LAUNCH - 1, LAUNCH - 1))
    attempt(rep, "date", "the date of launch", where, "returns", at(LAUNCH, LAUNCH))
    attempt(rep, "date", "any date after launch", where, "returns", at(LAUNCH, INF))


def dtypes(rep, mods, kind):
    where = "arcticpy/roe.py: ROEAbstract.express_matrix_dtype"
    for what, ref, want in (("int", "builtins.int", "returns"), ("float", "builtins.float", "returns"), ("bool", "builtins.bool", "refuses"), ("str", "builtins.str", "refuses"),
                            ("complex", "builtins.complex", "refuses"), ("None", None, "refuses"), ("the number 2", 2, "refuses")):
        for how in ("given", "set"):
            def go():
                h = H(mods, {"exact": True, "unroll": 8})
                v = VNONE if ref is None else (vnum(ref) if ref == 2 else vref(ExtRef(ref)))
                dw = [vnum(1)] * (2 if kind == "ROETrapPumping" else 1)
                kw = {"dwell_times": lst(h, dw)}
                if kind == "ROETrapPumping":
                    kw["n_pumps"] = vnum(2)
                if how == "given":
                    kw["express_matrix_dtype"] = v
                    return h, lambda: h.new(kind, **kw)
                r = h.new(kind, **kw)
                return h, lambda: h.ip.setattr(r, "express_matrix_dtype", v, h.st, NODE, h.mod, None)
            attempt(rep, "matrix-type", "%s: %s as type of the express matrix, %s" % (kind, what, how), where, want, go)


def pumping(rep, mods):
    where = "arcticpy/roe.py: ROETrapPumping.dwell_times"
    for n in range(1, 9):
        for how in ("given", "set"):
            def go():
                h = H(mods, {"exact": True, "unroll": 10, "unroll_while": 10})
                dw = lst(h, [h.sym("dwell%d_" % i, 0, unit=TIME) for i in range(n)])
                if how == "given":
                    return h, lambda: h.new("ROETrapPumping", dwell_times=dw, n_pumps=vnum(2))
                r = h.new("ROETrapPumping", dwell_times=lst(h, [vnum(1), vnum(1)]), n_pumps=vnum(2))
                return h, lambda: h.ip.setattr(r, "dwell_times", dw, h.st, NODE, h.mod, None)
            attempt(rep, "pumping", "trap pumping with %d step%s, %s" % (n, "s" if n > 1 else "", how), where, "refuses" if n % 2 else "returns", go)


def phases(rep, mods, kind, direction, n):
    where = "arcticpy/main_utils.pyx: cy_clock_charge_in_one_direction"
    for m in (1, 2, 3, 4):
        def go():
            cuts = {STEP: cut_step([]), "n_trapped_electrons_from_watermarks": cut_trapped}
            h = H(mods, {"exact": True, "unroll": 10, "unroll_while": 10}, cuts)
            image = h.image("image", lo=0)
            fr = lst(h, [h.sym("share%d_" % i, Fraction(1, 100), 1, unit=ONEU) for i in range(m)])
            c = h.new("CCD", fr, h.sym("depth", 1, unit=CHARGE), vnum(0), h.sym("power", Fraction(1, 10), 1))
            k = n * (2 if kind == "ROETrapPumping" else 1)
            dw = lst(h, [h.sym("dwell%d_" % i, Fraction(1, 100), unit=TIME) for i in range(k)])
            kw = {"dwell_times": dw}
            if kind == "ROETrapPumping":
                kw["n_pumps"] = vnum(2)
            r = h.new(kind, **kw)
            t = lst(h, [h.new("Trap", h.sym("density", 1, unit=CHARGE), h.sym("tau", Fraction(1, 100), unit=TIME))])
            a = {direction + "_ccd": c, direction + "_roe": r, direction + "_traps": t, direction + "_express": vnum(2)}
            if kind == "ROETrapPumping":
                a[direction + "_window_range"] = h.sym("pixel", 1, isint=True)
            return h, lambda: h.call("add_cti", image, **a)
        attempt(rep, "phases", "%s: %s clocking of a sequence of %d phase%s through a CCD of %d" % (kind, direction, n, "s" if n > 1 else "", m), where,
                "returns" if n == m else "refuses", go)
