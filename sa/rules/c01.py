"""Arguments are never modified and the returned image is never an alias of one."""
from scen import *

SCEN = [
    ("add_cti, parallel and serial", dict()),
    ("add_cti, one step, one phase, frame", dict(direction="parallel", steps=1, phases=1, frame=True)),
    ("add_cti, no traps", dict(direction="none", frame=False)),
    ("add_cti, frame, no traps", dict(direction="none", frame=True)),
    ("add_cti, charge injection", dict(roe="ROEChargeInjection", direction="parallel", window=None)),
    ("add_cti, trap pumping", dict(roe="ROETrapPumping", direction="serial", window="int")),
    ("add_cti, instant capture traps, time window", dict(traps="instant", direction="parallel", time=True, steps=1)),
    ("add_cti, default clocking", dict(roe_default=True, phases=1, traps="single")),
    ("add_cti, continuum traps", dict(traps="lognormal", direction="serial", steps=1)),
    ("add_cti, surface groups", dict(traps="groups", direction="parallel", steps=1, phases=1)),
    ("remove_cti", dict(entry="remove_cti", direction="parallel", frame=False)),
    ("remove_cti, no traps, frame", dict(entry="remove_cti", direction="none", frame=True)),
]


def stores(events, own, before=None):
    """stores that reach an object of the caller"""
    for e in events:
        if e.kind in ("arrstore", "mutate", "attrstore", "attrdel"):
            l = e.data.get("loc")
            if l in own:
                if e.kind == "attrstore":
                    old = e.data.get("old")
                    if old is None or (old.key() == e.data["value"].key()):
                        continue
                yield e, l


def run(mods, rep):
    jobs = [(one, (mods, name, kw)) for name, kw in SCEN]
    jobs += [(lambda r, m, a, b: manager(m, r, a, b), (mods, cls, kind)) for cls, kind in MANAGERS]
    jobs += [(built, (mods, k)) for k in ("ROE", "ROEChargeInjection", "ROETrapPumping", "CCD", "CCDPhase", "AllTrapManager", "poisson_trap")]
    rep.parallel(jobs)


def built(rep, mods, kind):
    """building an object from lists of the caller leaves these as they were"""
    for n in (2, None):
        what = "%s from lists of %s" % (kind, "two elements" if n else "any length")
        try:
            h = H(mods)

            def L(name, unit):
                if n is None:
                    return h.put(Lst(None, h.sym(name, 0, unit=unit), h.sym("n_of_lists", 1, isint=True), "list"))
                return h.put(Lst([h.sym("%s%d_" % (name, i), 0, unit=unit) for i in range(n)], None, None, "list"))
            if kind.startswith("ROE"):
                args = [L("dwell", TIME)]
                own = reach(h.ip, h.st, args)
                n0 = len(h.ip.events)
                r = h.new(kind, args[0])
            elif kind in ("CCD", "CCDPhase"):
                args = [L("share", ONEU), L("full", CHARGE), L("notch", CHARGE), L("power", ONEU), L("bloom", CHARGE)]
                own = reach(h.ip, h.st, args)
                n0 = len(h.ip.events)
                r = h.new("CCD", *args)
                if kind == "CCDPhase":
                    h.new("CCDPhase", r, vnum(0))
            elif kind == "AllTrapManager":
                args = [mk_traps(h, "Trap", "_a", n=vnum(n) if n else None), mk_ccd2(h, phases=1 if n else None)]
                own = reach(h.ip, h.st, args)
                n0 = len(h.ip.events)
                h.new(kind, args[0], h.sym("max_n_transfers", 1, isint=True), args[1])
            else:
                args = [mk_traps(h, "Trap", "_a", n=vnum(n) if n else None)]
                own = reach(h.ip, h.st, args)
                n0 = len(h.ip.events)
                t = h.new("Trap")
                h.meth(t, "poisson_trap", args[0], h.put(Lst([h.sym("shape0", 1, isint=True), h.sym("shape1", 1, isint=True)], None, None, "tuple")), h.sym("seed", 0, isint=True))
        except (Missing, Dead) as e:
            if kind != "ROETrapPumping" or n:
                rep.undecided("lists-untouched", what, repr(e))
            continue
        rep.covered(h.ip)
        bad = {}
        for e, l in stores(h.ip.events[n0:], own):
            bad.setdefault(e.where, e)
        for w, e in bad.items():
            rep.violation("lists-untouched", "%s: changes what it was given" % what, w, show_ev(e))
        if not bad:
            rep.ok("lists-untouched", "%s: what it was given is as it was" % what)


def one(rep, mods, name, kw):
    try:
        s = scenario(mods, **kw)
    except (Missing, Dead) as e:
        rep.undecided("arguments-untouched", name, repr(e))
        return
    ip = s.h.ip
    rep.covered(ip)
    own = reach(ip, s.before, s.args)
    bad = {}
    nst = 0
    for e in s.events:
        if e.kind in ("arrstore", "mutate", "attrstore"):
            nst += 1
    for e, l in stores(s.events, own):
        bad.setdefault(e.where, (e, l))
    for w, (e, l) in bad.items():
        rep.violation("arguments-untouched", "a store reaches an argument of the caller (%s)" % describe(s, l), w, "scenario: %s; %s" % (name, show_ev(e)))
    if not bad:
        rep.ok("arguments-untouched", "%s: %d stores, none reaches an argument" % (name, nst), "arcticpy/main.py")
    got = reach(ip, s.h.st, [s.result])
    al = [l for l in got & own if isinstance(s.before.heap.get(l), (Arr, Lst, Dct))]
    if s.result.unk and not s.result.refs:
        rep.undecided("result-is-new", name, "the result was not modelled")
    elif al:
        rep.violation("result-is-new", "%s: the returned image can share memory with an argument (%s)" % (kw.get("entry", "add_cti"), describe(s, al[0])),
                      "arcticpy/main.py", "scenario: " + name)
    else:
        rep.ok("result-is-new", "%s: the returned image shares no memory with an argument" % name, "arcticpy/main.py")


def describe(s, l):
    h = s.h
    if l in [x for x in s.image.locs()]:
        return "the input image"
    for k, v in s.kw.items():
        if l in reach(h.ip, s.before, [v]):
            return k
    return "an argument"


def show_ev(e):
    return "%s %s" % (e.kind, {k: str(v)[:120] for k, v in e.data.items() if k in ("attr", "how", "region", "loc")})


def manager(mods, rep, cls, kind):
    """a step of a manager changes the manager's own state only: not the trap species, nor the CCD"""
    for name in ("n_electrons_released_and_captured", "empty_all_traps"):
        h = H(mods)
        if h.cls(cls) is None:
            continue
        what = "%s.%s" % (cls, name)
        try:
            n = h.sym("n_species", 1, INF, isint=True)
            traps = mk_traps(h, kind, n=n)
            own = reach(h.ip, h.st, [traps])
            tm = h.new(cls, traps, h.sym("max_n_transfers", 1, INF, isint=True))
            ccd = mk_ccd(h)
            f = filling(h, ccd)
            own |= reach(h.ip, h.st, [ccd])
            n0 = len(h.ip.events)
            if name == "empty_all_traps":
                h.meth(tm, name)
            else:
                w = h.array("W", (h.sym("n_levels", 2, isint=True), h.ip.binop(ast.Add(), n, vnum(1), h.st, NODE)), lo=0, unit=ONEU)
                h.set(tm, "watermarks", w)
                h.meth(tm, name, n_free_electrons=h.sym("n_free", 0, unit=CHARGE), ccd_filling_function=f, dwell_time=h.sym("dwell", 0, unit=TIME))
        except (Missing, Dead) as e:
            rep.undecided("traps-untouched", what, repr(e))
            continue
        rep.covered(h.ip)
        bad = {}
        for e, l in stores(h.ip.events[0:], own):
            bad.setdefault(e.where, e)
        bad = {w: e for w, e in bad.items() if e.kind != "attrstore" or e.data["loc"] in own and not in_init(e)}
        for w, e in bad.items():
            rep.violation("traps-untouched", "%s changes a trap species or the CCD it was given" % what, w, show_ev(e))
        if not bad:
            rep.ok("traps-untouched", "%s changes neither the trap species nor the CCD" % what, "arcticpy/trap_managers.py")


def in_init(e):
    return any("__init__" in str(x) for x in e.stack[-1:])
