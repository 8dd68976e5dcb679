"""Every species is simulated once per phase, by the model of its kind, with the phase's share of its density."""
import itertools

from mats import *
from tm import *

WHERE = "arcticpy/trap_managers.py: AllTrapManager.__init__"
KINDS = {"G": "Trap", "I": "TrapInstantCapture", "C": "TrapLogNormalLifetimeContinuum", "A": "TrapLifetimeContinuumAbstract"}
MODEL = {"G": "TrapManager", "I": "TrapManagerInstantCapture", "C": "TrapManagerTrackTime", "A": "TrapManagerTrackTime"}

# groups of species: how they are passed, and the kinds in each group
GROUPS = [("one", ["G"]), ("one", ["I"]), ("one", ["C"]), ("one", ["A"]),
          ("flat", ["GG"]), ("flat", ["GGG"]), ("flat", ["III"]), ("flat", ["CC"]), ("flat", ["CA"]), ("flat", ["GI"]), ("flat", ["IG"]), ("flat", ["IIG"]),
          ("groups", ["G", "G"]), ("groups", ["G", "I", "C"]), ("groups", ["C", "I", "G"]), ("groups", ["I", "C", "G"]), ("groups", ["GG", "CC"]),
          ("groups", ["II", "G", "GGG"]), ("groups", ["A", "GG", "I"]), ("groups", ["IG", "C"]), ("groups", ["GI", "I"])]


def run(mods, rep):
    jobs = []
    for how, gs in GROUPS:
        for phases in (1, 2, 3, 4):
            jobs.append((managers, (mods, how, gs, phases)))
    for how, gs in GROUPS:
        for given in GIVEN:
            jobs.append((managers, (mods, how, gs, 2, given)))
    for how, gs in GROUPS[:4] + GROUPS[12:15]:
        jobs.append((alone, (mods, how, gs)))
    for k in KINDS:
        jobs.append((rates, (mods, k)))
    rep.parallel(jobs)


# species with given numbers: density, release and capture times, width, surface
GIVEN = {"slow capture": (10, Fraction(1, 2), 3, Fraction(1, 4), False), "fast capture": (Fraction(1, 10), 3, Fraction(1, 2), Fraction(3, 2), False),
         "capture at once": (2, 1, 0, Fraction(1, 2), False), "at the surface": (2, 5, 1, Fraction(1, 2), True)}


def build(h, gs, given=None):
    spec, groups = [], []
    for g, kinds in enumerate(gs):
        ts, sp = [], []
        for s, k in enumerate(kinds):
            d = frozenset(["traps"])
            n = "%d_%d_" % (g, s)
            de = h.sym("density" + n, Fraction(1, 100), unit=CHARGE, deps=d)
            tr = h.sym("tau_r" + n, Fraction(1, 100), unit=TIME, deps=d)
            tc = h.sym("tau_c" + n, Fraction(1, 100), unit=TIME, deps=d)
            sg = h.sym("sigma" + n, Fraction(1, 100), unit=ONEU, deps=d)
            sf = ()
            if given is not None:
                u = 1 + Fraction(len(ts) + 2 * g, 8)
                de, tr, tc, sg = [vnum(x * u) if x else vnum(x) for x in GIVEN[given][:4]]
                sf = (vnum(GIVEN[given][4]),)
            if k == "G":
                ts.append(h.new("Trap", de, tr, tc, *sf))
            elif k == "I":
                ts.append(h.new("TrapInstantCapture", de, tr, *sf))
            elif k == "C":
                ts.append(h.new("TrapLogNormalLifetimeContinuum", de, tr, sg))
            else:
                ts.append(h.new("TrapLifetimeContinuumAbstract", de, vref(ExtRef("caller.distribution")), tr, sg))
            sp.append((k, de.term, tr.term, tc.term))
        spec.append(sp)
        groups.append(ts)
    return spec, groups


def model(kinds):
    """the model that does justice to every species of the group"""
    if set(kinds) <= set("CA"):
        return "TrapManagerTrackTime"
    return "TrapManagerInstantCapture" if set(kinds) == {"I"} else "TrapManager"


def is_model(cls, want):
    names = [c.name for c in cls.mro() if isinstance(c, Class)]
    if want == "TrapManager":
        return "TrapManager" in names and "TrapManagerInstantCapture" not in names
    if want == "TrapManagerInstantCapture":
        return want in names and "TrapManagerTrackTime" not in names
    return want in names


def managers(rep, mods, how, gs, phases, given=None):
    name = "%s %s, %d phase%s" % ({"one": "a single species", "flat": "a list of species", "groups": "groups of species"}[how], "+".join(gs), phases, "s" if phases > 1 else "") + ("" if given is None else ", " + given)
    try:
        h = H(mods, {"unroll": 12, "unroll_while": 12, "exact": True})
        spec, groups = build(h, gs, given)
        if how == "one":
            arg = groups[0][0]
        elif how == "flat":
            arg = h.put(Lst(groups[0], None, None, "list"))
        else:
            arg = h.put(Lst([h.put(Lst(g, None, None, "list")) for g in groups], None, None, "list"))
        shares = [h.sym("share%d_" % p, Fraction(1, 100), 1, unit=ONEU) for p in range(phases)]
        ccd = h.new("CCD", h.put(Lst(shares, None, None, "list")) if phases > 1 else shares[0], h.sym("depth", 1, unit=CHARGE))
        caller = set(reach(h.ip, h.st, [arg, ccd]))
        al = h.new("AllTrapManager", arg, h.sym("max_n_transfers", 1, isint=True), ccd)
        rows = h.ip.iter_exact(al, h.st)
    except (Missing, Dead) as e:
        rep.undecided("managers", name, repr(e))
        return
    rep.covered(h.ip)
    if rows is None:
        rep.undecided("managers", name, "the set of managers is not followed")
        return
    rep.expect(len(rows) == phases, "phases", "%s: one set of managers per phase" % name, WHERE, "%d sets" % len(rows))
    seen = {}
    for p, row in enumerate(rows[:phases]):
        ms = h.ip.iter_exact(row, h.st)
        if ms is None:
            rep.undecided("managers", name, "managers of phase %d not followed" % p)
            continue
        what = "%s: phase %d" % (name, p + 1)
        rep.expect(len(ms) == len(gs), "groups", "%s holds one manager per group" % what, WHERE, "%d managers" % len(ms))
        for g, mv in enumerate(ms[:len(gs)]):
            insts = [h.st.heap.get(l) for l in mv.locs()]
            if len(insts) != 1 or not isinstance(insts[0], Inst) or insts[0].cls is None or mv.unk:
                rep.undecided("model", "%s, group %d" % (what, g + 1), "manager not followed")
                continue
            loc, o = mv.locs()[0], insts[0]
            kinds = gs[g]
            rep.expect(is_model(o.cls, model(kinds)), "model", "%s, group %d (%s) is handled by %s" % (what, g + 1, kinds, model(kinds)), WHERE, "handled by %s" % o.cls.name)
            if len(rows) == phases and len(ms) == len(gs):
                rep.expect(loc not in seen, "separate", "%s, group %d has its own manager" % (what, g + 1), WHERE, "the same as %s" % (seen.get(loc),))
            seen[loc] = what
            species(rep, h, mv, spec[g], shares[p].term, "%s, group %d" % (what, g + 1), seen)


def vec(h, mv, attr, n):
    try:
        v = h.get(mv, attr)
    except (Missing, Dead):
        return None
    ls = v.locs()
    if len(ls) != 1 or not isinstance(h.st.heap.get(ls[0]), (Arr, Lst)):
        return None
    if isinstance(h.st.heap[ls[0]], Lst):
        el = h.ip.iter_exact(v, h.st)
        return None if el is None else [e.term for e in el]
    a = h.ip.arr(ls[0], h.st)
    if a.v.term is None:
        return None
    k = T.const(a.shape[0].term) if a.shape is not None and len(a.shape) == 1 and a.shape[0].term is not None else None
    if k is None:
        return None
    return [select_term(a.v.term, (num(i),)) for i in range(int(k))]


def species(rep, h, mv, sp, share, what, seen):
    n = len(sp)
    d = vec(h, mv, "n_traps_per_pixel", n)
    if d is None or any(x is None for x in d):
        rep.undecided("share", what, "densities not followed")
    elif len(d) != n:
        rep.violation("species", "%s holds every species once" % what, WHERE, "%d densities for %d species" % (len(d), n))
    else:
        for i, (k, de, tr, tc) in enumerate(sp):
            judge_same(rep, "share", "%s: species %d has the phase's share of its density" % (what, i + 1), WHERE, d[i], mul(de, share))
    for attr, want in (("emission_rates", lambda x: T.inv(x[2])), ("capture_rates", lambda x: T.inv(x[3]) if x[0] == "G" and T.const(x[3]) != 0 else None)):
        r = vec(h, mv, attr, n)
        if r is None or len(r) != n or any(x is None for x in r):
            if r is None:
                continue            # an implementation may keep its rates elsewhere
            rep.undecided("rates", "%s: %s" % (what, attr), "not followed")
            continue
        for i, x in enumerate(sp):
            if want(x) is not None:
                judge_same(rep, "rates", "%s: %s of species %d" % (what, attr, i + 1), WHERE, r[i], want(x))
    try:
        w = h.get(mv, "watermarks")
        ls = w.locs()
        a = h.ip.arr(ls[0], h.st) if len(ls) == 1 else None
    except (Missing, Dead):
        a = None
    if a is None or a.v.term is None:
        rep.undecided("state", what, "trap state not followed")
        return
    rep.expect(("W", ls[0]) not in seen, "separate", "%s has its own trap state" % what, WHERE)
    seen[("W", ls[0])] = what
    if a.shape is not None and len(a.shape) == 2 and a.shape[1].term is not None:
        judge_same(rep, "state", "%s: one column per species and one for the volumes" % what, WHERE, a.shape[1].term, num(n + 1))
    rep.expect(a.v.lo == 0 and a.v.hi == 0, "state", "%s: the traps start empty" % what, WHERE) if a.v.lo == a.v.hi else rep.undecided("state", "%s: the traps start empty" % what, "not followed")


def alone(rep, mods, how, gs):
    """a manager's species are its own: scaling one phase's densities changes no other phase's, nor the caller's"""
    name = "+".join(gs)
    try:
        h = H(mods, {"unroll": 12, "unroll_while": 12, "exact": True})
        spec, groups = build(h, gs)
        arg = groups[0][0] if how == "one" else h.put(Lst([h.put(Lst(g, None, None, "list")) for g in groups], None, None, "list"))
        shares = [h.sym("share%d_" % p, Fraction(1, 100), 1, unit=ONEU) for p in range(2)]
        ccd = h.new("CCD", h.put(Lst(shares, None, None, "list")), h.sym("depth", 1, unit=CHARGE))
        traps = [l for g in groups for t in g for l in t.locs()]
        al = h.new("AllTrapManager", arg, h.sym("max_n_transfers", 1, isint=True), ccd)
        mv = h.ip.iter_exact(h.ip.iter_exact(al, h.st)[0], h.st)[0]
        other = h.ip.iter_exact(h.ip.iter_exact(al, h.st)[1], h.st)[0]
        before = vec(h, other, "n_traps_per_pixel", len(spec[0]))
        h.ip.setattr(mv, "n_traps_per_pixel", h.put(Lst([h.sym("new%d_" % i, 1, unit=CHARGE) for i in range(len(spec[0]))], None, None, "list")), h.st, NODE, h.mod, None)
        after = vec(h, other, "n_traps_per_pixel", len(spec[0]))
        now = vec(h, mv, "n_traps_per_pixel", len(spec[0]))
        mine = [h.ip.getattr(t, "density", h.st, NODE, h.mod, None).term for g in groups for t in g]
    except (Missing, Dead, TypeError, IndexError) as e:
        rep.undecided("alone", name, repr(e))
        return
    rep.covered(h.ip)
    if any(x is None for x in (before, after, now)):
        rep.undecided("alone", name, "densities not followed")
        return
    for i in range(len(spec[0])):
        judge_same(rep, "alone", "%s: the densities of one phase can be set without changing another's (species %d)" % (name, i + 1), WHERE, after[i], before[i])
        judge_same(rep, "alone", "%s: densities that are set are those that are read (species %d)" % (name, i + 1), WHERE, now[i], sym("new%d_" % i, 1))
    for t, x in zip(mine, [x for sp in spec for x in sp]):
        judge_same(rep, "alone", "%s: the caller's species keep their density" % name, WHERE, t, x[1])


def rates(rep, mods, k):
    """the rates of a species are those of its time scales"""
    try:
        h = H(mods)
        spec, groups = build(h, [k])
        t = groups[0][0]
        em = h.ip.getattr(t, "emission_rate", h.st, NODE, h.mod, None).term
        ca = h.ip.getattr(t, "capture_rate", h.st, NODE, h.mod, None).term
    except (Missing, Dead) as e:
        rep.undecided("rates", KINDS[k], repr(e))
        return
    rep.covered(h.ip)
    w = "arcticpy/traps.py: Trap.__init__"
    judge_same(rep, "rates", "%s: rate of release" % KINDS[k], w, em, T.inv(spec[0][0][2]))
    judge_same(rep, "rates", "%s: rate of capture" % KINDS[k], w, ca, T.inv(spec[0][0][3]) if k == "G" else T.app("inf"))
