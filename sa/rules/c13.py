"""The filling of a pixel by a charge cloud: range, monotonicity, and its two ends, for every phase and for buried and surface traps."""
from fractions import Fraction
from shape import *
from harness import *

WHERE = "arcticpy/ccd.py: CCD.well_filling_function"
C = frozenset(["ccd"])


def run(mods, rep):
    jobs = []
    for way in ("function", "direct", "manager"):
        for surface in ((False, True) if way != "manager" else (False,)):
            for phases, ph in ((1, 0), (2, 0), (2, 1), (3, 2)):
                jobs.append((curve, (mods, way, surface, phases, ph)))
    jobs.append((default_bloom, (mods,)))
    rep.parallel(jobs)


def sensor(h, phases, surface=False, bloom=True):
    """a CCD whose phases all differ: an empty level, some depth above it, the other empty level anywhere"""
    out = []
    for p in range(phases):
        s = str(p) + "_"
        empty = h.sym("empty" + s, 0, unit=CHARGE, deps=C)
        D = h.sym("range" + s, 0, unit=CHARGE, deps=C)
        full = h.ip.binop(ast.Add(), empty, D, h.st, NODE)
        other = h.sym("other" + s, 0, unit=CHARGE, deps=C)
        power = h.sym("power" + s, Fraction(1, 20), deps=C)
        out.append((other, D, full, empty, power) if surface else (empty, D, full, other, power))
    w = (lambda k: h.put(Lst([x[k] for x in out], None, None, "list"))) if phases > 1 else (lambda k: out[0][k])
    fr = h.put(Lst([h.sym("share%d_" % p, 0, 1) for p in range(phases)], None, None, "list"))
    ccd = h.new("CCD", fr, w(2), w(0), w(4), w(3) if bloom else vref(NONE))
    return ccd, out


def value(h, way, ccd, n, surface, phases, ph):
    pv = vnum(ph)
    if way == "function":
        f = h.meth(ccd, "well_filling_function", pv)
        return h.ip.call(f, [n] + ([vnum(True)] if surface else []), {}, h.st, h.node(), h.mod, None)
    if way == "direct":
        return h.meth(ccd, "cloud_fractional_volume_from_n_electrons_and_phase", n, pv, *([vnum(True)] if surface else []))
    tm = mk_manager(h, "TrapManager", "Trap")
    f = h.meth(ccd, "well_filling_function", pv)
    return h.meth(tm, "fraction_of_traps_exposed_from_n_electrons", n, f)


def curve(rep, mods, way, surface, phases, ph):
    name = "%s traps, phase %d of %d%s" % ("surface" if surface else "buried", ph, phases,
                                          {"function": "", "direct": ", by phase number", "manager": ", as the traps see it"}[way])
    try:
        h = H(mods)
        ccd, par = sensor(h, phases, surface)
        n = h.sym("electrons", 0, unit=CHARGE, deps=frozenset(["image"]))
        v = value(h, way, ccd, n, surface, phases, ph)
    except (Missing, Dead) as e:
        rep.undecided("filling", name, repr(e))
        return
    rep.covered(h.ip)
    t = v.term
    if t is None or v.unk:
        rep.undecided("filling", name, "value not followed")
        return
    notch, D, full, bloom, power = [x.term for x in par[ph]]
    x = single_atom(n.term).id
    empty = bloom if surface else notch
    judge_range(rep, "filling", "%s: between none and all of the pixel" % name, WHERE, t, 0, 1, (x,))
    judge_mono(rep, "filling", "%s: never less for more electrons" % name, WHERE, t, x)
    # at or below the empty level: an arbitrary fraction of it
    fr = sym("part_", 0, 1)
    judge_same(rep, "filling", "%s: nothing at or below the %s level" % (name, "bloom" if surface else "notch"), WHERE,
               T.subst(t, {x: mul(fr, empty)}), ZERO)
    judge_same(rep, "filling", "%s: nothing exactly at the %s level" % (name, "bloom" if surface else "notch"), WHERE, T.subst(t, {x: empty}), ZERO)
    judge_same(rep, "filling", "%s: nothing exactly at the %s level, with no depth above it" % (name, "bloom" if surface else "notch"), WHERE,
               T.subst(t, {x: empty, single_atom(D).id: ZERO}), ZERO)
    what = "%s: nothing for a pixel below zero" % name
    try:
        below = value(h, way, ccd, h.sym("deficit_", -INF, -Fraction(1, 1000), unit=CHARGE, deps=frozenset(["image"])), surface, phases, ph)
        if below.unk or below.term is None:
            rep.undecided("filling", what, "value not followed")
        else:
            judge_same(rep, "filling", what, WHERE, below.term, ZERO)
    except (Missing, Dead) as e:
        rep.undecided("filling", what, repr(e))
    judge_same(rep, "filling", "%s: nothing for an empty pixel" % name, WHERE, T.subst(t, {x: ZERO}), ZERO)
    # the full depth and above; there is some depth above the empty level
    d = sym("depth_", Fraction(1, 10))
    mp = {single_atom(D).id: d}
    tt = T.subst(t, mp)
    ff = T.subst(full, mp)
    judge_same(rep, "filling", "%s: all of it at the full depth" % name, WHERE, T.subst(tt, {x: ff}), ONE)
    judge_same(rep, "filling", "%s: all of it above the full depth" % name, WHERE, T.subst(tt, {x: add(ff, sym("excess_", 0))}), ONE)
    # nothing of another phase
    for q in range(phases):
        if q == ph:
            continue
        ids = set(a.id for z in par[q] for a in T.atoms_of(z.term) if a.op == "sym") - set(a.id for z in par[ph] for a in T.atoms_of(z.term))
        used = [a for a in T.atoms_of(t) if a.id in ids]
        rep.expect(not used, "own-phase", "%s: does not use the settings of phase %d" % (name, q), WHERE, "uses %s" % used[:2])


def default_bloom(rep, mods):
    """with no bloom level, the surface is reached at the full depth: no charge below it touches the surface"""
    for phases, ph in ((1, 0), (2, 1)):
        name = "surface traps without a bloom level, phase %d of %d" % (ph, phases)
        try:
            h = H(mods)
            ccd, par = sensor(h, phases, False, bloom=False)
            n = h.sym("electrons", 0, unit=CHARGE, deps=frozenset(["image"]))
            v = value(h, "function", ccd, n, True, phases, ph)
        except (Missing, Dead) as e:
            rep.undecided("filling", name, repr(e))
            continue
        rep.covered(h.ip)
        if v.term is None or v.unk:
            rep.undecided("filling", name, "value not followed")
            continue
        x = single_atom(n.term).id
        judge_same(rep, "filling", "%s: nothing up to the full depth" % name, WHERE, T.subst(v.term, {x: mul(sym("part_", 0, 1), par[ph][2].term)}), ZERO)
        judge_same(rep, "filling", "%s: nothing exactly at the full depth" % name, WHERE, T.subst(v.term, {x: par[ph][2].term}), ZERO)
        judge_range(rep, "filling", "%s: between none and all of the pixel" % name, WHERE, v.term, 0, 1, (x,))
