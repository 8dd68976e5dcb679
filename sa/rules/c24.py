"""Occupation and elapsed time convert into each other consistently; releases equal the drop in occupation; the conversions of trap states leave volumes untouched."""
import math

from tm import *

WT = "arcticpy/traps.py: %s.%s"
WM = "arcticpy/trap_managers.py: TrapManagerTrackTime.%s"
KINDS = ("Trap", "TrapInstantCapture", "TrapLifetimeContinuumAbstract", "TrapLogNormalLifetimeContinuum")
FILL, TIMES, REL_E, REL_T = ("fill_fraction_from_time_elapsed", "time_elapsed_from_fill_fraction", "electrons_released_from_electrons_and_dwell_time",
                             "electrons_released_from_time_elapsed_and_dwell_time")
TO_F, TO_T = "watermarks_converted_to_fill_fractions_from_elapsed_times", "watermarks_converted_to_elapsed_times_from_fill_fractions"


def run(mods, rep):
    jobs = [(species, (mods, k)) for k in KINDS]
    for S in (1, 2) if rep.tier != "thorough" else (1, 2, 3):
        for K in (0, 1, 2) if rep.tier != "thorough" else (0, 1, 2, 3):
            for name in (TO_F, TO_T):
                for kind in ("TrapLogNormalLifetimeContinuum", "TrapInstantCapture"):
                    jobs.append((conversion, (mods, name, kind, S, K)))
    rep.parallel(jobs)


# ---------------------------------------------------------------- integrals
def merged(t):
    """a linear combination of integrals over the same range is one integral: ({range: (integrand, low, high)}, the rest), or None"""
    out, rest = {}, ZERO
    for m, c in t.p:
        ints = [(i, e) for i, e in m if T._BYID[i].op == "integral"]
        if not ints:
            rest = add(rest, Term(((m, c),)))
            continue
        if len(ints) > 1 or ints[0][1] != 1:
            return None
        f, a, b = T._BYID[ints[0][0]].args[:3]
        k = Term(((tuple(x for x in m if x != ints[0]), c),))
        key = (a.id if hasattr(a, "id") else str(a), str(b))
        g = out.get(key, (ZERO, a, b))[0]
        out[key] = (add(g, mul(k, f)), a, b)
    return out, rest


Term = T.Term


def equal(x, y):
    """True when x and y have the same normal form once integrals over the same range are put together"""
    d = T.sub(x, y)
    if d is ZERO:
        return True
    r = merged(d)
    if r is None:
        return None
    parts, rest = r
    if rest is ZERO and all(vanishes(f) for f, a, b in parts.values()):
        return True
    return None


def vanishes(f):
    if f is ZERO:
        return True
    if opaque(f):
        return False
    for k in range(8):
        v = T.Valuation(k)
        parts = [v.term(Term((p,))) for p in f.p]
        if any(isinstance(x, complex) or math.isnan(x) or math.isinf(x) for x in parts) or abs(sum(parts)) > 1e-9 * sum(map(abs, parts)):
            return False
    return True


def nodes(lo, hi):
    if lo == 0 and hi == math.inf:
        return [(math.exp(u / 25), math.exp(u / 25) / 25) for u in range(-450, 451)]
    if lo == -math.inf and hi == math.inf:
        return [(u / 25, 1 / 25) for u in range(-450, 451)]
    if 0 <= lo < hi:
        # equal steps of the logarithm, at their middles
        a, b = math.log(lo) if lo > 0 else -18.0, min(math.log(hi), 18.0) if hi != math.inf else 18.0
        n = 1200
        w = (b - a) / n
        return [(math.exp(a + (i + 0.5) * w), math.exp(a + (i + 0.5) * w) * w) for i in range(n)] if w > 0 else None
    return None


def number(t, fixed):
    """the value of a value number for given inputs, its integrals evaluated by quadrature; None when it has other unknown parts"""
    if t is None or t.unknown:
        return None
    mp = {}
    for a in T.atoms_of(t):
        if a.op == "integral":
            f, lo, hi = a.args[:3]
            xs = [b for b in T.atoms_of(f) if b.op == "sym" and str(b.args[0]).startswith("quadx")]
            if len(xs) != 1 or any(b.op in ("integral", "root") for b in T.atoms_of(f)) or opaque(f):
                return None
            n = nodes(T.Valuation(0, fixed).term(lo), T.Valuation(0, fixed).term(hi))
            if n is None:
                return None
            s = 0.0
            for x, w in n:
                y = T.Valuation(0, {**fixed, xs[0].id: x}).term(f)
                if isinstance(y, complex) or math.isnan(y) or math.isinf(y):
                    y = 0.0
                s += w * y
            z = sym("value of integral %d" % a.id, -INF, INF)
            mp[a.id] = z
            fixed = {**fixed, single_atom(z).id: s}
    t = T.subst(t, mp) if mp else t
    if opaque(t):
        return None
    y = T.Valuation(0, fixed).term(t)
    return None if isinstance(y, complex) or math.isnan(y) else y


def samples(par, xs, wide=False):
    """some values of the inputs: time scales and widths not small against the times; wide: very short and very long times too"""
    base = [(1.0, 0.7), (2.5, 0.3), (0.6, 1.1)]
    vals = [(0.8, 0.5, 0.35), (0.3, 1.7, 0.6), (2.1, 0.9, 0.15)]
    if wide:
        base += [(1.0, 0.7), (3.0, 0.7), (0.001, 0.4), (5000.0, 0.4)]
        vals += [(14.0, 6.0, 0.0001), (0.0007, 0.0003, 0.9995), (0.002, 0.0004, 0.5), (900.0, 7000.0, 0.3)]
    for (tau, sig), v in zip(base, vals):
        f = {}
        for p in par:
            f[p[0]] = {"tau": tau, "sigma": sig, "density": 1.7}[p[1]]
        for x, y in zip(xs, v):
            f[x] = y
        yield f


def judge(rep, rule, what, where, got, want, par, xs):
    if got is None or want is None:
        rep.undecided(rule, what, "not followed")
        return
    if equal(got, want) is True:
        rep.ok(rule, what, where)
        return
    n = bad = 0
    ev = ""
    for f in samples(par, xs, not any(a.op in ("integral", "root") for t in (got, want) for a in T.atoms_of(t))):
        x, y = number(got, f), number(want, f)
        if x is None or y is None:
            continue
        n += 1
        if abs(x - y) > 1e-5 * max(abs(x), abs(y), 1e-3):
            bad += 1
            ev = "%.6g, not %.6g" % (x, y)
    if bad:
        rep.violation(rule, what, where, "%s: is %s, not %s" % (ev, str(got)[:200], str(want)[:200]))
    else:
        s = None if opaque(got) or opaque(want) else T.same(got, want)
        if s is True and not opaque(got):
            rep.ok(rule, what, where)
        else:
            rep.undecided(rule, what, str(got)[:200] + (" agrees at %d points" % n if n else ""))


def species(rep, mods, kind):
    try:
        h = H(mods)
        tr = mk_trap(h, kind)
        h.ip.cuts.pop(FILL, None)
        t = h.sym("elapsed24", Fraction(1, 100), 50, unit=TIME)
        d = h.sym("dwell24", Fraction(1, 100), 50, unit=TIME)
        f = h.sym("occupied24", Fraction(1, 100), Fraction(99, 100))
        e = h.sym("electrons24", 0, INF, unit=CHARGE)
        td = h.ip.binop(ast.Add(), t, d, h.st, NODE)
        fill = {k: h.meth(tr, FILL, v) for k, v in (("t", t), ("d", d), ("td", td))}
    except (Missing, Dead) as x:
        rep.undecided("release", kind, repr(x))
        return
    rep.covered(h.ip)
    par = []
    for a in (h.get(tr, "release_timescale"), h.get(tr, "density")):
        z = single_atom(a.term) if a.term is not None else None
        if z is not None:
            par.append((z.id, "density" if a.unit == CHARGE or "density" in str(z.args[0]) else "tau"))
    if "Lifetime" in kind:
        try:
            z = single_atom(h.get(tr, "release_timescale_sigma").term)
            par.append((z.id, "sigma"))
        except (Missing, Dead, AttributeError, KeyError):
            pass
    ft, fd, ftd = (fill[k].term for k in ("t", "d", "td"))
    xs = [single_atom(v.term).id for v in (t, d, f)]
    num_e = single_atom(e.term).id

    def method(rule, name, what, args, want, fixed=()):
        try:
            r = h.meth(tr, name, *args)
        except (Missing, Dead) as x:
            rep.undecided(rule, "%s.%s" % (kind, name), repr(x))
            return
        if r.unk or r.term is None:
            rep.undecided(rule, "%s.%s" % (kind, name), "not followed")
            return
        judge(rep, rule, "%s: %s" % (kind, what), WT % (kind, name), r.term, want, par + list(fixed), xs)

    method("release", REL_T, "the electrons a trap full some time ago releases are the drop in its occupation", (t, d), sub(ft, ftd) if None not in (ft, ftd) else None)
    method("release", REL_E, "the electrons released by full traps are those not left in them", (e, d),
           sub(e.term, mul(e.term, fd)) if fd is not None else None, [(num_e, "density")])
    inverse(rep, mods, kind, h, tr, t, f, ft, par, xs)


def inverse(rep, mods, kind, h, tr, t, f, ft, par, xs):
    where = WT % (kind, TIMES)
    there = "%s: the time elapsed found for an occupation is the one that leaves this occupation" % kind
    back = "%s: the time elapsed found for the occupation of a time is this time" % kind
    try:
        x = h.meth(tr, TIMES, f)
    except (Missing, Dead) as e:
        rep.undecided("round-trip", kind, repr(e))
        return
    xt = x.term
    if xt is None or x.unk or ft is None:
        rep.undecided("round-trip", kind, "not followed")
        return
    roots = [a for a in T.atoms_of(xt) if a.op == "root"]
    if not roots:
        try:
            y = h.meth(tr, FILL, x)
            judge(rep, "round-trip", there, where, y.term, f.term, par, xs)
            z = h.meth(tr, TIMES, fill_value(h, tr, t))
            judge(rep, "round-trip", back, where, z.term, t.term, par, xs)
        except (Missing, Dead) as e:
            rep.undecided("round-trip", kind, repr(e))
        return
    if len(roots) != 1:
        rep.undecided("round-trip", kind, "several equations solved")
        return
    g = roots[0].args[0]
    rx = [a for a in T.atoms_of(g) if a.op == "sym" and a.args[0] == "rootx"]
    # the value returned is the solution itself
    s = sym("the solution24", Fraction(1, 100), INF)
    judge(rep, "round-trip", "%s: the time elapsed is the solution of the equation" % kind, where, T.subst(xt, {roots[0].id: s}), s, par, xs)
    if len(rx) != 1:
        rep.undecided("round-trip", there, "equation does not contain the unknown once: " + str(g)[:200])
        return
    ti = single_atom(t.term).id
    want = sub(ft, f.term)
    got = T.subst(g, {rx[0].id: t.term})
    if equal(got, want) is True or equal(T.neg(got), want) is True:
        rep.ok("round-trip", there, where)
        return
    fi = single_atom(f.term).id
    bad = n = 0
    for v in samples(par, xs):
        o = number(ft, v)
        if o is None:
            continue
        y = number(got, {**v, fi: o})
        o2 = number(got, {**v, fi: 0.5 * o})
        if y is None:
            continue
        n += 1
        if abs(y) > 1e-4 or (o2 is not None and abs(o2) < 1e-12):
            bad += 1
    if bad:
        rep.violation("round-trip", there, where, "the equation solved, %s = 0, does not hold for the occupation after that time" % str(got)[:300])
    else:
        rep.undecided("round-trip", there, str(got)[:200] + (" agrees at %d points" % n if n else ""))


def fill_value(h, tr, t):
    return h.meth(tr, FILL, t)


# ---------------------------------------------------------------- states
def conversion(rep, mods, name, kind, S, K):
    R = K + 2
    what = "%s, %d species of %s, %d levels" % (name.split("_from_")[0].split("converted_")[1], S, kind, K)
    where = WM % name
    try:
        m = Small(mods, "TrapManagerTrackTime", kind, S)
        h = m.h
        log = {}

        def law(tag, fresh_lo, fresh_hi):
            def cut(ip, f, env, st, node):
                vs = list(env.values())
                if len(vs) != 2 or vs[1].term is None or not vs[0].locs():
                    return NotImplemented
                i = traps.get(vs[0].locs()[0])
                if i is None:
                    return NotImplemented
                v = relet(V(term=T.of_atom(T.atom("sym", ("%s of species %d at %s" % (tag, i, vs[1].term),), fresh_lo, fresh_hi)), lo=fresh_lo, hi=fresh_hi, deps=vs[1].deps))
                log[single_atom(v.term).id] = (tag, i, vs[1].term)
                return v
            return cut
        traps = {t.locs()[0]: i for i, t in enumerate(h.ip.iter_exact(h.get(m.tm, "traps"), h.st))}
        h.ip.cuts[FILL] = law("occupation", Fraction(1, 100), Fraction(99, 100))
        h.ip.cuts[TIMES] = law("time", Fraction(1, 100), 50)
        lv = m.levels(K, "c24")
        W = m.put_levels(lv, R)
        before = m.read(W, R)
        r = h.meth(m.tm, name, W)
        got, after = m.read(r, R), m.read(W, R)
    except (Missing, Dead, KeyError, TypeError) as e:
        rep.undecided("states", what, repr(e))
        return
    rep.covered(h.ip)
    tag = "occupation" if name == TO_F else "time"
    if got is None:
        rep.undecided("states", what, "state not followed")
        return
    for i in range(R):
        x, w = got[i][0], lv[i][0] if i < K else ZERO
        judge(rep, "volumes", "%s: volume of level %d stays" % (what, i), where, x, w, (), ())
    for i in range(K):
        for s in range(S):
            x = got[i][s + 1]
            a = single_atom(x)
            o = lv[i][1][s]
            ob = "%s: level %d, species %d is converted by the law of the species" % (what, i, s)
            if a is not None and a.id in log:
                tg, j, arg = log[a.id]
                if tg == tag and j == s and T.same(arg, o) is True:
                    rep.ok("states", ob, where)
                elif unknown_term(arg) or opaque(arg) and T.same(arg, o) is not False:
                    rep.undecided("states", ob, str(arg)[:200])
                else:
                    rep.violation("states", ob, where, "is the %s of species %d at %s" % (tg, j, str(arg)[:120]))
            elif T.same(x, o) is True:
                rep.violation("states", ob, where, "is not converted")
            else:
                rep.undecided("states", ob, str(x)[:200])
    if after is not None:
        expect_cells(rep, "states", "%s: the state given is left alone" % what, where, after, before)
