"""Probabilities and occupations stay between 0 and 1: the probabilities themselves, their limits and composition, and every operation on a trap state."""
from tm import *
from rules.c24 import number

WP = "arcticpy/trap_managers.py: TrapManager.fill_probabilities_from_dwell_time"


def run(mods, rep):
    jobs = [(probabilities, (mods, c, k, cap)) for c, k, cap in
            (("TrapManager", "Trap", None), ("TrapManager", "Trap", 0)) + tuple((c, k, None) for c, k in MANAGERS[1:])]
    jobs += [(operation, (mods, c, k, cap)) for c, k, cap in (("TrapManager", "Trap", None), ("TrapManager", "Trap", 0)) + tuple((c, k, None) for c, k in MANAGERS[1:])]
    jobs += [(limited, (mods, c, k)) for c, k in MANAGERS]
    jobs += [(release, (mods, c, k)) for c, k in MANAGERS[1:]]
    jobs += [(trap, (mods, k)) for k in ("Trap", "TrapInstantCapture", "TrapLogNormalLifetimeContinuum", "TrapLifetimeContinuumAbstract")]
    rep.parallel(jobs)


def at_infinity(t, x):
    """limit of t for x -> +inf through its exponentials, or None"""
    for _ in range(4):
        mp = {}
        for a in T.atoms_of(t):
            if a.op == "exp" and depends(T.of_atom(a), x):
                k = partial(a.args[0], x)
                s = sign(k)
                if depends(k, x):
                    return None
                if s == {-1}:
                    mp[a.id] = ZERO
                elif s == {1}:
                    mp[a.id] = None
        if not mp:
            break
        # exp(+..) only ever occurs with negative powers
        out = ZERO
        for m, c in t.p:
            y = num(c)
            for i, e in m:
                r = mp.get(i, 0)
                if r is None and e > 0:
                    return None
                if i in mp:
                    y = ZERO
                else:
                    y = mul(y, T._powe(T.of_atom(T._BYID[i]), e))
            out = add(out, y)
        t = out
    return None if depends(t, x) else t


def probabilities(rep, mods, cls, kind, cap):
    name = "%s%s" % (cls, ", instant capture" if cap == 0 else "")
    try:
        m = Man(mods, cls, kind, cap=cap)
        h = m.h
        dw = h.sym("dwell", 0, unit=TIME)
        r = h.meth(m.tm, "fill_probabilities_from_dwell_time", dw)
        parts = h.ip.iter_exact(r, h.st)
    except (Missing, Dead) as e:
        rep.undecided("probability", name, repr(e))
        return
    rep.covered(h.ip)
    if parts is None or len(parts) != 3:
        rep.undecided("probability", name, "result is not a triple")
        return
    ts = []
    for p in parts:
        a = m.arrays(p)
        ts.append(a[0].v.term if len(a) == 1 else p.term)
    if any(t is None or unknown_term(t) for t in ts):
        rep.undecided("probability", name, "not followed")
        return
    x = single_atom(dw.term).id
    names = ("fill from empty", "remain from full", "remain under release")
    finite = kind == "Trap" and cap is None
    for what, t in zip(names, ts):
        judge_range(rep, "probability", "%s: %s lies between 0 and 1" % (name, what), WP, t, 0, 1)
    pe, pf, pr = ts
    judge_mono(rep, "probability", "%s: %s falls with time" % (name, names[2]), WP, pr, x, DOWN)
    judge_same(rep, "limits", "%s: nothing is released in no time" % name, WP, T.subst(pr, {x: ZERO}), ONE)
    lim = at_infinity(pr, x)
    if lim is not None:
        judge_same(rep, "limits", "%s: everything is released in unlimited time" % name, WP, lim, ZERO)
    else:
        rep.undecided("limits", "%s: unlimited time" % name, str(pr)[:200])
    d1, d2 = sym("dwell1_", Fraction(1, 100)), sym("dwell2_", Fraction(1, 100))
    at = lambda t, d: T.subst(t, {x: d})
    judge_same(rep, "composition", "%s: release over two dwells" % name, WP, at(pr, add(d1, d2)), mul(at(pr, d1), at(pr, d2)))
    judge_same(rep, "release-law", "%s: release follows the time scale of the species" % name, WP, pr, T.exp(T.neg(T.div(dw.term, m.tau_r.term))))
    if finite:
        judge_same(rep, "limits", "%s: nothing is captured in no time" % name, WP, at(pe, ZERO), ZERO)
        judge_same(rep, "limits", "%s: full traps stay full in no time" % name, WP, at(pf, ZERO), ONE)
        judge_mono(rep, "probability", "%s: %s rises with time" % (name, names[0]), WP, pe, x, UP)
        judge_mono(rep, "probability", "%s: %s falls with time" % (name, names[1]), WP, pf, x, DOWN)
        ce = T.inv(m.tau_c.term)
        eq = T.div(ce, add(ce, T.inv(m.tau_r.term)))
        for w, t in (("from empty", pe), ("from full", pf)):
            lim = at_infinity(t, x)
            if lim is None:
                rep.undecided("limits", "%s: %s, unlimited time" % (name, w), str(t)[:200])
            else:
                judge_same(rep, "limits", "%s: %s, the balance of capture and release after unlimited time" % (name, w), WP, lim, eq)
        f = sym("occupied_", 0, 1)
        step = lambda d, y: add(mul(y, at(pf, d)), mul(sub(ONE, y), at(pe, d)))
        judge_same(rep, "composition", "%s: two dwells under a cloud act as one" % name, WP, step(add(d1, d2), f), step(d2, step(d1, f)))
    else:
        judge_same(rep, "limits", "%s: traps under a cloud are filled at once" % name, WP, pe, ONE)
        judge_same(rep, "limits", "%s: full traps under a cloud stay full" % name, WP, pf, ONE)


def judge_store(rep, rule, name, m, e):
    col = column(e)
    v = e.data.get("value")
    if v is None:
        return
    t = v.term
    what = "%s: value stored for an %s" % (name, "elapsed time" if m.track else "occupation")
    if col == 0:
        return
    hi = m.hi
    if v.lo >= 0 and v.hi <= hi and not v.nan:
        rep.ok(rule, what, e.where)
        return
    # a value that is itself an array: its content
    if t is None or v.unk:
        rep.undecided(rule, what, "value not followed at %s" % e.where)
        return
    b = T.bounds(t)
    if col is None and b == (-INF, INF):
        rep.undecided(rule, what, "columns not told apart at %s" % e.where)
        return
    if b[0] >= 0 and b[1] <= hi:
        rep.ok(rule, what, e.where)
        return
    if follows_nonneg(e.path, t) and (hi == INF or follows_nonneg(e.path, T.sub(num(hi), t))):
        rep.ok(rule, what, e.where)
        return
    if weighted_mean(t) or all(in_range(v, hi) for c, alts in cases(t) for v in alts):
        rep.ok(rule, what, e.where)
        return
    y = counterexample(t, e.path, 0, hi) if col == 1 else None
    if y is not None:
        rep.violation(rule, what, e.where, "can be %.3g: %s" % (y, str(t)[:300]))
    else:
        rep.undecided(rule, what, "%s: %s" % (e.where, str(t)[:300]))


def in_range(t, hi, depth=4):
    b = T.bounds(t)
    if b[0] >= 0 and b[1] <= hi:
        return True
    if depth == 0:
        return False
    # linear in a bounded cell: the extremes are at its ends
    inner = set(a.id for m, c in t.p for i, e in m for x in T._BYID[i].args if isinstance(x, Term) for a in T.atoms_of(x))
    for i in set(j for m, c in t.p for j, e in m):
        a = T._BYID[i]
        if a.op != "select" or not (-INF < a.lo and a.hi < INF) or i in inner or any(dict(m).get(i, 1) != 1 for m, c in t.p):
            continue
        return all(in_range(T.subst(t, {i: num(z)}), hi, depth - 1) for z in (a.lo, a.hi))
    return False


def weighted_mean(t):
    """sum(v*w) / sum(v) with v >= 0 and w in [0, 1]"""
    if len(t.p) != 1:
        return False
    m, c = t.p[0]
    top = bot = None
    for i, e in m:
        a = T._BYID[i]
        if a.op == "sum" and e == 1:
            top = a
        elif a.op == "sum" and e == -1:
            bot = a
        elif a.op == "inv" and e == 1:
            y = single_atom(a.args[0])
            bot = y if y is not None and y.op == "sum" else None
        else:
            return False
    if top is None or bot is None or c != 1 or top.args[0] is not bot.args[0]:
        return False
    v, vw = bot.args[1], top.args[1]
    if T.bounds(v)[0] < 0:
        return False
    return T.bounds(T.sub(v, vw))[0] >= 0 and T.bounds(vw)[0] >= 0


def operation(rep, mods, cls, kind, cap):
    """release and capture over a dwell, from any state"""
    name = "%s%s" % (cls, ", instant capture" if cap == 0 else "")
    try:
        m = Man(mods, cls, kind, OTHERS, cap=cap)
        h = m.h
        h.meth(m.tm, "n_electrons_released_and_captured", h.sym("free", 0, unit=CHARGE), m.fill, h.sym("dwell", Fraction(1, 1000), unit=TIME), vnum(1))
    except (Missing, Dead) as e:
        rep.undecided("history", name, repr(e))
        return
    rep.covered(h.ip)
    for e in m.stores():
        if "n_electrons" in e.where:
            judge_store(rep, "history", name, m, e)
    for en, path, w, env in m.enough:
        t = en.term
        what = "%s: the share of the capture there are electrons for lies between 0 and 1" % name
        if t is None:
            rep.undecided("history", what, "not followed")
        elif follows_nonneg(path, t) and follows_nonneg(path, T.sub(ONE, t)):
            rep.ok("history", what, w or WP)
        else:
            y = counterexample(t, path, 0, 1)
            if y is not None:
                rep.violation("history", what, w or "arcticpy/trap_managers.py: %s" % cls, "can be %.3g: %s where %s" % (y, str(t)[:200], [(str(c[0])[:100], c[1]) for c in path][-2:]))
            else:
                rep.undecided("history", what, str(t)[:200])


def limited(rep, mods, cls, kind):
    """when there are not enough electrons, the state is between the one before and the one after"""
    name = cls
    try:
        m = Man(mods, cls, kind, ("fractions", "times") if cls == "TrapManagerTrackTime" else ())
        h = m.h
        old = m.state("W0_")
        en = h.sym("enough", 0, 1)
        sv = h.st.copy()
        r = h.meth(m.tm, "updated_watermarks_from_capture_not_enough", m.W, old, en)
    except (Missing, Dead) as e:
        rep.undecided("limited", name, repr(e))
        return
    rep.covered(h.ip)
    if m.track:
        m.hi, m.track = 1, False
        for e in m.stores():
            judge_store(rep, "limited", name, m, e)
        return
    w = "arcticpy/trap_managers.py: %s.updated_watermarks_from_capture_not_enough" % cls
    a = m.arrays(r)
    if len(a) != 1 or a[0].v.term is None:
        rep.undecided("limited", name, "result not followed")
        return
    i, j = sym("level_", 0, isint=True), sym("species_", 1, isint=True)
    got = select_term(a[0].v.term, (i, j))
    v, v0 = (select_term(aatom("asym", (n,), 2, 0, 1), (i, j)) for n in ("W", "W0_"))
    judge_range(rep, "limited", "%s: between 0 and 1" % name, w, got, 0, 1)
    judge_same(rep, "limited", "%s: in proportion to the share there is" % name, w, got, add(mul(en.term, v), mul(sub(ONE, en.term), v0)))
    judge_same(rep, "limited", "%s: volumes are kept" % name, w, select_term(a[0].v.term, (i, ZERO)), select_term(aatom("asym", ("W",), 2, 0, 1), (i, ZERO)))


def release(rep, mods, cls, kind):
    name = "%s, release" % cls
    try:
        m = Man(mods, cls, kind)
        h = m.h
        w = h.species_sym("level", 0, m.hi, unit=TIME if m.track else ONEU)
        dw = h.sym("dwell", 0, unit=TIME)
        r = h.meth(m.tm, "update_watermark_values_for_release", w, dw)
    except (Missing, Dead) as e:
        rep.undecided("release", name, repr(e))
        return
    rep.covered(h.ip)
    a = m.arrays(r)
    t = a[0].v.term if len(a) == 1 else r.term
    if t is None:
        rep.undecided("release", name, "not followed")
        return
    W = "arcticpy/trap_managers.py: %s.update_watermark_values_for_release" % cls
    x = single_atom(dw.term).id
    judge_range(rep, "release", "%s: stays in range" % name, W, t, 0, m.hi)
    judge_same(rep, "release", "%s: nothing in no time" % name, W, T.subst(t, {x: ZERO}), w.term)
    judge_mono(rep, "release", "%s: %s with time" % (name, "more time has passed" if m.track else "less is held"), W, t, x, UP if m.track else DOWN)
    d1, d2 = sym("dwell1_", Fraction(1, 100)), sym("dwell2_", Fraction(1, 100))
    one = T.subst(t, {x: add(d1, d2)})
    wi = single_atom(w.term).id
    two = T.subst(T.subst(t, {x: d2}), {wi: T.subst(t, {x: d1})})
    judge_same(rep, "composition", "%s: two dwells act as one" % name, W, one, two)


def trap(rep, mods, kind):
    """the occupation of a species as a function of the time since it was full"""
    W = "arcticpy/traps.py: %s.fill_fraction_from_time_elapsed" % kind
    try:
        h = H(mods)
        tr = mk_trap(h, kind)
        x = h.sym("elapsed", 0, unit=TIME)
        f = h.meth(tr, "fill_fraction_from_time_elapsed", x)
    except (Missing, Dead) as e:
        rep.undecided("occupation", kind, repr(e))
        return
    rep.covered(h.ip)
    t = f.term
    if t is None or f.unk:
        rep.undecided("occupation", kind, "not followed")
        return
    xi = single_atom(x.term).id
    a = single_atom(t)
    if a is not None and a.op == "integral":
        # an average over time scales of the occupation at each of them, weighted with their distribution
        body = a.args[0]
        com = [b for b in T.atoms_of(body) if b.op == "exp" and depends(T.of_atom(b), xi)]
        if len(com) != 1:
            rep.undecided("occupation", kind, str(body)[:200])
            return
        t0 = T.subst(body, {xi: ZERO})
        g = T.of_atom(com[0])
        r = T.mul(body, T.inv(t0))
        mono = moves(g, xi)
        k = partial(com[0].args[0], xi)
        up = T.same(body, mul(t0, g)) is True or T.same(body, T.div(t0, g)) is True
        # body = weight * exp(-elapsed / time scale)
        ss = sign(k) if T.same(body, mul(t0, g)) is True else {-z for z in sign(k)}
        rep.expect(True if up and ss == {-1} else False if up and ss == {1} else None, "occupation",
                   "%s: falls with the time elapsed, for every time scale of the distribution" % kind, W, str(body)[:300])
        rep.expect(None if not up else True, "occupation", "%s: the distribution weights it the same at all times" % kind, W)
        whole(rep, kind, W, h, tr, T.subst(t, {xi: ZERO}))
        return
    judge_range(rep, "occupation", "%s: between 0 and 1" % kind, W, t, 0, 1)
    judge_mono(rep, "occupation", "%s: falls with the time elapsed" % kind, W, t, xi, DOWN)
    judge_same(rep, "occupation", "%s: full when no time has elapsed" % kind, W, T.subst(t, {xi: ZERO}), ONE)
    lim = at_infinity(t, xi)
    if lim is None:
        rep.undecided("occupation", "%s: unlimited time" % kind, str(t)[:200])
    else:
        judge_same(rep, "occupation", "%s: empty after unlimited time" % kind, W, lim, ZERO)


def whole(rep, kind, W, h, tr, t0):
    """with no time elapsed all traps of the distribution are full: it adds up to one, for narrow and wide distributions"""
    what = "%s: full when no time has elapsed" % kind
    if kind == "TrapLifetimeContinuumAbstract":
        return  # a distribution given by the user
    try:
        tau, sigma = (single_atom(h.get(tr, n).term).id for n in ("release_timescale_mu", "release_timescale_sigma"))
    except (Missing, Dead, AttributeError, KeyError):
        rep.undecided("occupation", what, "its time scales are not followed")
        return
    bad, n = "", 0
    for m, s in ((1.0, 0.7), (2.5, 0.3), (0.6, 1.1), (0.02, 0.5), (40.0, 0.2), (1.3, 2.6)):
        y = number(t0, {tau: m, sigma: s})
        if y is not None:
            n += 1
            if abs(y - 1) > 1e-5:
                bad = bad or "%.6g for the median %g and the width %g" % (y, m, s)
    rep.expect(False if bad else True if n == 6 else None, "occupation", what, W, bad)
