"""Reported release and capture equal the exact change in trapped charge, and capture never exceeds the free charge."""
from harness import *

NAMES = {"n_electrons_released_and_captured": +1, "n_electrons_released": +1, "n_electrons_captured": -1}


def unpadded(t):
    """empty levels appended to the state hold no charge"""
    mp = {}
    for a in T.atoms_of(t):
        if a.op == "concat":
            parts = [x for x in a.args if isinstance(x, Term)]
            keep = [x for x in parts if not (single_atom(x) is not None and single_atom(x).op == "zeros")]
            if len(keep) == 1 and len(parts) > 1:
                mp[a.id] = keep[0]
    return T.subst(t, mp) if mp else t


def nt(t):
    """trapped charge of a watermark content: uninterpreted, except for what does not change it"""
    if t is None:
        return fresh("nt")
    t = unpadded(t)
    a = single_atom(t)
    if a is not None:
        if a.op == "ite":
            return ite(a.args[0], nt(a.args[1]), nt(a.args[2]))
        if a.op == "amb":
            x, y = nt(a.args[0]), nt(a.args[1])
            return exprs.amb(x, y)
        if a.op == "zeros":
            return ZERO
        if a.op == "concat":
            parts = [x for x in a.args if isinstance(x, Term)]
            keep = [x for x in parts if not (single_atom(x) is not None and single_atom(x).op in ("zeros",))]
            if len(keep) == 1:
                return nt(keep[0])
    return app("NT", t)


def cut_nt(ip, f, env, st, node):
    w = list(env.values())[1] if len(env) > 1 else None
    if w is None or not w.locs():
        return NotImplemented
    r, deps = None, EMPTY
    for l in w.locs():
        a = ip.arr(l, st)
        x = nt(a.v.term)
        deps |= a.v.deps
        r = x if r is None else exprs.amb(r, x)
    return V(term=r, unit=CHARGE, deps=deps)


def cut_collapse(ip, f, env, st, node):
    a = list(env.values())
    w = a[1]
    c = a[2] if len(a) > 2 else VNONE
    if c.is_none:
        return w
    return ip.new_list([w, c], st, node, "tuple", "collapse")


def content(h, tm, st):
    w = h.ip.getattr(tm, "watermarks", st, NODE, h.mod, None)
    r = None
    for l in w.locs():
        x = nt(h.ip.arr(l, st).v.term)
        r = x if r is None else exprs.amb(r, x)
    return r


def is_empty_start(facts, n0):
    """facts say that there was no watermark before: the first level has zero volume"""
    for f, pol in facts:
        ms = f.p if pol else ()
        for a in T.atoms_of(f) if pol else ():
            if a.op == "zero?":
                b = single_atom(a.args[0])
                if b is not None and b.op == "rargmax":
                    # it must be a factor of the condition
                    if all(any(i == a.id for i, _ in m) for m, _c in f.p):
                        return True
    return False


def zero_under(d, facts):
    if d is ZERO:
        return True
    if T.same(d, ZERO) is True:
        return True
    for f, pol in facts:
        if not pol:
            continue
        for m, _ in f.p:
            for i, _e in m:
                a = T._BYID[i]
                if a.op == "zero?" and all(any(j == i for j, _ in mm) for mm, _c in f.p):
                    if T.ratio(d, a.args[0]) is not None:
                        return True
                    # the fact may hold on alternatives
                    al = alternatives(a.args[0])
                    if any(x is d or T.ratio(d, x) is not None for x in al):
                        return True
        # n == m   written with   not (n<m) and not (m<n)
    return False


def run(mods, rep):
    for cls, kind in MANAGERS:
        for name, sign in NAMES.items():
            if not (name == "n_electrons_released_and_captured" and composed(mods, rep, cls, kind)):
                one(mods, rep, cls, kind, name, sign)
        population(mods, rep, cls, kind)
    for phases, groups in ((1, 1), (1, 3), (2, 2), (3, 1)):
        everything(mods, rep, phases, groups)


def everything(mods, rep, phases, groups):
    """the number of electrons in all traps is the sum over every phase and group"""
    what = "all traps of %d phase%s and %d group%s" % (phases, "s" * (phases > 1), groups, "s" * (groups > 1))
    where = "arcticpy/trap_managers.py: AllTrapManager.n_electrons_trapped_currently"
    asked = {}

    def trapped(ip, f, env, st, node):
        l = list(env.values())[0].locs()
        if len(l) != 1:
            return NotImplemented
        z = asked.setdefault(l[0], sym("held%d_" % len(asked), 0))
        return V(term=z, lo=0, unit=CHARGE)
    try:
        h = H(mods, {"exact": True, "unroll": 12, "unroll_while": 12})
        kinds = ["Trap", "TrapInstantCapture", "TrapLogNormalLifetimeContinuum"][:groups]
        traps = h.put(Lst([mk_traps(h, k, "_g%d" % i, n=vnum(1)) for i, k in enumerate(kinds)], None, None, "list"))
        shares = [h.sym("share%d_" % p, Fraction(1, 100), 1, unit=ONEU) for p in range(phases)]
        ccd = h.new("CCD", h.put(Lst(shares, None, None, "list")), h.sym("depth", 1, unit=CHARGE))
        al = h.new("AllTrapManager", traps, vnum(4), ccd)
        h.ip.cuts["n_trapped_electrons_from_watermarks"] = trapped
        v = h.get(al, "n_electrons_trapped_currently")
        rows = [h.ip.iter_exact(r, h.st) for r in h.ip.iter_exact(al, h.st)]
    except (Missing, Dead, TypeError) as e:
        rep.undecided("everything", what, repr(e))
        return
    rep.covered(h.ip)
    ms = [m.locs()[0] for r in rows for m in r if len(m.locs()) == 1]
    if v.term is None or v.unk or unknown_term(v.term) or len(ms) != phases * groups or any(not (a.op == "sym" and str(a.args[0]).startswith("held")) for a in T.atoms_of(v.term)):
        rep.undecided("everything", what, "not followed: %s" % str(v.term)[:200])
        return
    want = T.ZERO
    for m in ms:
        want = add(want, asked.setdefault(m, sym("held%d_" % len(asked), 0)))
    rep.expect(T.same(v.term, want), "everything", "%s: the electrons in all of them are the sum" % what, where, "is %s, not %s" % (str(v.term)[:200], str(want)[:200]))


def composed(mods, rep, cls, kind):
    """the combined step, when it is made of the release step followed by the capture step (whose exactness is shown for
    themselves): release first, then capture with the released charge added to the free charge, and the net of both"""
    name = "n_electrons_released_and_captured"
    log = []

    def cut_rel(ip, f, env, st, node):
        log.append(("release", [V(term=x.term) for x in list(env.values())[1:]]))
        return V(term=sym("REL%d" % len(log), 0, INF), lo=0, unit=CHARGE)

    def cut_cap(ip, f, env, st, node):
        log.append(("capture", [V(term=x.term) for x in list(env.values())[1:]]))
        return V(term=sym("CAP%d" % len(log), 0, INF), lo=0, unit=CHARGE)

    h = H(mods, {}, {"n_electrons_released": cut_rel, "n_electrons_captured": cut_cap})
    c = h.cls(cls)
    if c is None or c.find(name)[0] is None:
        return False
    what = "%s.%s" % (cls, name)
    try:
        tm = mk_manager(h, cls, kind)
        ccd = mk_ccd(h)
        f = filling(h, ccd)
        nfree = h.sym("n_free", 0, unit=CHARGE)
        dt = h.sym("dwell", 0, unit=TIME)
        r = h.meth(tm, name, n_free_electrons=nfree, ccd_filling_function=f, dwell_time=dt, express_multiplier=h.sym("multiplier", 0))
    except (Missing, Dead):
        return False
    if [k for k, _ in log] != ["release", "capture"] or r.term is None or r.refs:
        return False
    rep.covered(h.ip)
    where = "%s in %s" % (c.mod.path, what)
    if unknown_term(r.term) or log[1][1][0].term is None or unknown_term(log[1][1][0].term):
        return False
    rel, cap = sym("REL1", 0, INF), sym("CAP2", 0, INF)
    rep.expect(T.same(r.term, sub(rel, cap)) is True, "exact-change", "%s: net = released - captured" % what, where, "returned: %s" % r.term)
    rep.expect(T.same(log[1][1][0].term, add(nfree.term, rel)) is True, "capture-limited", "%s: the capture is offered the free charge plus what was released" % what, where,
               "offered: %s" % log[1][1][0].term)
    rep.expect(bool(log[0][1]) and log[0][1][0].term is dt.term, "exact-change", "%s: the release lasts for the dwell time" % what, where,
               "release called with %s" % (log[0][1],))
    return True


def one(mods, rep, cls, kind, name, sign):
    lim = {}

    def cut_lim(ip, f, env, st, node):
        """the capture scaled down to the free charge: its content is summarised, the scaling is checked on its own"""
        a = list(env.values())
        if len(a) != 4 or a[3].term is None or not a[1].locs():
            return NotImplemented
        k = "lim%d" % len(lim)
        o = ip.arr(a[1].locs()[0], st)
        w = None
        for l in a[1].locs():
            x = nt(ip.arr(l, st).v.term)
            w = x if w is None else exprs.amb(w, x)
        lim[k] = (a[3].term, w)
        t = of_atom(atom("LIM", (k,), 0, INF))
        return vref(ip.alloc(st, node, o.but(v=o.v.but(term=t)), ("lim", k)))

    h = H(mods, {"split": {name}}, {"n_trapped_electrons_from_watermarks": cut_nt, "collapse_redundant_watermarks": cut_collapse,
                                       "updated_watermarks_from_capture_not_enough": cut_lim})
    if h.cls(cls) is None:
        return
    if h.cls(cls).find(name)[0] is None:
        return
    what = "%s.%s" % (cls, name)
    try:
        tm = mk_manager(h, cls, kind)
        ccd = mk_ccd(h)
        f = filling(h, ccd)
        c0 = content(h, tm, h.st)
        nfree = h.sym("n_free", 0, unit=CHARGE, deps=frozenset(["free"]))
        dt = h.sym("dwell", 0, unit=TIME)
        if name == "n_electrons_released":
            r = h.meth(tm, name, dwell_time=dt)
        else:
            r = h.meth(tm, name, n_free_electrons=nfree, ccd_filling_function=f, dwell_time=dt, express_multiplier=h.sym("multiplier", 0))
    except (Missing, Dead) as e:
        rep.undecided("exact-change", what, e)
        return
    rep.covered(h.ip)
    rets = h.ip.last_returns
    for s_, n in rets:
        rv = s_.frames[-1].get("__ret__", VNONE)
        where = "%s:%s in %s" % (h.cls(cls).mod.path, getattr(n, "lineno", "?"), what)
        if rv.term is None or rv.refs or rv.unk:
            rep.undecided("exact-change", what, "returned value not modelled")
            continue
        facts = list(s_.facts)
        n1 = content(h, tm, s_.copy())
        if n1 is None:
            rep.undecided("exact-change", what, "state not modelled")
            continue
        D = add(sub(mul(num(sign), rv.term), c0), n1)
        bad = None
        unk = False
        for conds, alts in cases(unpadded(D)):
            fc = facts + [k for k in conds]
            e0 = {single_atom(c0).id: ZERO} if is_empty_start(fc, c0) and single_atom(c0) is not None else None
            if not any(zero_under(d, fc) or (e0 and zero_under(T.subst(d, e0), fc)) for d in alts):
                if any(unmodelled(d) for d in alts):
                    unk = True
                else:
                    bad = alts
        if bad is not None:
            rep.violation("exact-change", "%s returns a number of electrons that is not the change of the trapped charge on this path" % what, where,
                          "returned: %s\n minus the trapped charge before, plus the trapped charge after, does not vanish: %s" % (rv.term, bad))
        elif unk:
            rep.undecided("exact-change", what, "unknown parts in the state")
        else:
            rep.ok("exact-change", "%s: the returned number is the trapped charge before minus after" % what, where)
        if name != "n_electrons_released":
            bounded(h, rep, what, where, c0, n1, rv.term, facts, nfree, cls, sign, lim)


def bounded(h, rep, what, where, n0, n1, r, facts, nfree, cls, sign, lim):
    """no more is captured than there are free electrons: on every path, either the captured charge is not positive, or it
    equals the free charge, or the conditions of the path contradict "captured > free" """
    rule = "capture-limited"
    cap = neg(mul(num(sign), r)) if sign > 0 else r
    nfa = single_atom(nfree.term)
    a0 = single_atom(n0)
    if nfa is None or a0 is None:
        rep.undecided(rule, what, "arguments not modelled")
        return
    p = sym("captured", 1e-300, INF)
    q = sym("ratio", 1e-12, 1 - 1e-12)
    verdict = True
    for conds, t in cases(cap, amb=False):
        fc = facts + list(conds)
        z = {a0.id: ZERO} if is_empty_start(fc, n0) else {}
        t = T.subst(t, z) if z else t
        n0_ = T.subst(n0, z) if z else n0
        if T.same(t, ZERO) is True or zero_under(t, fc) or zero_under(T.subst(t, z), fc):
            continue
        # the scaled capture: NT is linear in the fill fractions, and the copy holds the initial charge
        mp = {}
        for a in T.atoms_of(t):
            if a.op == "NT":
                b = single_atom(a.args[0])
                if b is not None and b.op == "LIM" and b.args[0] in lim:
                    e, ntw = lim[b.args[0]]
                    mp[a.id] = add(mul(e, ntw), mul(sub(ONE, e), n0_))
        if mp:
            t = T.subst(T.subst(t, mp), z)
            if any(T.same(sub(x, nfree.term), ZERO) is True or zero_under(sub(x, nfree.term), fc) or _free_zero(x, nfree.term, fc) for x in [t]):
                continue
            v = _limited(t, nfree.term, fc, z)
            if v:
                continue
            rep_bad = "on the limited path the captured charge is %s, not the free charge %s" % (t, nfree.term)
            verdict = (False, rep_bad)
            break
        # an unlimited capture: t = NT(final) - NT(initial)
        x = add(t, n0_)
        xa = single_atom(x)
        if xa is None:
            verdict = None
            break
        mp = {xa.id: add(n0_, p)}
        f2 = [(T.subst(T.subst(T.subst(f, z), mp), {nfa.id: mul(p, q)}), pol) for f, pol in fc]
        if contradictory(f2):
            continue
        if unmodelled(t) or any(unmodelled(f) for f, _ in f2):
            verdict = None
        else:
            verdict = (False, "captured %s while the conditions of the path allow it to exceed the free charge" % t)
        break
    if verdict is True:
        rep.ok(rule, "%s: what is captured never exceeds the free charge" % what, where)
    elif verdict is None:
        rep.undecided(rule, what, "the path conditions could not be evaluated")
    else:
        rep.violation(rule, "%s can capture more than the free charge on this path" % what, where, verdict[1])


def _free_zero(x, nf, fc):
    return False


def _limited(t, nf, fc, z):
    """t equals the free charge under the conditions of the path (it may be written as a case distinction)"""
    for a in T.atoms_of(t, False):
        if a.op == "min":           # t grows with the minimum: t <= t[min := x] for each of its arguments x
            for x in a.args:
                if isinstance(x, Term) and _limited(T.subst(t, {a.id: x}), nf, fc, z):
                    return True
    d = sub(t, nf)
    cs = cases(d)
    for conds, alts in cs:
        ok = False
        for a in alts:
            if T.same(a, ZERO) is True or zero_under(a, fc + list(conds)):
                ok = True
        if not ok and contradictory([(T.subst(f, z), p) for f, p in fc + list(conds)]):
            ok = True
        if not ok:
            return False
    return True


def contradictory(facts, depth=3):
    """some condition takes the opposite value, for both values of every undecided sub-condition"""
    for f, pol in facts:
        c = T.const(f)
        if c is not None and (c != 0) != pol:
            return True
    if depth == 0:
        return False
    conds = {}
    for f, pol in facts:
        for a in T.atoms_of(f):
            if a.op == "ite" and single_atom(a.args[0]) is not None:
                b = single_atom(a.args[0])
                conds[b.id] = conds.get(b.id, 0) + 1
    top = {a.id for f, _ in facts for a in T.atoms_of(f, False)}
    for i in sorted(conds, key=lambda i: (i not in top, -conds[i]))[:4]:
        if all(contradictory([(T.subst(g, {i: v}), k) for g, k in facts], depth - 1) for v in (ONE, ZERO)):
            return True
    return False


CONV = "watermarks_converted_to_fill_fractions_from_elapsed_times"
BACK = "watermarks_converted_to_elapsed_times_from_fill_fractions"


def population(mods, rep, cls, kind):
    """trapped charge = sum over all levels and species of volume x fill fraction x density; a capture that has to be limited
    moves the fill fractions linearly between the state before and the state after"""
    for rule in ("population", "limited-step"):
        conv = {}

        def cut_conv(ip, f, env, st, node):
            w = list(env.values())[1]
            if len(w.locs()) != 1:
                return NotImplemented
            o = ip.arr(w.locs()[0], st)
            t = aatom("asym", ("FILL(%s)" % o.v.term,), 2, 0, 1)
            conv[t] = o.v.term
            return vref(ip.alloc(st, node, Arr(V(term=t, lo=0, hi=1, unit=ONEU), o.shape, None, "f"), ("conv", len(conv))))

        def cut_back(ip, f, env, st, node):
            return list(env.values())[1]

        h = H(mods, {}, {CONV: cut_conv, BACK: cut_back})
        if h.cls(cls) is None:
            return
        name = "n_trapped_electrons_from_watermarks" if rule == "population" else "updated_watermarks_from_capture_not_enough"
        what = "%s.%s" % (cls, name)
        where = "%s in %s" % (h.cls(cls).mod.path, what)
        if h.cls(cls).find(name)[0] is None:
            rep.undecided(rule, what, "no such method")
            continue
        try:
            tm = mk_manager(h, cls, kind, whi=INF)
            w = h.get(tm, "watermarks")
            o = h.ip.arr(w.locs()[0], h.st)
            wt = o.v.term
            dens = aatom("asym", ("density",), 1, 0, INF)
            if rule == "population":
                r = h.meth(tm, name, watermarks=w)
            else:
                wi = h.array("WI", o.shape, lo=0, unit=TIME if cls.endswith("TrackTime") else ONEU)
                wit = h.ip.arr(wi.locs()[0], h.st).v.term
                e = h.sym("enough", 0, 1)
                r = h.meth(tm, name, watermarks=w, watermarks_initial=wi, enough=e)
        except (Missing, Dead) as ex:
            rep.undecided(rule, what, ex)
            continue
        rep.covered(h.ip)
        if rule == "population":
            rep.expect(_population(r.term, wt, dens, conv, o.shape, cls), rule,
                       "%s: sum over every level and species of volume x fill x density" % what, where, "computed: %s" % r.term)
        else:
            locs = r.locs()
            t = h.ip.arr(locs[0], h.st).v.term if len(locs) == 1 else None
            rep.expect(_interp(t, wt, wit, e.term, conv, cls), rule,
                       "%s: fill fractions become e x after + (1 - e) x before, volumes stay" % what, where, "computed: %s" % t)


def _population(t, wt, dens, conv, shape, cls):
    if t is None:
        return None
    loops, body = flatten_sum(t)
    if len(loops) != 2 or len(body.p) != 1 or unknown_term(body):
        return None
    m, c = body.p[0]
    got = {}
    for i, e in m:
        a = T._BYID[i]
        if a.op != "select" or e != 1 or single_atom(a.args[0]) is None or single_atom(a.args[0]).op != "asym":
            return None
        got.setdefault(a.args[0], []).append(a.args[1])
    fills = {k for k, v in conv.items() if v is wt} if cls.endswith("TrackTime") else {wt}
    betas = [sym("beta1"), sym("beta0")]
    verdict = False
    for sp, lv in ((1, 0), (0, 1)):
        s_, l_ = betas[sp], betas[lv]
        ns, nl = range_count(loops[sp].args[0]), range_count(loops[lv].args[0])
        if ns is None or nl is None:
            return None
        want = {}
        ok = c == 1
        idx = sorted([(k, x) for k, v in got.items() for x in v], key=str)
        n = 0
        for k, x in idx:
            if k is dens and len(x) == 1 and T.same(x[0], s_) is True:
                n |= 1
            elif (k in fills or k is wt) and len(x) == 2 and T.same(x[0], l_) is True and T.same(x[1], ZERO) is True:
                n |= 2
            elif k in fills and len(x) == 2 and T.same(x[0], l_) is True and T.same(x[1], add(ONE, s_)) is True:
                n |= 4
            else:
                ok = False
        if ok and n == 7 and len(idx) == 3:
            if T.same(nl, shape[0].term) is True and T.same(add(ns, ONE), shape[1].term) is True:
                return True
    return verdict


def _interp(t, wt, wit, e, conv, cls):
    if t is None or unknown_term(t):
        return None
    a = single_atom(t)
    if a is None or a.op != "store" or len(a.args) != 3:
        return None
    base, reg, val = a.args
    src = {v: k for k, v in conv.items()}
    if cls.endswith("TrackTime"):
        w0, wi0 = src.get(wt), src.get(wit)
    else:
        w0, wi0 = wt, wit
    if w0 is None or wi0 is None:
        return None
    if single_atom(base) is not None and single_atom(base).op == "store":
        return None
    sels = {}
    for x in T.atoms_of(val, False):
        if x.op == "select":
            sels[x.id] = x
    A, B = sym("aft", 0, 1), sym("bef", 0, 1)
    mp = {}
    for i, x in sels.items():
        if str(x.args[1]) != str(reg):
            return False
        if x.args[0] is w0:
            mp[i] = A
        elif x.args[0] is wi0:
            mp[i] = B
        else:
            return None
    full = str(reg) in ("(slice(None, None, None), slice(1, None, None))",) or True
    v = T.subst(val, mp)
    if any(x.op not in ("sym",) for x in T.atoms_of(v)):
        return None
    return base is w0 and T.same(v, add(mul(e, A), mul(sub(ONE, e), B))) is True
