"""Removal applies the forward model to the current estimate and adds the difference to the input, the given number of times."""
from drv import *


def run(mods, rep):
    jobs = []
    for frame in (False, True):
        for n in (0, 1, 2, 3, 4, 13) if rep.tier != "thorough" else (0, 1, 2, 3, 4, 7, 13, 30, 70):
            jobs.append((concrete, (mods, n, frame)))
        jobs.append((symbolic, (mods, frame)))
    rep.parallel(jobs)


def go(mods, frame, n, opts=None):
    calls = []

    def cut(ip, f, env, st, node):
        img = list(env.values())[0]
        r = None
        os_ = [ip.arr(l, st) for l in img.locs() if isinstance(st.heap.get(l), Arr)]
        if not os_:
            return NotImplemented
        o = os_[0]
        x = plain(o.v.term)
        for y in os_[1:]:
            x = exprs.amb(x, plain(y.v.term))
        t = app("F", x)
        ARRND[single_atom(t).id] = 2
        calls.append(t)
        return vref(ip.alloc(st, node, o.but(v=o.v.but(term=t), cells={}, view=None), "F"))
    s = scenario(mods, entry="remove_cti", cuts={"add_cti": cut}, n_iter=n, frame=frame, opts=opts, window=None)
    rs = [s.h.ip.arr(l, s.h.st) for l in s.result.locs() if isinstance(s.h.st.heap.get(l), Arr)]
    got = plain(rs[0].v.term) if len(rs) == 1 and not s.result.unk and rs[0].v.term is not None else None
    img = s.h.ip.arr(s.image.locs()[0], s.before).v.term
    return s, calls, got, img


from rules.c08 import plain  # noqa: E402


def fapp(t):
    r = app("F", t)
    ARRND[single_atom(r).id] = 2
    return r


def known(t):
    return not unknown_term(t) and not any(a.op in ("phi", "loop") for a in T.atoms_of(t))


def tolerance(t):
    """a decision, on a tolerance, about how far the simulated addition is from the input or the estimate, on which the value depends"""
    for a in T.atoms_of(t):
        if a.op != "ite" or a.args[1] is a.args[2]:
            continue
        c = a.args[0]
        ats = T.atoms_of(c)
        if unknown_term(c) or not any(x.op == "F" for x in ats):
            continue
        for x in ats:
            if x.op == "allclose":
                return c
            if x.op == "neg?" and any(not m and k for m, k in x.args[0].p) and any(y.op == "F" for y in T.atoms_of(x.args[0])):
                return c
    return None


def put_in(t, a, val):
    """the term with the atom a given its value, also where that makes further occurrences of it"""
    for _ in range(30):
        n = T.subst(t, {a.id: val})
        if n is t:
            break
        t = n
    return t


def early(got, want):
    """the value left when the simulated addition equals something exactly: None when it is what the full count of corrections
    would give, otherwise the case in which it is not"""
    for _ in range(40):
        a = T.single_atom(got)
        if a is None or a.op != "ite":
            return got, None
        c = T.single_atom(a.args[0])
        if c is None or c.op != "array_equal" or len(c.args) != 2:
            return got, None
        f, v = c.args
        if T.single_atom(f) is None or T.single_atom(f).op != "F":
            f, v = v, f
        f = T.single_atom(f)
        if f is None or f.op != "F":
            return got, None
        x, w = put_in(a.args[1], f, v), put_in(want, f, v)
        if x is not w:
            r = T.same(x, w)
            if r is False and known(x):
                return got, (a.args[0], x, w)
            if r is not True:
                return got, None
        got = a.args[2]
    return got, None


def concrete(rep, mods, n, frame):
    name = "%d iterations%s" % (n, ", frame" if frame else "")
    where = "arcticpy/main.py: remove_cti"
    try:
        s, calls, got, img = go(mods, frame, vnum(n), {"unroll": max(8, n + 1), "unroll_while": max(8, n + 1)})
    except (Missing, Dead) as e:
        rep.undecided("iteration", name, repr(e))
        return
    rep.covered(s.h.ip)
    want = img
    for _ in range(n):
        want = sub(add(want, img), fapp(want))
    tol = tolerance(got) if got is not None else None
    cut = None
    if got is not None:
        got, cut = early(got, want)
    if got is None:
        rep.undecided("iteration", name, "result not modelled")
    elif n > 1 and tol is not None:
        rep.violation("iteration", "%s: the number of corrections depends on the image, by a tolerance" % name, where, str(tol)[:600])
    elif cut is not None:
        rep.violation("iteration", "%s: the corrections stop early where more of them would still change the estimate" % name, where,
                      "when %s: left with %s, where the full count gives %s" % cut)
    elif got is want or T.same(got, want) is True:
        rep.ok("iteration", "%s: the result is the estimate after exactly that many corrections" % name, where)
    elif known(got) and not any(x.op == "ite" and any(y.op == "F" for y in T.atoms_of(x.args[0])) for x in T.atoms_of(got)):
        rep.violation("iteration", "%s: the result is not the estimate after that many corrections of the input by (input - forward model of the estimate)" % name, where,
                      "computed %s, expected %s" % (got, want))
    else:
        rep.undecided("iteration", name, str(got)[:300])


def symbolic(rep, mods, frame):
    name = "any number of iterations%s" % (", frame" if frame else "")
    where = "arcticpy/main.py: remove_cti"
    try:
        s, calls, got, img = go(mods, frame, None)
    except (Missing, Dead) as e:
        rep.undecided("iteration", name, repr(e))
        return
    rep.covered(s.h.ip)
    a = single_atom(got) if got is not None else None
    if a is None or a.op != "loop" or len(a.args) != 3 or unknown_term(got):
        rep.undecided("iteration", name, str(got)[:300])
        return
    n = s.kw["iterations"].term
    cnt = range_count(a.args[0])
    if cnt is None:
        rep.undecided("iteration", name, "number of iterations %s" % a.args[0])
    else:
        rep.expect(T.same(cnt, n) is True, "iteration", "%s: the correction is repeated exactly that many times" % name, where, "repeated %s times" % cnt)
    init, body = [x[0] if isinstance(x, (tuple, list)) else x for x in a.args[1:3]]
    if isinstance(body, Term) and isinstance(init, Term):
        rho = [x for x in T.atoms_of(body) if x.op == "asym" and str(x.args[0]).startswith("rho")]
        init, body = plain(init), plain(body)
        if len(rho) == 1:
            r = of_atom(rho[0])
            rep.expect(T.same(init, img) is True or None, "iteration", "%s: the first estimate is the input" % name, where, str(init))
            rep.expect(T.same(body, sub(add(r, img), fapp(r))) is True or None, "iteration", "%s: each estimate is the previous one plus the input minus its forward model" % name, where, str(body))
            return
    rep.undecided("iteration", name, str(got)[:300])
