"""A pixel written while adding trails is never negative."""
from kern import *


def run(mods, rep):
    each(rep, mods, "clamp", check)


def check(rep, k, name, bs):
    for b in bs:
        ev = b.events[0]
        what = "%s: phase %d" % (name, b.p)
        if b.before is None or b.after is None:
            rep.undecided("clamp", what, "image content not followed")
            continue
        px = pixel(k, b)
        if px is None:
            rep.undecided("clamp", what, "the pixel acted on was not identified")
            continue
        j, r, row, col = px
        if k.kw.get("parallel_window_range") is None and k.kw.get("serial_window_range") is None:
            row = r
        steps = [s for s in range(k.S) if k.dwell[s] > 0]
        tos = set(d for s in steps for d in k.phases[s, b.p]["to"])
        for d in sorted(tos):
            before = select_term(b.before, (add(row, num(d)), col))
            after = select_term(b.after, (add(row, num(d)), col))
            if after is before or T.same(after, before) is True:
                rep.ok("clamp", "%s: pixel %+d is not written" % (what, d), ev.where)
                continue
            ok, bad = None, str(after)[:600]
            if not unknown_term(after):
                ok = True
                for conds, alts in cases(after):
                    for v in alts:
                        r1 = nonneg_under(conds, v, under(before, conds))
                        if r1 is False and len(alts) > 1:
                            r1 = None
                        if r1 is not True and ok is not False:
                            ok, bad = r1, str(v)[:600]
            rep.expect(ok, "clamp", "%s: the value written to pixel %+d is at least zero" % (what, d), ev.where, "can be the negative value of %s" % bad)


def under(t, conds):
    """t where the decisions conds have been taken"""
    for _ in range(20):
        mp = {}
        for m, c in t.p:
            for i, e in m:
                a = T._BYID[i]
                if a.op == "ite":
                    for x, pol in conds:
                        if x is a.args[0]:
                            mp[i] = a.args[1] if pol else a.args[2]
        if not mp:
            return t
        t = T.subst(t, mp)
    return t


def nonneg_under(conds, v, before):
    """is v the unchanged value, or at least zero, whenever conds hold?  True / None / False (with a definite counterexample)"""
    if v is before or T.sub(v, before) is ZERO or T.bounds(v)[0] >= 0 or T.max_(v, ZERO) is v:
        return True
    gap = False
    for c, pol in conds:
        a = single_atom(c)
        if a is None or a.op != "neg?":
            continue
        d = T.const(T.sub(v, a.args[0]))
        if d is not None and not pol:          # a >= 0, hence v >= d
            if d >= 0:
                return True
            gap = True
    for n in range(200):
        va = T.Valuation(n)
        try:
            if all((va.term(c) != 0) == pol for c, pol in conds) and va.term(v) < -1e-9 and va.term(v) != va.term(before):
                return False
        except (RecursionError, ArithmeticError):
            return None
    # the condition itself allows values between a negative bound and zero
    return False if gap else None
