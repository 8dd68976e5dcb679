"""Shape of a value as a function of one of its inputs: range, monotonicity, limits.

Proofs follow the structure of the value number (sign of the partial derivatives, monotone operations, piecewise
definitions that join upwards); refutations are counterexamples evaluated on the same value number."""
import math
from fractions import Fraction

import terms as T
from terms import *
from values import *
from harness import cases, unknown_term, alternatives

UP, DOWN = 1, -1


def depends(t, x):
    return any(a.id == x for a in T.atoms_of(t))


def sign(t):
    """set of possible signs of t"""
    lo, hi = T.bounds(t)
    s = set()
    if lo < 0:
        s.add(-1)
    if hi > 0:
        s.add(1)
    if T.provably_nonneg(t):
        s.discard(-1)
    if T.provably_nonneg(T.neg(t)):
        s.discard(1)
    return s


def partial(t, i):
    """derivative of the polynomial t with respect to atom i (integer or fractional exponents)"""
    r = ZERO
    for m, c in t.p:
        e = dict(m).get(i)
        if e is None:
            continue
        y = num(c * e)
        for j, f in m:
            if j == i:
                if f != 1:
                    y = mul(y, T._powe(T.of_atom(T._BYID[j]), f - 1))
            else:
                y = mul(y, T._powe(T.of_atom(T._BYID[j]), f))
        r = add(r, y)
    return r


def moves(t, x, depth=12):
    """directions in which t can move when x increases: subset of {UP, DOWN}, or None when not known"""
    if depth == 0:
        return None
    if not depends(t, x):
        return set()
    out = set()
    for i in set(j for m, c in t.p for j, e in m):
        a = T._BYID[i]
        d = {UP} if i == x else atom_moves(a, x, depth - 1)
        if d is None:
            return None
        if d:
            for s in sign(partial(t, i)):
                out |= {s * k for k in d}
    return out


def atom_moves(a, x, depth):
    if not depends(T.of_atom(a), x):
        return set()
    op = a.op
    if op in ("max", "min"):
        out = set()
        for y in a.args:
            d = moves(y, x, depth)
            if d is None:
                return None
            out |= d
        return out
    if op in ("exp", "log", "floor", "ceil", "atan"):
        return moves(a.args[0], x, depth)
    if op == "inv":
        s = sign(a.args[0])
        d = moves(a.args[0], x, depth)
        return None if d is None or len(s) != 1 else {-k for k in d}
    if op == "pow":
        b, e = a.args
        lo, hi = T.bounds(b)
        if lo < 0:
            return None
        out = set()
        d = moves(b, x, depth)
        if d is None:
            return None
        if d:
            for s in sign(e):
                out |= {s * k for k in d}
        d = moves(e, x, depth)
        if d is None:
            return None
        if d:
            if lo < 1:
                out |= {-k for k in d}
            if hi > 1:
                out |= d
        return out
    if op == "ite":
        c, p, q = a.args
        if not depends(c, x):
            d1, d2 = moves(p, x, depth), moves(q, x, depth)
            return None if d1 is None or d2 is None else d1 | d2
        return ite_moves(c, p, q, x, depth)
    return None


def ite_moves(c, p, q, x, depth):
    """a definition by cases on x itself: the pieces, and the jump where they meet"""
    d1, d2 = moves(p, x, depth), moves(q, x, depth)
    a = single_atom(c)
    if d1 is None or d2 is None or a is None or a.op not in ("neg?", "zero?"):
        return None
    e = a.args[0]
    k = partial(e, x)
    rest = sub(e, mul(k, T.of_atom(T._BYID[x])))
    ks = sign(k)
    if depends(k, x) or depends(rest, x) or len(ks) != 1:
        return None
    at = T.neg(T.div(rest, k))
    jump = T.subst(sub(q, p), {x: at})
    js = sign(jump) if T.const(jump) != 0 else set()
    if a.op == "zero?":
        lo = T._BYID[x].lo
        if not js:
            return d2
        if lo != -math.inf and T.const(sub(at, num(lo))) == 0:
            return d2 | js
        return d2 | js | {-s for s in js}
    if 1 in ks:                      # x < at: p, above: q
        return d1 | d2 | js
    return d1 | d2 | {-s for s in js}


def grid(x, k=0):
    """sample inputs for a refutation"""
    lo = x.lo if x.lo != -math.inf else -4
    fine = [float(lo) + 10 ** (-4 + 0.25 * i) for i in range(14)]
    hi = x.hi if x.hi != math.inf else lo + 10 ** 4
    far = [float(lo) + 14 * 1.8 ** i for i in range(12)]
    return [g for g in [float(lo)] + fine + [float(lo) + 0.35 * i for i in range(1, 40)] + far if g <= hi]


def falls(t, x, n=60, want=UP, fixed=None):
    """a definite counterexample to monotonicity in direction want: (smaller, value, larger, value) or None"""
    a = T._BYID[x]
    for k in range(n):
        prev = None
        for g in grid(a):
            fx = dict(fixed or {})
            fx[x] = g
            try:
                y = T.Valuation(k, fx).term(t)
            except (RecursionError, ArithmeticError):
                return None
            if isinstance(y, complex) or math.isnan(y) or math.isinf(y):
                prev = None
                continue
            if prev is not None and (y - prev[1]) * want < -1e-7:
                return prev + (g, y)
            prev = (g, y)
    return None


def outside(t, lo, hi, xs=(), n=120):
    """a definite value of t outside [lo, hi], or None"""
    for k in range(n):
        for g in ([None] if not xs else grid(T._BYID[xs[0]])):
            fx = {} if g is None else {xs[0]: g}
            try:
                y = (T.Wide if k % 4 == 3 else T.Valuation)(k, fx).term(t)
            except (RecursionError, ArithmeticError):
                return None
            if isinstance(y, complex) or math.isnan(y):
                continue
            if y < lo - 1e-7 or y > hi + 1e-7:
                return y
    return None


def opaque(t):
    """the value contains something whose meaning is not known, so that its evaluation proves nothing"""
    return unknown_term(t) or any(a.op in ("phi", "loop", "amb", "opq", "app", "call", "asel") for a in T.atoms_of(t)) or \
        any(a.op not in KNOWN for a in T.atoms_of(t))


KNOWN = {"sym", "asym", "ite", "exp", "log", "inv", "pow", "max", "min", "abs", "floor", "ceil", "mod", "floordiv", "neg?", "zero?", "mul",
         "select", "sin", "cos", "tan", "atan", "inf", "and", "or", "not"}


def judge_range(rep, rule, what, where, t, lo, hi, xs=()):
    b = T.bounds(t)
    if b[0] >= lo and b[1] <= hi:
        rep.ok(rule, what, where)
        return
    if not opaque(t):
        # case by case
        if all(lo <= T.bounds(v)[0] and T.bounds(v)[1] <= hi for cs, alts in cases(t) for v in alts):
            rep.ok(rule, what, where)
            return
        y = outside(t, lo, hi, xs)
        if y is not None:
            rep.violation(rule, what, where, "can be %.3g: %s" % (y, str(t)[:300]))
            return
    rep.undecided(rule, what, str(t)[:300])


def judge_mono(rep, rule, what, where, t, x, want=UP):
    d = moves(t, x)
    if d is not None and -want not in d:
        rep.ok(rule, what, where)
        return
    if not opaque(t):
        r = falls(t, x, want=want)
        if r is not None:
            rep.violation(rule, what, where, "goes from %.4g at %.3g to %.4g at %.3g" % (r[1], r[0], r[3], r[2]))
            return
    rep.undecided(rule, what, "monotonicity not derived: " + str(t)[:300])


def judge_same(rep, rule, what, where, got, want, extra=""):
    s = None if got is None or unknown_term(got) else T.same(got, want)
    if s is True:
        rep.ok(rule, what, where)
    elif s is False and not opaque(got):
        rep.violation(rule, what, where, "is %s, not %s%s" % (str(got)[:200], str(want)[:120], extra))
    else:
        rep.undecided(rule, what, str(got)[:300])
