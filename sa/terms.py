"""Value numbers.

A value number ("term") is a polynomial with rational coefficients over hash-consed atoms.
An atom is an input symbol or an operator applied to terms (exp, max, ite, select from an
array version, an uninterpreted function, a loop summary, ...).  Two program values with the
same normal form are equal; `same()` additionally compares, by random interpretation of the
atoms (Gulwani & Necula's global value numbering by random interpretation), two value numbers
whose normal forms differ, so that an incomplete normal form never raises an alarm.
"""
import hashlib
import math
from fractions import Fraction

INF = math.inf


class Atom:
    __slots__ = ("id", "op", "args", "lo", "hi", "isint", "isbool", "unknown", "key", "size")

    def __repr__(self):
        return show_atom(self)


_ATOMS = {}
_BYID = []


def atom(op, args=(), lo=-INF, hi=INF, isint=False, isbool=False, unknown=False):
    key = (op, args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_BYID)
        a.op, a.args, a.key = op, args, key
        a.lo, a.hi, a.isint, a.isbool = lo, hi, isint, isbool
        a.unknown = unknown
        a.size = 1
        for x in args:
            for t in (x if isinstance(x, tuple) else (x,)):
                if isinstance(t, Term):
                    a.size += t.size
                    if t.unknown:
                        a.unknown = True
        _ATOMS[key] = a
        _BYID.append(a)
    return a


_TERMS = {}


class Term:
    """immutable polynomial: tuple of (mono, coef) sorted; mono = tuple of (atom id, exponent)"""
    __slots__ = ("p", "size", "unknown", "_h")

    def __new__(cls, p):
        t = _TERMS.get(p)
        if t is None:
            t = object.__new__(cls)
            t.p = p
            t.size = 1
            t.unknown = False
            for m, _ in p:
                for i, _e in m:
                    t.size += _BYID[i].size
                    if _BYID[i].unknown:
                        t.unknown = True
            t._h = hash(p)
            _TERMS[p] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


MAXSIZE = 60000


def _mk(d):
    return Term(tuple(sorted((m, c) for m, c in d.items() if c != 0)))


def _q(a, b):
    if type(a) is int and type(b) is int and a % b == 0:
        return a // b
    return _n(Fraction(a) / b)


def _n(x):
    if type(x) is int:
        return x
    x = Fraction(x)
    return x.numerator if x.denominator == 1 else x


def num(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isinf(x):
            return INFT if x > 0 else neg(INFT)
        if math.isnan(x):
            return NANT
        x = Fraction(repr(x))
    x = _n(x)
    return Term((((), x),)) if x != 0 else Term(())


def of_atom(a):
    return Term(((((a.id, 1),), 1),))


ZERO = Term(())
ONE = Term((((), 1),))
INFT = of_atom(atom("inf", (), INF, INF))
NANT = of_atom(atom("nan", ()))


def const(t):
    """the rational constant, or None"""
    if not t.p:
        return 0
    if len(t.p) == 1 and t.p[0][0] == ():
        return t.p[0][1]
    return None


_symid = [0]


def sym(name, lo=-INF, hi=INF, isint=False, isbool=False):
    return of_atom(atom("sym", (name,), lo, hi, isint, isbool))


def fresh(name="unk", unknown=True, lo=-INF, hi=INF):
    _symid[0] += 1
    return of_atom(atom("sym", ("%s#%d" % (name, _symid[0]),), lo, hi, unknown=unknown))


def single_atom(t):
    """t is exactly one atom with coefficient and exponent 1"""
    if len(t.p) == 1 and t.p[0][1] == 1 and len(t.p[0][0]) == 1 and t.p[0][0][0][1] == 1:
        return _BYID[t.p[0][0][0][0]]
    return None


def add(a, b):
    if not a.p:
        return b
    if not b.p:
        return a
    k = (a, b)
    r = _ADD.get(k)
    if r is None:
        r = _ADD[k] = _add(a, b)
    return r


def _add(a, b):
    d = dict(a.p)
    for m, c in b.p:
        d[m] = d.get(m, 0) + c
    r = _mk(d)
    if len(r.p) > 1 and (_has_inv(a) or _has_inv(b)):
        r = _simplify_inv(r)
    return r


_HASINV = {}


def _has_inv(t):
    r = _HASINV.get(t)
    if r is None:
        r = _HASINV[t] = any(_BYID[i].op == "inv" and e >= 1 for m, _ in t.p for i, e in m)
    return r


def neg(a):
    return Term(tuple((m, -c) for m, c in a.p))


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    out = []
    for i, e in d.items():
        if e != 0:
            if _BYID[i].isbool and e > 0:
                e = 1
            out.append((i, e))
    return tuple(sorted(out))


_MUL, _ADD = {}, {}


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    k = (a, b)
    r = _MUL.get(k)
    if r is None:
        r = _MUL[k] = _mul(a, b)
    return r


def _mul(a, b):
    if len(a.p) * len(b.p) > 400:
        a, b = sorted((a, b), key=lambda t: t._h)
        return app("mul", a, b)
    d = {}
    for m1, c1 in a.p:
        for m2, c2 in b.p:
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _simplify_inv(_mk(d))


def _simplify_inv(t):
    """cancel   P * inv(P)   when it appears expanded:  sum of monomials each with inv(P)^1"""
    # find atoms inv(P)
    invs = set()
    for m, _ in t.p:
        for i, e in m:
            if _BYID[i].op == "inv" and e >= 1:
                invs.add(i)
    for i in sorted(invs):
        P = _BYID[i].args[0]
        # group monomials having inv^e: quotient q with  q * P = those
        group = {}
        rest = {}
        for m, c in t.p:
            dm = dict(m)
            e = dm.get(i, 0)
            if e >= 1:
                dm[i] = e - 1
                if dm[i] == 0:
                    del dm[i]
                group[tuple(sorted(dm.items()))] = c
            else:
                rest[m] = c
        q = _divide(group, P)
        if q is not None:
            quot, rem = q
            if quot:
                r = dict(rest)
                for m, c in quot.items():
                    r[m] = r.get(m, 0) + c
                for m, c in rem.items():
                    mm = _mulmono(m, ((i, 1),))
                    r[mm] = r.get(mm, 0) + c
                return _simplify_inv(_mk(r))
    return t


def _divide(group, P):
    """partial polynomial division of `group` by P, by P's first monomial; only exact pieces"""
    p = list(P.p)
    lead_m, lead_c = p[-1]
    g = dict(group)
    quot = {}
    changed = False
    for _ in range(40):
        hit = None
        for m in sorted(g, reverse=True):
            c = g[m]
            if c == 0:
                continue
            dm = dict(m)
            ok = True
            for i, e in lead_m:
                if dm.get(i, 0) - e < 0 or i not in dm:
                    ok = False
                    break
            if not ok:
                continue
            qm = _mulmono(m, tuple((i, -e) for i, e in lead_m))
            # all monomials qm * p_j must be present with the right coefficient (exact piece)
            k = _q(c, lead_c)
            if all(g.get(_mulmono(qm, pm), None) == k * pc for pm, pc in p):
                hit = (qm, k)
                break
        if hit is None:
            break
        qm, k = hit
        for pm, pc in p:
            mm = _mulmono(qm, pm)
            g[mm] = g[mm] - k * pc
            if g[mm] == 0:
                del g[mm]
        quot[qm] = quot.get(qm, 0) + k
        changed = True
    return (quot, g) if changed else None


def inv(a):
    c = const(a)
    if c is not None:
        if c == 0:
            return app("div0")
        return num(_q(1, c))
    if len(a.p) == 1:
        m, c = a.p[0]
        if any(_BYID[i].op == "inf" for i, _ in m):
            return ZERO
        # boolean atoms may not be inverted
        if not any(_BYID[i].isbool for i, _ in m):
            return Term(((tuple((i, -e) for i, e in m), _q(1, c)),))
        return app("inv", a)
    lead = a.p[-1][1]
    if lead != 1:
        return mul(num(_q(1, lead)), inv(mul(num(_q(1, lead)), a)))
    # common monomial factor
    common = dict(a.p[0][0])
    for m, _ in a.p[1:]:
        dm = dict(m)
        for i in list(common):
            e = dm.get(i, 0)
            if (common[i] > 0) != (e > 0) or e == 0:
                del common[i]
            else:
                common[i] = min(common[i], e) if e > 0 else max(common[i], e)
    common = {i: e for i, e in common.items() if not _BYID[i].isbool}
    if common:
        cm = tuple(sorted(common.items()))
        icm = tuple((i, -e) for i, e in cm)
        red = _mk({_mulmono(m, icm): c for m, c in a.p})
        return mul(Term(((icm, 1),)), inv(red))
    return app("inv", a)


def div(a, b):
    if a is b and const(a) is None:
        return ONE
    return mul(a, inv(b))


def pow_(a, b):
    cb, ca = const(b), const(a)
    if cb is not None:
        if cb == 1:
            return a
        if cb == 0:
            return ONE
        if ca is not None and cb.denominator == 1 and abs(cb) <= 64 and (ca != 0 or cb > 0):
            return num(_n(Fraction(ca) ** int(cb)))
        if cb.denominator == 1 and 0 < cb <= 4:
            r = a
            for _ in range(int(cb) - 1):
                r = mul(r, a)
            return r
        if cb.denominator == 1 and -4 <= cb < 0:
            return inv(pow_(a, num(-cb)))
        if len(a.p) == 1 and a.p[0][1] == 1 and a.p[0][0] and all(
                _BYID[i].lo >= 0 and not _BYID[i].isbool for i, _ in a.p[0][0]):
            return Term(((tuple((i, e * cb) for i, e in a.p[0][0]), 1),))
    if ca is not None and ca in (0, 1) and ca == 1:
        return ONE
    return app("pow", a, b)


def exp(a):
    c = const(a)
    if c == 0:
        return ONE
    r = ONE
    for m, c in a.p:
        if m == ():
            r = mul(r, pow_exp(app("exp", ONE), c))
            continue
        # exp(c * m): the atom is exp(mono); exp(log(x)) = x
        if len(m) == 1 and m[0][1] == 1 and _BYID[m[0][0]].op == "log":
            r = mul(r, pow_(_BYID[m[0][0]].args[0], num(c)))
            continue
        if any(_BYID[i].op == "inf" for i, _ in m) and len(m) == 1:
            r = mul(r, ZERO if c < 0 else INFT)
            continue
        base = app("exp", Term(((m, 1),)))
        r = mul(r, pow_exp(base, c))
    return r


def pow_exp(base, c):
    a = single_atom(base)
    return Term((((((a.id, _n(c)),)), 1),))


def log(a):
    if len(a.p) == 1 and a.p[0][1] == 1:
        m = a.p[0][0]
        if m and all(_BYID[i].op == "exp" for i, _ in m):
            r = ZERO
            for i, e in m:
                r = add(r, mul(num(e), _BYID[i].args[0]))
            return r
    if const(a) == 1:
        return ZERO
    return app("log", a)


# ---- booleans ------------------------------------------------------------
def _bool(op, *args):
    return of_atom(atom(op, args, 0, 1, True, True))


def lt(a, b):
    d = sub(a, b)
    c = const(d)
    if c is not None:
        return ONE if c < 0 else ZERO
    lo, hi = bounds(d)
    if hi < 0:
        return ONE
    if lo >= 0:
        return ZERO
    e = _strip_pos(d)
    if e is not d:
        return lt(e, ZERO)
    return _bool("neg?", _canon_pos(d))


def le(a, b):
    """a <= b   ==   not (b < a)"""
    return not_(lt(b, a))


def _strip_pos(d):
    """divide by common factors that are positive: the sign does not change"""
    if len(d.p) < 2:
        return d
    m0 = d.p[0][0] or d.p[1][0]
    f = []
    for i, e in m0:
        a = _BYID[i]
        if a.lo > 0 and a.op != "inf":
            es = [dict(m).get(i, 0) for m, _ in d.p]
            k = min(es) if min(es) > 0 else (max(es) if max(es) < 0 else 0)
            if k:
                f.append((i, k))
    for i, k in f:
        d = mul(d, Term((((((i, -k),)), 1),)))
    return d


def _canon_pos(d):
    # scale by a positive rational so that the leading coefficient is +-1
    c = abs(d.p[-1][1])
    return mul(num(_q(1, c)), d) if c != 1 else d


def eq(a, b):
    d = sub(a, b)
    c = const(d)
    if c is not None:
        return ONE if c == 0 else ZERO
    lo, hi = bounds(d)
    if lo > 0 or hi < 0:
        return ZERO
    c = d.p[-1][1]
    if c != 1:
        d = mul(num(_q(1, c)), d)
    return _bool("zero?", d)


def not_(b):
    return sub(ONE, b)


def and_(a, b):
    return mul(a, b)


def or_(a, b):
    return sub(add(a, b), mul(a, b))


def is_bool(t):
    return all(all(_BYID[i].isbool for i, _ in m) for m, _ in t.p)


# ---- operators -----------------------------------------------------------
_OPB = {"exp": (0, INF), "abs": (0, INF), "shape": (0, INF), "len": (0, INF), "argmax": (0, INF)}
_OPI = {"floor", "ceil", "floordiv", "shape", "len", "argmax", "round", "trunc", "count"}


def app(op, *args):
    args = tuple(num(a) if isinstance(a, (int, float, Fraction)) and not isinstance(a, bool) else a for a in args)
    lo, hi = _OPB.get(op, (-INF, INF))
    isint = op in _OPI
    if op == "abs":
        c = const(args[0])
        if c is not None:
            return num(abs(c))
        l, h = bounds(args[0])
        if l >= 0:
            return args[0]
        if h <= 0:
            return neg(args[0])
        if args[0].p[-1][1] < 0:
            args = (neg(args[0]),)
        isint = all_int(args[0])
    if op == "inv":
        l, h = bounds(args[0])
        if l >= 0:
            lo = 0
        if h <= 0:
            hi = 0
    if op == "pow":
        l, h = bounds(args[0])
        if l >= 0:
            lo = 0
            bl, bh = bounds(args[1])
            if h <= 1 and bl >= 0:
                hi = 1
    return of_atom(atom(op, args, lo, hi, isint))


def all_int(t):
    for m, c in t.p:
        if c.denominator != 1:
            return False
        for i, e in m:
            if not _BYID[i].isint or e < 0 or e.denominator != 1:
                return False
    return True


def max_(*ts):
    return _minmax("max", ts)


def min_(*ts):
    return _minmax("min", ts)


def _minmax(op, ts):
    flat, c = [], None
    for t in ts:
        a = single_atom(t)
        if a is not None and a.op == op:
            flat += list(a.args)
        else:
            flat.append(t)
    out = []
    for t in flat:
        k = const(t)
        if k is not None:
            c = k if c is None else (max(c, k) if op == "max" else min(c, k))
        elif t not in out:
            out.append(t)
    if c is not None:
        out.append(num(c))
    # dominated elements
    keep = []
    for i, t in enumerate(out):
        dom = False
        for j, u in enumerate(out):
            if i == j:
                continue
            lo, hi = bounds(sub(t, u))
            if op == "max" and hi <= 0 and (hi < 0 or lo < 0 or j < i):
                dom = True
            if op == "min" and lo >= 0 and (lo > 0 or hi > 0 or j < i):
                dom = True
        if not dom:
            keep.append(t)
    out = keep or out[:1]
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.p)
    los, his = zip(*[bounds(t) for t in out])
    lo, hi = (max(los), max(his)) if op == "max" else (min(los), min(his))
    return of_atom(atom(op, tuple(out), lo, hi, all(all_int(t) for t in out)))


def ite(c, a, b):
    k = const(c)
    if k is not None:
        return a if k != 0 else b
    if a is b:
        return a
    # canonical polarity: condition whose constant part is 0 (i.e. not "1 - x")
    if dict(c.p).get((), 0) == 1 and len(c.p) == 2 and is_bool(c):
        return ite(sub(ONE, c), b, a)
    at = single_atom(c)
    # min / max / clamp idioms:   a if (x<y) else b
    if at is not None and at.op == "neg?":
        d = at.args[0]          # condition: d < 0
        x = sub(a, b)
        # a - b == k*d, k>0 : condition <=> a < b  -> min ;  k<0 -> max
        r = ratio(x, d)
        if r is not None and r > 0:
            return min_(a, b)
        if r is not None and r < 0:
            return max_(a, b)
        r = _clamp(d, a, b) or _clamp_other(d, a, b)
        if r is not None:
            return r
    if at is not None and at.op == "zero?":
        # if x == k then f(k) else f(x)  ->  f(x)  for the plain substitution x -> k
        r = ratio(sub(a, b), at.args[0])
        if r is not None:
            return b
    # nested same-condition
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    r = _one_cell(c, a, b)
    if r is not None:
        return r
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if a.size + b.size + c.size > MAXSIZE:
        k = (c, a, b)
        r = _BIG.get(k)
        if r is None:
            lo, hi = min(la, lb), max(ha, hb)
            r = _BIG[k] = fresh("big", True, lo, hi)
        return r
    return of_atom(atom("ite", (c, a, b), min(la, lb), max(ha, hb), all_int(a) and all_int(b),
                        is_bool(a) and is_bool(b) and c is not None and _is01(a) and _is01(b)))


STORE_HOOK = None


def _one_cell(c, a, b):
    """two versions of an array which differ in one cell: the cell is what depends on c"""
    x, y = single_atom(a), single_atom(b)
    if STORE_HOOK is None:
        return None
    x = x if x is not None and x.op == "store" and all(isinstance(i, Term) and const(i) is not None for i in x.args[1]) else None
    y = y if y is not None and y.op == "store" and all(isinstance(i, Term) and const(i) is not None for i in y.args[1]) else None
    if x is not None and y is not None and x.args[0] is y.args[0] and len(x.args[1]) == len(y.args[1]) and all(i is j for i, j in zip(x.args[1], y.args[1])):
        return STORE_HOOK(x.args[0], x.args[1], ite(c, x.args[2], y.args[2]))
    if x is not None and x.args[0] is b:
        return STORE_HOOK(b, x.args[1], ite(c, x.args[2], select(b, x.args[1])))
    if y is not None and y.args[0] is a:
        return STORE_HOOK(a, y.args[1], ite(c, select(a, y.args[1]), y.args[2]))
    return None


def _clamp(d, a, b):
    """a if d < 0 else min(k.., y) where y passes through a at d == 0 (and the same with max): a clamp to both sides"""
    at = single_atom(b)
    if at is None or at.op not in ("min", "max"):
        return None
    for y in at.args:
        r = ratio(sub(y, a), d)
        if r is None:
            continue
        rest = [z for z in at.args if z is not y]
        if at.op == "min" and r > 0 and all(bounds(sub(z, a))[0] >= 0 for z in rest):
            return min_(max_(a, y), *rest)
        if at.op == "max" and r < 0 and all(bounds(sub(z, a))[1] <= 0 for z in rest):
            return max_(min_(a, y), *rest)
    return None


def _clamp_other(d, a, b):
    """min(k.., y) if d < 0 else b where y passes through b at d == 0"""
    at = single_atom(a)
    if at is None or at.op not in ("min", "max"):
        return None
    for y in at.args:
        r = ratio(sub(y, b), d)
        if r is None:
            continue
        rest = [z for z in at.args if z is not y]
        if at.op == "min" and r < 0 and all(bounds(sub(z, b))[0] >= 0 for z in rest):
            return min_(max_(b, y), *rest)
        if at.op == "max" and r > 0 and all(bounds(sub(z, b))[1] <= 0 for z in rest):
            return max_(min_(b, y), *rest)
    return None


_BIG = {}


def _is01(t):
    c = const(t)
    if c is not None:
        return c in (0, 1)
    return is_bool(t)


def assume(t, c, val):
    """t under the assumption that condition c has this truth value (top level only)"""
    a = single_atom(t)
    if a is not None and a.op == "ite" and a.args[0] is c:
        return a.args[1] if val else a.args[2]
    return t


def ratio(x, d):
    """k with x = k*d, or None"""
    if len(x.p) != len(d.p) or not x.p:
        return None
    k = None
    for (m1, c1), (m2, c2) in zip(x.p, d.p):
        if m1 != m2:
            return None
        r = _q(c1, c2)
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def mod(a, m):
    ca, cm = const(a), const(m)
    if ca is not None and cm not in (None, 0):
        return num(ca % cm)
    if cm == 1 and all_int(a):
        return ZERO
    # multiples of m vanish
    q = _peel(a, m)
    if q is not None:
        a = q[1]
        ca = const(a)
        if ca == 0:
            return ZERO
    if provably_nonneg(a) and provably_nonneg(sub(sub(m, a), ONE)) and all_int(a) and all_int(m):
        return a
    la, ha = bounds(m)
    t = atom("mod", (a, m), 0 if la >= 0 else -INF, ha, all_int(a) and all_int(m))
    return of_atom(t)


def _peel(a, m):
    """a = q*m + r with q an integer constant, when m is a single monomial"""
    if len(m.p) != 1:
        return None
    mm, mc = m.p[0]
    d = dict(a.p)
    c = d.get(mm)
    if c is None or mm == ():
        return None
    q = _q(c, mc)
    if q.denominator != 1:
        q = math.floor(q)
    if q == 0:
        return None
    d[mm] = c - q * mc
    return q, _mk(d)


def floordiv(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb not in (None, 0):
        return num(math.floor(_q(ca, cb)))
    if cb == 1 and all_int(a):
        return a
    q = _peel(a, b)
    if q is not None:
        return add(num(q[0]), floordiv(q[1], b))
    if provably_nonneg(a) and provably_nonneg(sub(sub(b, a), ONE)) and all_int(a) and all_int(b):
        return ZERO
    la, _ = bounds(a)
    lb, _ = bounds(b)
    return of_atom(atom("floordiv", (a, b), 0 if la >= 0 and lb >= 0 else -INF, INF, True))


# symbolic upper bounds of integer symbols, e.g. loop counters: id -> (lo term, hi term)
SYMBOUNDS = {}


def provably_nonneg(t, depth=4):
    lo, _ = bounds(t)
    if lo >= 0:
        return True
    if depth == 0:
        return False
    # replace one bounded symbol (linear occurrence) by its worst bound
    for m, c in t.p:
        for i, e in m:
            b = SYMBOUNDS.get(i)
            if b is None or e != 1:
                continue
            # coefficient polynomial of this symbol
            coef, rest, lin = {}, {}, True
            for m2, c2 in t.p:
                d2 = dict(m2)
                if i in d2:
                    if d2[i] != 1:
                        lin = False
                        break
                    del d2[i]
                    coef[tuple(sorted(d2.items()))] = c2
                else:
                    rest[m2] = c2
            if not lin:
                continue
            cf, rs = _mk(coef), _mk(rest)
            l, h = bounds(cf)
            bound = b[0] if l >= 0 else (b[1] if h <= 0 else None)
            if bound is None:
                continue
            if provably_nonneg(add(rs, mul(cf, bound)), depth - 1):
                return True
    return False


# ---- intervals of terms --------------------------------------------------
_BND = {}


def _imul(a, b):
    (al, ah), (bl, bh) = a, b
    if (al, ah) == (0, 0) or (bl, bh) == (0, 0):
        return (0, 0)
    vs = []
    for x in (al, ah):
        for y in (bl, bh):
            v = 0 if (x == 0 or y == 0) else x * y
            vs.append(v)
    return (min(vs), max(vs))


def _ipow(a, e):
    lo, hi = a
    if e == 1:
        return a
    if e < 0:
        if lo > 0 or (lo == 0):
            p = _ipow((lo, hi), -e)
            return (0 if p[1] == INF else 1 / p[1], INF if p[0] == 0 else 1 / p[0])
        return (-INF, INF)
    if e.denominator == 1 and int(e) % 2 == 0:
        m = max(abs(lo), abs(hi))
        l = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return (_fpow(l, e), _fpow(m, e))
    if e.denominator == 1 or lo >= 0:
        return (_fpow(lo, e), _fpow(hi, e))
    return (-INF, INF)


def _fpow(x, e):
    if x in (INF, -INF):
        return x
    try:
        if e.denominator == 1:
            return x ** int(e)
        return float(x) ** float(e)
    except OverflowError:
        return INF


def _exp(x):
    if x == -INF:
        return 0
    if x == INF:
        return INF
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def atom_bounds(i, e=Fraction(1)):
    a = _BYID[i]
    if a.op == "exp":
        # exp(arg)^e = exp(e*arg)
        lo, hi = bounds(a.args[0])
        l, h = _imul((e, e), (lo, hi))
        return (_exp(l) if l != 0 else 1, _exp(h) if h != 0 else 1)
    return _ipow((a.lo, a.hi), e)


def bounds(t):
    r = _BND.get(t)
    if r is not None:
        return r
    _BND[t] = (-INF, INF)
    naive = (0, 0)
    for m, c in t.p:
        iv = (c, c)
        for i, e in m:
            iv = _imul(iv, atom_bounds(i, e))
        naive = (naive[0] + iv[0], naive[1] + iv[1])
    lo, hi = naive
    if len(t.p) > 1 and (lo < hi):
        v = _vertex(t)
        if v is not None:
            lo, hi = max(lo, v[0]), min(hi, v[1])
    _BND[t] = (lo, hi)
    return lo, hi


def _vertex(t):
    """range of a multi-affine polynomial over a box, by its vertices; a/(a+b) ratios are
    taken as one variable in [0,1]"""
    monos = []
    for m, c in t.p:
        mm = {}
        dm = dict(m)
        # composite ratio variables  a^1 * inv(P)^1  with a a monomial of P, all terms of P >= 0
        for i, e in list(dm.items()):
            if _BYID[i].op == "inv" and e == 1:
                P = _BYID[i].args[0]
                okP = all(_mono_nonneg(pm, pc) for pm, pc in P.p)
                if not okP:
                    continue
                for pm, pc in P.p:
                    if pm and all(dm.get(k, 0) == ke for k, ke in pm) and pc > 0:
                        for k, ke in pm:
                            del dm[k]
                        del dm[i]
                        mm[("r", i, pm)] = 1
                        c = _q(c, pc)
                        break
        for i, e in dm.items():
            if _BYID[i].op == "exp":
                mm[("e", i, e)] = 1
            elif e == 1:
                mm[("a", i)] = 1
            else:
                mm[("p", i, e)] = 1
        monos.append((mm, c))
    vs = {}
    # the same atom under two different exponents is not multi-affine
    seen = {}
    for mm, _ in monos:
        for v in mm:
            base = v[1]
            if v[0] in ("a", "p", "e"):
                if seen.setdefault(base, v) != v:
                    return None
            vs[v] = None
    if not vs or len(vs) > 10:
        return None
    for v in vs:
        if v[0] == "r":
            vs[v] = (0, 1)
        elif v[0] == "a":
            a = _BYID[v[1]]
            vs[v] = (a.lo, a.hi)
        else:
            vs[v] = atom_bounds(v[1], v[2])
        if vs[v][0] == -INF or vs[v][1] == INF:
            # unbounded: keep only if it never multiplies another variable's cancellation
            return None
    names = list(vs)
    lo, hi = INF, -INF
    for k in range(1 << len(names)):
        val = {n: vs[n][(k >> j) & 1] for j, n in enumerate(names)}
        s = 0
        for mm, c in monos:
            x = c
            for n in mm:
                x = x * val[n] if not (x == 0 or val[n] == 0) else 0
            s = s + x
        lo, hi = min(lo, s), max(hi, s)
    return lo, hi


def _mono_nonneg(m, c):
    if c <= 0:
        return False
    for i, e in m:
        l, h = atom_bounds(i, e)
        if l < 0:
            return False
    return True


# ---- traversal -----------------------------------------------------------
def atoms_of(t, deep=True, seen=None):
    out = []
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        for m, _ in x.p:
            for i, _e in m:
                if i in seen:
                    continue
                seen.add(i)
                a = _BYID[i]
                out.append(a)
                if deep:
                    for y in a.args:
                        for z in (y if isinstance(y, tuple) else (y,)):
                            if isinstance(z, Term):
                                st.append(z)
    return out


def subst(t, mapping, memo=None):
    """replace atoms (id -> Term) everywhere"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    res = ZERO
    for m, c in t.p:
        mono = num(c)
        for i, e in m:
            mono = mul(mono, _powe(subst_atom(i, mapping, memo), e))
        res = add(res, mono)
    memo[t] = res
    return res


def _powe(t, e):
    if e == 1:
        return t
    if e < 0:
        return inv(_powe(t, -e)) if e != -1 else inv(t)
    return pow_(t, num(e))


def subst_atom(i, mapping, memo):
    if i in mapping:
        return mapping[i]
    a = _BYID[i]
    changed = False
    nargs = []
    for x in a.args:
        if isinstance(x, Term):
            y = subst(x, mapping, memo)
            changed |= y is not x
            nargs.append(y)
        elif isinstance(x, tuple) and any(isinstance(z, Term) for z in x):
            y = tuple(subst(z, mapping, memo) if isinstance(z, Term) else z for z in x)
            changed |= any(p is not q for p, q in zip(x, y))
            nargs.append(y)
        else:
            nargs.append(x)
    if not changed:
        return of_atom(a)
    return rebuild(a, nargs)


def rebuild(a, args):
    op = a.op
    if op == "exp":
        return exp(args[0])
    if op == "log":
        return log(args[0])
    if op == "inv":
        return inv(args[0])
    if op == "pow":
        return pow_(*args)
    if op == "max":
        return max_(*args)
    if op == "min":
        return min_(*args)
    if op == "ite":
        return ite(*args)
    if op == "mod":
        return mod(*args)
    if op == "floordiv":
        return floordiv(*args)
    if op == "neg?":
        return lt(args[0], ZERO)
    if op == "zero?":
        return eq(args[0], ZERO)
    if op == "abs":
        return app("abs", args[0])
    if REBUILD_HOOK is not None:
        r = REBUILD_HOOK(a, args)
        if r is not None:
            return r
    return of_atom(atom(op, tuple(args), a.lo, a.hi, a.isint, a.isbool))


REBUILD_HOOK = None


# ---- random interpretation ------------------------------------------------
class Valuation:
    def __init__(self, k, fixed=None):
        self.k = k
        self.memo = {}
        self.fixed = fixed or {}

    def h(self, *parts):
        s = repr(parts).encode()
        return int.from_bytes(hashlib.sha256(s + bytes([self.k])).digest()[:7], "big") / float(1 << 56)

    @staticmethod
    def q(x):
        if isinstance(x, float):
            if math.isinf(x) or math.isnan(x):
                return repr(x)
            return "%.7g" % (x if abs(x) > 1e-12 else 0.0)
        return x

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._atom(_BYID[i])
        return r

    def _in(self, a, u):
        lo, hi = a.lo, a.hi
        if lo == -INF and hi == INF:
            x = -3 + 6 * u
        elif hi == INF:
            x = float(lo) + 0.05 + 3 * u
        elif lo == -INF:
            x = float(hi) - 0.05 - 3 * u
        else:
            x = float(lo) + u * (float(hi) - float(lo))
        if a.isbool:
            return float(u < 0.5)
        if a.isint:
            x = float(math.floor(x * 2 if hi == INF else x))
            if x < lo:
                x = float(lo)
        return x

    def _atom(self, a):
        op = a.op
        if op == "inf":
            return INF
        if op == "nan":
            return math.nan
        if op == "sym":
            if a.id in self.fixed:
                return self.fixed[a.id]
            return self._in(a, self.h("sym", a.args[0]))
        if op == "ite":
            c = self.term(a.args[0])
            return self.term(a.args[1] if c >= 0.5 else a.args[2])
        av = [self.term(x) if isinstance(x, Term) else
              (tuple(self.term(z) if isinstance(z, Term) else z for z in x) if isinstance(x, tuple) else x)
              for x in a.args]
        try:
            if op == "exp":
                return math.exp(min(av[0], 600))
            if op == "log" and av[0] > 0:
                return math.log(av[0])
            if op == "inv" and av[0] != 0:
                return 1 / av[0]
            if op == "pow":
                if av[0] > 0:
                    return av[0] ** av[1]
                if av[0] == 0 and av[1] >= 0:
                    return float(av[1] == 0)
            if op == "max":
                return max(av)
            if op == "min":
                return min(av)
            if op == "abs":
                return abs(av[0])
            if op == "floor":
                return float(math.floor(av[0]))
            if op == "ceil":
                return float(math.ceil(av[0]))
            if op == "mod" and av[1] != 0:
                return av[0] % av[1]
            if op == "floordiv" and av[1] != 0:
                return float(av[0] // av[1])
            if op == "neg?":
                return float(av[0] < -1e-12)
            if op == "zero?":
                return float(abs(av[0]) < 1e-9)
            if op == "mul":
                return av[0] * av[1]
            if op == "isnan":
                return float(isinstance(av[0], float) and math.isnan(av[0]))
            if op in ("sin", "cos", "tan", "atan"):
                return getattr(math, op)(av[0])
            if op == "select":
                r = self._select(a)
                if r is not None:
                    return r
        except (OverflowError, ValueError):
            pass
        return self._in(a, self.h(op, tuple(self.q(x) if not isinstance(x, tuple) else tuple(self.q(y) for y in x) for x in av)))

    def _select(self, a):
        """read over write, decided on the values of the indices"""
        arr, idx = a.args[0], a.args[1]
        at = single_atom(arr)
        while at is not None and at.op in ("store", "ite"):
            if at.op == "ite":
                at = single_atom(at.args[1] if self.term(at.args[0]) >= 0.5 else at.args[2])
                if at is None:
                    return None
                continue
            base, sidx, val = at.args
            if any(not isinstance(x, Term) for x in sidx) or any(not isinstance(x, Term) for x in idx) or len(sidx) != len(idx):
                return None
            if all(abs(self.term(x) - self.term(y)) < 1e-9 for x, y in zip(sidx, idx)):
                return self.term(val)
            at = single_atom(base)
            if at is not None and at.op not in ("store", "ite"):
                return self.atom(single_atom(of_select(of_atom(at), idx)).id)
        return None

    def term(self, t):
        s = 0.0
        for m, c in t.p:
            x = float(c)
            for i, e in m:
                v = self.atom(i)
                try:
                    if e == 1:
                        x *= v
                    else:
                        if v == 0 and e < 0:
                            x = math.nan
                        elif e.denominator == 1:
                            x *= v ** int(e)
                        else:
                            x *= (abs(v)) ** float(e)
                except OverflowError:
                    x = math.nan
            s += x
        return s


class Wide(Valuation):
    """values over many orders of magnitude, and close to the ends of bounded ranges, so that both sides of a threshold are seen"""

    def _in(self, a, u):
        if a.isbool or a.isint:
            return Valuation._in(self, a, u)
        lo, hi = a.lo, a.hi
        if lo == -INF and hi == INF:
            x = 2 * u if u < 0.5 else 2 * u - 1
            return (1 if u < 0.5 else -1) * 10 ** (-4 + 7 * x)
        if hi == INF:
            return float(lo) + 10 ** (-4 + 7 * u)
        if lo == -INF:
            return float(hi) - 10 ** (-4 + 7 * u)
        w = float(hi) - float(lo)
        if u < 0.2:
            return float(lo) + w * 10 ** (-5 + 20 * u)
        if u > 0.8:
            return float(hi) - w * 10 ** (-5 + 20 * (1 - u))
        return float(lo) + w * u


BRANCHES = frozenset(("ite", "neg?", "zero?", "max", "min", "abs", "floor", "ceil", "mod", "floordiv"))


def branching(t):
    return any(a.op in BRANCHES for a in atoms_of(t))


def of_select(arr, idx):
    return of_atom(atom("select", (arr, tuple(idx))))


def select(arr, idx):
    """one cell of an array version, read over writes where the indices decide"""
    a = single_atom(arr)
    n = 0
    while a is not None and a.op == "store" and n < 50:
        n += 1
        base, sidx, val = a.args
        if len(sidx) != len(idx) or not all(isinstance(x, Term) for x in sidx):
            break
        diffs = [sub(x, y) for x, y in zip(sidx, idx)]
        if all(const(d) == 0 for d in diffs):
            return val
        if any((const(d) not in (None, 0)) for d in diffs):
            arr = base
            a = single_atom(arr)
            continue
        break
    if a is not None and a.op == "ite":
        x, y = select(a.args[1], idx), select(a.args[2], idx)
        return ite(a.args[0], x, y)
    return of_select(arr, idx)


def store(arr, idx, val):
    return of_atom(atom("store", (arr, tuple(idx), val)))


def same(a, b, n=8, wide=True):
    """True: equal. False: definitely different value numbers. None: cannot tell (unknown parts)."""
    if a is b:
        return True
    if sub(a, b) is ZERO:
        return True
    d = 0
    good = 0
    for k in range(n):
        v = Valuation(k)
        try:
            x, y = v.term(a), v.term(b)
        except RecursionError:
            return None
        if math.isnan(x) or math.isnan(y):
            continue
        good += 1
        if math.isinf(x) or math.isinf(y):
            if x != y:
                d += 1
            continue
        if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
            d += 1
    if good and d == 0 and wide and n == 8 and (branching(a) or branching(b)):
        for k in range(32):
            v = Wide(k)
            x, y = v.term(a), v.term(b)
            if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y):
                continue
            if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                d += 1
    if good and d == 0:
        return True
    if a.unknown or b.unknown:
        return None
    return False if good else None


# ---- printing --------------------------------------------------------------
def show_atom(a, depth=6):
    if a.op == "sym":
        return a.args[0]
    if a.op in ("inf", "nan"):
        return a.op
    if depth == 0:
        return a.op + "(..)"
    parts = []
    for x in a.args:
        if isinstance(x, Term):
            parts.append(show(x, depth - 1))
        elif isinstance(x, tuple):
            parts.append("[" + ",".join(show(z, depth - 1) if isinstance(z, Term) else str(z) for z in x) + "]")
        else:
            parts.append(str(x))
    if a.op == "neg?":
        return "(%s<0)" % parts[0]
    if a.op == "zero?":
        return "(%s==0)" % parts[0]
    if a.op == "select":
        return "%s%s" % (parts[0], parts[1])
    return "%s(%s)" % (a.op, ", ".join(parts))


def show(t, depth=6):
    if not t.p:
        return "0"
    out = []
    for m, c in t.p:
        s = "*".join((show_atom(_BYID[i], depth) + ("" if e == 1 else "^%s" % e)) for i, e in m)
        if not s:
            s = str(c) if c.denominator == 1 else "%.6g" % float(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = (str(c) if c.denominator == 1 else "%.6g" % float(c)) + "*" + s
        out.append(s)
    r = " + ".join(out).replace("+ -", "- ")
    return r if len(r) < 2000 else r[:2000] + "..."
