"""Models of the library calls that the analysed code makes (numpy, scipy, builtins)."""
import ast
import math
from fractions import Fraction

import terms as T
from terms import (INF, ONE, ZERO, Term, add, app, atom, bounds, const, div, eq, fresh, ite, le, lt, mul, neg, not_,
                   num, of_atom, single_atom, sub, sym)
from values import *
import tabular
import interp as I
from interp import ARRND, NONET, Dead, aatom, arr_ndim, has_arr, is_slice, mk_slice, relet, select_term
from interp import store_term as ip_store

BUILTINS = {"range", "len", "enumerate", "zip", "map", "list", "tuple", "int", "float", "bool", "abs", "min", "max", "sum",
            "sorted", "reversed", "isinstance", "getattr", "setattr", "hasattr", "type", "any", "all", "round", "print",
            "property", "str", "repr", "dict", "set", "super", "object", "Exception", "ValueError", "iter", "next",
            "callable", "slice", "pow", "divmod", "filter", "id", "vars", "malloc", "calloc", "free"}

CONSTS = {"numpy.inf": math.inf, "numpy.Inf": math.inf, "numpy.infty": math.inf, "math.inf": math.inf,
          "numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e}


def canon(name):
    if name.startswith("__c__."):
        name = name[6:]
    for a, b in (("np.", "numpy."), ("libc.math.", "math."), ("libc.stdlib.", "builtins."), ("cython.", "cython.")):
        if name.startswith(a):
            name = b + name[len(a):]
    return name


def ext_attr(ip, ref, name):
    full = canon(ref.name + "." + name)
    if full in CONSTS:
        v = vnum(CONSTS[full])
        if math.isfinite(CONSTS[full]):
            v = v.but(unit=DIMLESS)
        return v
    if full in ("numpy.nan", "math.nan", "numpy.NaN"):
        return V(term=T.NANT, nan=True, unit="any")
    if full in ("numpy.newaxis",):
        return VNONE
    return vref(ExtRef(full))


# ---------------------------------------------------------------------------
def deps_of(ip, vs, st):
    d = EMPTY
    for v in vs:
        if not isinstance(v, V):
            continue
        d |= v.deps
        for l in v.locs():
            o = st.heap.get(l)
            if isinstance(o, Arr):
                a = ip.arr(l, st)
                d |= a.v.deps
                if a.col0 is not None:
                    d |= a.col0.deps
            elif isinstance(o, Lst):
                e = ip.lst_elem(o)
                if e is not None:
                    d |= e.deps
                    if e.locs():
                        for ll in e.locs():
                            if isinstance(st.heap.get(ll), Arr):
                                d |= ip.arr(ll, st).v.deps
            elif isinstance(o, Rng):
                d |= o.start.deps | o.stop.deps
    return d


def dtype_of(v):
    """'f', 'i', 'b', or None"""
    if v is None or v.is_none:
        return None
    for r in v.refs:
        if isinstance(r, ExtRef):
            n = r.name.split(".")[-1]
            if n.startswith("float") or n in ("double", "longdouble", "single", "half"):
                return "f"
            if n.startswith("int") or n.startswith("uint") or n in ("long", "intp", "integer"):
                return "i"
            if n in ("bool", "bool_"):
                return "b"
    if isinstance(v.const, str):
        c = v.const
        if c.startswith(("f", "d")):
            return "f"
        if c.startswith(("i", "u", "l")):
            return "i"
        if c.startswith(("b", "?")):
            return "b"
    return None


def new(ip, st, node, arr, tag="np"):
    return vref(ip.alloc(st, node, arr.but(view=None, origin=None), tag))


def allfacets(ip, a):
    return ip.join_v(a.v, a.col0, lambda x, y, k: x) if a.col0 is not None else a.v


def shape_from(ip, v, st):
    """shape argument -> tuple of V, or None"""
    if v.locs():
        ex = ip.iter_exact(v, st)
        if ex is not None:
            return tuple(ex)
        return None
    if v.refs or v.unk:
        return None
    return (v,)


def shape_terms(sh):
    if sh is None or any(x.term is None for x in sh):
        return (fresh("shape", False),)
    return tuple(x.term for x in sh)


def arg(args, kwargs, i, name, default=None):
    if i is not None and len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def convert(v, dt):
    if dt == "i" and not v.isint and not v.isbool and v.term is not None and not v.unk:
        if T.all_int(v.term):
            return v.but(isint=True)
        return V(term=app("trunc", v.term) if not has_arr(v.term) else aatom("trunc", (v.term,), I.arr_ndim(v.term)),
                 lo=math.floor(v.lo) if v.lo not in (INF, -INF) else v.lo,
                 hi=math.ceil(v.hi) if v.hi not in (INF, -INF) else v.hi, unit=v.unit, deps=v.deps, isint=True)
    if dt == "f":
        return v.but(isint=False, isbool=False)
    if dt == "i" and v.isbool:
        return v.but(isbool=False)
    if dt == "b" and v.term is not None and not v.isbool:
        if T.is_bool(v.term):
            return v.but(isbool=True)
        t = not_(eq(v.term, ZERO))
        lo, hi = bounds(t)
        return v.but(term=t, lo=max(0, lo), hi=min(1, hi), isbool=True, isint=True, unit=DIMLESS, lt=None, nan=False, inf=False)
    return v


# ---- scalar functions (applied elementwise) --------------------------------
def f_exp(ip, node, st):
    def fn(x):
        if x.term is None or x.unk or x.refs:
            return top("exp", x.deps)
        eu = DIMLESS
        if x.unit not in (None, "any", DIMLESS) and x.unit[0] == "log":
            eu = x.unit[1]
        elif x.unit not in (None, "any", DIMLESS):
            ip.emit("unit", node, st, what="argument of exp", a=x.unit, b=DIMLESS)
        if x.lo == x.hi == INF:
            return V(term=T.INFT, lo=INF, hi=INF, inf=True, unit=DIMLESS, deps=x.deps, nan=x.nan)
        if x.lo == x.hi == -INF:
            return V(term=ZERO, lo=0, hi=0, unit=DIMLESS, deps=x.deps, nan=x.nan)
        t = T.exp(x.term)
        l = T.exp(x.lt) if x.lt is not None else None
        bl, bh = bounds(t)
        ll, lh = bounds(l) if l is not None else (0, INF)
        el = T._exp(x.lo) if x.lo != 0 else 1
        eh = T._exp(x.hi) if x.hi != 0 else 1
        return V(term=t, lo=max(bl, ll, el, 0), hi=min(bh, lh, eh), unit=eu, deps=x.deps, inf=x.inf and x.hi > 0,
                 nan=x.nan, lt=l)
    return fn


def f_log(ip, node, st, base=None):
    def fn(x):
        if x.term is None or x.unk or x.refs:
            return top("log", x.deps)
        u = x.unit
        if u is not None and u != "any" and u != DIMLESS and u[0] != "log":
            u = ("log", u)
        elif u == "any":
            u = None
        t = T.log(x.term)
        lo, hi = -INF, INF
        if x.lo > 0:
            lo = 0 if x.lo == 1 else (math.log(x.lo) if x.lo != INF else INF)
        if x.hi not in (INF,) and x.hi > 0:
            hi = 0 if x.hi == 1 else math.log(x.hi)
        if base is not None:
            t = mul(t, num(Fraction(repr(1 / math.log(base)))))
            lo, hi = (lo / math.log(base), hi / math.log(base)) if base > 1 else (-INF, INF)
        return V(term=t, lo=lo, hi=hi, unit=u, deps=x.deps, inf=x.inf or x.lo <= 0, nan=x.nan or x.lo < 0)
    return fn


def f_isnan(ip, node, st):
    def fn(x):
        if x.unk or x.term is None:
            return V(term=app("isnan", x.term) if x.term is not None else fresh("isnan"), lo=0, hi=1, unit=DIMLESS, deps=x.deps, isint=True, isbool=True, unk=True)
        if x.term is T.NANT:
            return vnum(True).but(deps=x.deps)
        if not x.nan:
            return vnum(False).but(deps=x.deps)
        return V(term=of_atom(atom("isnan", (x.term,), 0, 1, True, True)), lo=0, hi=1, unit=DIMLESS, deps=x.deps, isint=True, isbool=True)
    return fn


def f_sqrt(ip, node, st):
    def fn(x):
        if x.term is None or x.unk or x.refs:
            return top("sqrt", x.deps)
        u = x.unit
        if u is not None and u != "any" and u[0] != "log":
            u = (Fraction(u[0]) / 2, Fraction(u[1]) / 2)
        t = T.pow_(x.term, num(Fraction(1, 2)))
        return V(term=t, lo=max(0, bounds(t)[0]), hi=(INF if x.hi == INF else math.sqrt(max(float(x.hi), 0))), unit=u, deps=x.deps,
                 inf=x.inf, nan=x.nan or x.lo < 0)
    return fn


def close(ip, a, b, rtol, atol, st, node):
    """np.isclose of finite numbers: |a - b| <= atol + rtol |b|"""
    def fn(x, y):
        if any(z.term is None or z.unk or z.refs or z.inf or z.nan for z in (x, y)):
            return V(term=of_atom(atom("isclose", (x.term or NONET, y.term or NONET), 0, 1, True, True)), lo=0, hi=1, unit=DIMLESS, deps=x.deps | y.deps, isint=True, isbool=True)
        d = f_abs(ip, node, st)(ip.num_op(ast.Sub(), x, y, node, st))
        tol = ip.num_op(ast.Mult(), rtol, f_abs(ip, node, st)(y), node, st)
        if atol.const != 0:
            tol = ip.num_op(ast.Add(), atol, tol, node, st)
            if const(y.term) == 0 and x.unit not in (None, "any", DIMLESS):
                ip.emit("unit", node, st, what="absolute tolerance", a=x.unit, b=atol.unit if isinstance(atol.unit, tuple) else DIMLESS)
        return ip.num_cmp(ast.LtE(), d, tol, node, st)
    if rtol.locs() or atol.locs():
        return None
    return ip.emap(fn, [a, b], st, node)


def f_round(op, ip, node, st):
    def fn(x):
        if isinstance(x.unit, tuple) and x.unit != DIMLESS and x.unit[0] != "log":
            ip.emit("unit", node, st, what="rounding", a=x.unit, b=DIMLESS)
        if x.term is None or x.unk or x.refs:
            return top(op, x.deps)
        if x.isint or T.all_int(x.term):
            return x
        c = const(x.term)
        if c is not None:
            r = {"ceil": math.ceil, "floor": math.floor, "round": round, "trunc": math.trunc}[op](c)
            return vnum(r).but(deps=x.deps)
        t = app(op, x.term)
        g = lambda y, f: y if y in (INF, -INF) else f(y)
        return V(term=t, lo=g(x.lo, math.floor), hi=g(x.hi, math.ceil), unit=x.unit, deps=x.deps, isint=True, inf=x.inf, nan=x.nan)
    return fn


def f_abs(ip, node, st):
    def fn(x):
        if x.term is None or x.unk or x.refs:
            return top("abs", x.deps)
        t = app("abs", x.term)
        lo = 0 if x.lo <= 0 <= x.hi else min(abs(x.lo), abs(x.hi))
        return x.but(term=t, lo=lo, hi=max(abs(x.lo), abs(x.hi)), const=None, lt=None)
    return fn


def f_app(op, ip, node, st, lo=-INF, hi=INF, unit=DIMLESS, check=True):
    def fn(x):
        if x.term is None or x.unk or x.refs:
            return top(op, x.deps)
        if check and x.unit not in (None, "any", DIMLESS):
            ip.emit("unit", node, st, what="argument of " + op, a=x.unit, b=DIMLESS)
        return V(term=app(op, x.term), lo=lo, hi=hi, unit=unit, deps=x.deps, nan=x.nan)
    return fn


def f_minmax(op, ip, node, st):
    def fn(x, y):
        if any(z.term is None or z.unk or z.refs for z in (x, y)):
            return top(op, x.deps | y.deps)
        u, ok = I.uadd(x.unit, y.unit)
        if not ok:
            ip.emit("unit", node, st, what=op, a=x.unit, b=y.unit)
        if x.lo == x.hi and x.lo in (INF, -INF) or y.lo == y.hi and y.lo in (INF, -INF):
            a, b = (x, y) if x.lo == x.hi and x.lo in (INF, -INF) else (y, x)
            if (a.lo == INF) == (op == "min"):
                return b
            return a
        f = max if op == "max" else min
        t = T.max_(x.term, y.term) if op == "max" else T.min_(x.term, y.term)
        bl, bh = bounds(t)
        return V(term=t, lo=max(bl, f(x.lo, y.lo)), hi=min(bh, f(x.hi, y.hi)), unit=u, deps=x.deps | y.deps,
                 isint=x.isint and y.isint, inf=x.inf or y.inf, nan=x.nan or y.nan)
    return fn


def f_where(ip, node, st):
    def fn(c, x, y):
        d = c.deps | x.deps | y.deps
        k, known = ip.truth(c.but(refs=EMPTY), st)
        if known is True:
            return x.with_deps(d)
        if known is False:
            return y.with_deps(d)
        r = ip.join_v(x, y, lambda a, b, key: ite(k, a, b))
        return r.with_deps(d)
    return fn


# ---- reductions -------------------------------------------------------------
def vec_elems(t):
    a = single_atom(t) if t is not None else None
    if a is not None and a.op == "vec":
        return list(a.args[0])
    return None


def range_mono(t):
    a = single_atom(t) if t is not None else None
    if a is not None and a.op == "range":
        return a.args
    return None


def reduce_(ip, op, v, axis, st, node, keep=None):
    """sum / max / min / argmax / argmin / any / all / mean / prod over an array-like value"""
    a = None
    # range objects
    rl = [l for l in v.locs() if isinstance(st.heap.get(l), Rng)]
    if rl and len(v.refs) == 1 and op in ("max", "min"):
        o = st.heap[rl[0]]
        if o.step.const == 1:
            r = ip.num_op(ast.Sub(), o.stop, vnum(1), node, st) if op == "max" else o.start
            return r.with_deps(v.deps)
        if o.step.const == -1:
            r = ip.num_op(ast.Add(), o.stop, vnum(1), node, st) if op == "min" else o.start
            return r.with_deps(v.deps)
    if ip.opts.get("tab"):
        r = tabular.fold(ip, op, [v] + ([axis] if axis is not None else []), {}, st, node)
        if r is not None:
            return r
    ex = ip.iter_exact(v, st)
    if ex is not None and axis is None and ex and op in ("sum", "max", "min") and not any(e.locs() for e in ex):
        r = ex[0]
        for e in ex[1:]:
            r = ip.num_op(ast.Add(), r, e, node, st) if op == "sum" else f_minmax(op, ip, node, st)(r, e)
        return r.with_deps(v.deps)
    if ex is not None and axis is None and op == "sum" and ex:
        r = ex[0]
        for e in ex[1:]:
            r = ip.binop(ast.Add(), r, e, st, node)
        return r.with_deps(v.deps)
    if ex is not None and not ex and op == "sum":
        return vnum(0)
    if not v.locs():
        if v.term is None or v.unk:
            return top(op, v.deps)
        if op in ("sum", "max", "min", "any", "all"):
            return v
    a = ip.to_arr(v, st)
    f = allfacets(ip, a).with_deps(v.deps)
    if f.unk or f.term is None:
        d = f.deps
        return top(op, d)
    t = a.v.term
    ve = vec_elems(t)
    if axis is not None and axis.is_none:
        axis = None
    ax = axis.const if axis is not None else None
    if axis is not None and ax is None and axis.term is not None:
        ax = axis.term
    nd = a.ndim
    full = axis is None or nd == 1
    if nd is not None and isinstance(ax, int) and ax < 0:
        ax += nd
    axk = ("ax", "all") if full else ("ax", ax if not isinstance(ax, Term) else repr(ax))
    lo, hi, unit, isint, isbool = f.lo, f.hi, f.unit, f.isint, False
    if ip.opts.get("exact") and not isinstance(ax, Term):
        r = exact_reduce(ip, op, a, f, ax, full, st, node)
        if r is not None:
            return r
    if op == "sum":
        n = None
        if full and ve is not None:
            tt = ZERO
            for x in ve:
                tt = add(tt, x)
            lo2, hi2 = bounds(tt)
            return relet(V(term=tt, lo=lo2, hi=hi2, unit=unit, deps=f.deps, inf=f.inf, nan=f.nan, isint=isint))
        at = single_atom(t)
        if full and at is not None and at.op == "map":
            tt = of_atom(atom("sum", (at.args[0], at.args[1]), 0 if f.lo >= 0 else -INF, 0 if f.hi <= 0 else INF))
            return relet(V(term=tt, lo=0 if f.lo >= 0 else -INF, hi=0 if f.hi <= 0 else INF, unit=unit, deps=f.deps, inf=f.inf, nan=f.nan, isint=isint))
        if full and at is not None and at.op in ("zeros",):
            return vnum(0)
        lo, hi = (0 if f.lo >= 0 else -INF), (0 if f.hi <= 0 else INF)
        if f.isbool:
            isint = True
            unit = DIMLESS
    elif op == "prod":
        unit = DIMLESS if unit == DIMLESS else None
        lo, hi = (0 if f.lo >= 0 else -INF), INF
    elif op in ("argmax", "argmin"):
        lo, hi, unit, isint = 0, INF, DIMLESS, True
        if a.shape is not None and full and len(a.shape) == 1 and a.shape[0].hi != INF:
            hi = a.shape[0].hi - 1
    elif op in ("any", "all"):
        lo, hi, unit, isint, isbool = 0, 1, DIMLESS, True, True
        if f.lo == f.hi == 1 or (not f.isbool and f.lo > 0):
            return vnum(True).but(deps=f.deps) if op == "all" else V(term=app("nonempty", t), lo=0, hi=1, isbool=True, isint=True, deps=f.deps, unit=DIMLESS)
        if f.lo == f.hi == 0 and op == "any":
            return vnum(False).but(deps=f.deps)
    elif op in ("max", "min"):
        if full and ve is not None and ve:
            r = ve[0]
            for x in ve[1:]:
                r = T.max_(r, x) if op == "max" else T.min_(r, x)
            return relet(V(term=r, lo=max(lo, bounds(r)[0]), hi=min(hi, bounds(r)[1]), unit=unit, deps=f.deps, inf=f.inf, nan=f.nan, isint=isint))
        rg = range_mono(t)
        if full and rg is not None and const(rg[2]) == 1:
            r = sub(rg[1], ONE) if op == "max" else rg[0]
            return relet(V(term=r, lo=lo, hi=hi, unit=unit, deps=f.deps, isint=True))
    if full:
        r = atom("r" + op, (t,), lo, hi, isint, isbool)
        if op in ("argmax", "argmin") and a.shape is not None and len(a.shape) == 1 and a.shape[0].term is not None:
            T.SYMBOUNDS[r.id] = (ZERO, sub(a.shape[0].term, ONE))
        return relet(V(term=of_atom(r), lo=lo, hi=hi, unit=unit, deps=f.deps, inf=f.inf and op not in ("argmax", "any", "all"),
                       nan=f.nan and op not in ("argmax", "argmin", "any", "all"), isint=isint, isbool=isbool))
    shape = None
    if a.shape is not None and isinstance(ax, int) and ax < len(a.shape):
        shape = tuple(x for i, x in enumerate(a.shape) if i != ax)
    tt = aatom("r" + op, (t, axk), (nd - 1) if nd is not None else None, lo, hi, isint, isbool)
    return new(ip, st, node, Arr(V(term=tt, lo=lo, hi=hi, unit=unit, deps=f.deps, inf=f.inf, nan=f.nan and op not in ("argmax", "any", "all"), isint=isint, isbool=isbool),
                                 shape, None, "b" if isbool else ("i" if isint else "f")))


def exact_shape(a, most=64):
    """the extents of a small array of known size, or None"""
    if a.shape is None or a.v.term is None:
        return None
    ns = []
    for x in a.shape:
        k = const(x.term) if x.term is not None else None
        if k is None or k != int(k) or k < 0:
            return None
        ns.append(int(k))
    p = 1
    for k in ns:
        p *= k
    return ns if p <= most and len(ns) in (1, 2) else None


def exact_array(ip, cells, shape, like, st, node, how):
    """a small array given cell by cell: {index tuple of ints: term}"""
    if len(shape) == 1:
        t = aatom("vec", (tuple(cells[(i,)] for i in range(shape[0])),), 1)
    else:
        t = aatom("zeros", tuple(num(k) for k in shape), 2, 0, 0)
        for k in sorted(cells):
            t = ip_store(t, tuple(num(i) for i in k), cells[k])
    bs = [bounds(x) for x in cells.values()] or [(0, 0)]
    v = like.but(term=t, lo=min(b[0] for b in bs), hi=max(b[1] for b in bs), lt=None)
    return new(ip, st, node, Arr(v, tuple(vnum(k) for k in shape), None, "f"), how)


def exact_reduce(ip, op, a, f, ax, full, st, node):
    ns = exact_shape(a)
    if ns is None or op not in ("sum", "max", "min", "any", "all", "argmax", "argmin"):
        return None
    t = a.v.term
    idx = [(i,) for i in range(ns[0])] if len(ns) == 1 else [(i, j) for i in range(ns[0]) for j in range(ns[1])]
    cell = {k: select_term(t, tuple(num(i) for i in k)) for k in idx}
    if any(has_arr(x) and arr_ndim(x) for x in cell.values()):
        return None
    groups = {}
    for k in idx:
        g = () if full else ((k[1],) if ax == 0 else (k[0],))
        groups.setdefault(g, []).append(cell[k])
    out = {}
    for g, xs in groups.items():
        if op == "sum":
            r = ZERO
            for x in xs:
                r = add(r, x)
        elif op in ("max", "min"):
            r = T.max_(*xs) if op == "max" else T.min_(*xs)
        elif op in ("any", "all"):
            r = ZERO if op == "any" else T.ONE
            for x in xs:
                b = x if T.is_bool(x) or T._is01(x) else T.not_(T.eq(x, ZERO))
                r = T.or_(r, b) if op == "any" else T.and_(r, b)
        else:
            if not all(T._is01(x) for x in xs):
                if not all(const(x) is not None for x in xs):
                    return None
                vals = [const(x) for x in xs]
                r = num(vals.index(max(vals) if op == "argmax" else min(vals)))
            else:
                want = op == "argmax"
                r = ZERO
                for i in range(len(xs) - 1, -1, -1):
                    r = T.ite(xs[i], num(i), r) if want else T.ite(xs[i], r, num(i))
        out[g] = r
    unit = DIMLESS if op in ("any", "all", "argmax", "argmin") else f.unit
    isb = op in ("any", "all")
    if full:
        r = out.get((), ZERO)
        lo, hi = bounds(r)
        return relet(V(term=r, lo=lo, hi=hi, unit=unit, deps=f.deps, inf=f.inf and not isb, nan=f.nan and not isb, isint=f.isint or isb or op.startswith("arg"), isbool=isb))
    return exact_array(ip, out, [len(out)], f.but(unit=unit, isbool=isb, isint=f.isint or isb or op.startswith("arg")), st, node, "exact")


def exact_concat(ip, arrs, ax, v, st, node):
    ns = [exact_shape(a) for a in arrs]
    if any(n is None or len(n) != len(ns[0]) for n in ns) or not 0 <= ax < len(ns[0]):
        return None
    if any(n[i] != ns[0][i] for n in ns for i in range(len(n)) if i != ax):
        return None
    cells, off = {}, 0
    for a, n in zip(arrs, ns):
        for i in range(n[0]):
            for j in range(n[1]) if len(n) == 2 else (None,):
                k = (i,) if j is None else (i, j)
                to = tuple(x + off if d == ax else x for d, x in enumerate(k))
                cells[to] = select_term(a.v.term, tuple(num(x) for x in k))
        off += n[ax]
    return exact_array(ip, cells, [off if d == ax else x for d, x in enumerate(ns[0])], v, st, node, "concat")


def exact_roll(ip, v, shift, ax, st, node):
    a = ip.to_arr(v, st)
    ns = exact_shape(a)
    k = shift.const if shift is not None else None
    if k is None and shift is not None and shift.term is not None:
        k = const(shift.term)
    if ns is None or k is None or k != int(k) or (len(ns) == 2 and ax not in (0, 1)):
        return None
    k = int(k)
    cells = {}
    for i in range(ns[0]):
        for j in range(ns[1]) if len(ns) == 2 else (None,):
            if j is None:
                src = ((i - k) % ns[0],)
            else:
                src = ((i - k) % ns[0], j) if ax == 0 else (i, (j - k) % ns[1])
            cells[(i,) if j is None else (i, j)] = select_term(a.v.term, tuple(num(x) for x in src))
    return exact_array(ip, cells, ns, allfacets(ip, a), st, node, "roll")


# ---- copying ---------------------------------------------------------------
def orig_site(l):
    t = l.site[2]
    if isinstance(t, tuple) and t and t[0] == "dc":
        return t[1]
    return (l.site, l.age)


def deepcopy(ip, v, st, node, deep=True):
    # methods can be overridden
    for l in v.locs():
        o = st.heap.get(l)
        if isinstance(o, Inst) and isinstance(o.cls, Class):
            m, _ = o.cls.find("__deepcopy__" if deep else "__copy__")
            if m is not None:
                args = [v, top("memo")] if deep else [v]
                return ip.call_fn(m[1], args, {}, st, node)
    order, seen = [], set()
    todo = list(v.locs())
    while todo:
        l = todo.pop()
        if l in seen or l not in st.heap:
            continue
        seen.add(l)
        order.append(l)
        o = st.heap[l]
        if not deep and len(order) >= len(v.locs()):
            break
        if isinstance(o, Env):
            continue
        for x in values_of(o):
            for r in x.refs:
                if isinstance(r, Loc):
                    todo.append(r)
                elif isinstance(r, BoundRef):
                    todo += [q for q in r.selfv.refs if isinstance(q, Loc)]
        if isinstance(o, Arr) and o.view is not None:
            pass
    ren = {}
    objs = []
    for l in order:
        o = st.heap[l]
        if isinstance(o, Env):
            continue
        if isinstance(o, Arr):
            r = ip.arr(l, st)
            o = r.but(view=None, origin=None)
        objs.append((l, o))
    used = {}
    out = []
    for l, o in objs:
        site = (ip.ctxkey(), id(node), ("dc", orig_site(l)), "%s:%s" % (type(node).__name__, getattr(node, "lineno", "?")))
        nl = Loc(site, 1 if (l.summary or site in used) else 0)
        used[site] = True
        ren[l] = nl
        out.append((nl, o))

    # age what an earlier execution of this copy made
    for nl, o in out:
        z = Loc(nl.site, 0)
        if z in st.heap:
            for k in list(ren):
                pass
            ip.age(st, z)
    # sources may have been renamed by ageing (copy of an earlier copy)
    fixed = []
    for (l, _), (nl, _o) in zip(objs, out):
        src = l if l in st.heap and not (l.site == nl.site and l.age == 0) else Loc(l.site, 1)
        o = st.heap.get(src, _o)
        if isinstance(o, Arr):
            o = (ip.arr(src, st) if src in st.heap else o).but(view=None, origin=None)
        fixed.append((src, nl, o))
    ren = {}
    for src, nl, o in fixed:
        ren[src] = nl
    for l, o in objs:
        if l not in ren and Loc(l.site, 1) in ren:
            ren[l] = ren[Loc(l.site, 1)]

    def rref(r):
        if isinstance(r, Loc):
            return ren.get(r, r)
        if isinstance(r, BoundRef) and any(q in ren for q in r.selfv.refs):
            return BoundRef(r.func, r.selfv.but(refs=frozenset(ren.get(q, q) for q in r.selfv.refs)))
        return r

    def rv(x):
        if x is None or not x.refs:
            return x
        n = frozenset(rref(r) for r in x.refs)
        return x.but(refs=n) if n != x.refs else x
    for src, nl, o in fixed:
        n = ip.map_obj(o, rv) if deep else o
        if nl in st.heap:
            n = ip.join_obj(st.heap[nl], n, lambda a, b, k: a if a is b else T.fresh("old", False), "dc")
        st.heap[nl] = n
    ip.emit("copy", node, st, pairs=[(a, b) for a, b, _ in fixed], deep=deep)
    keep = v.refs
    return v.but(refs=frozenset(rref(r if not isinstance(r, Loc) or r in ren else (Loc(r.site, 1) if Loc(r.site, 1) in ren else r)) for r in keep))


def values_of(o):
    if isinstance(o, Inst):
        return [x for x in o.attrs.values() if x is not None]
    if isinstance(o, Lst):
        return list(o.elems) if o.elems is not None else ([o.elem] if o.elem is not None else [])
    if isinstance(o, Dct):
        return list(o.items.values()) + ([o.elem] if o.elem is not None else [])
    if isinstance(o, Zip):
        return [p for p in o.parts if isinstance(p, V)]
    if isinstance(o, Env):
        return list(o.vars.values())
    return []


# ---- arrays -----------------------------------------------------------------
def mk_array(ip, v, st, node, dt=None, copy=True):
    ls = [l for l in v.locs() if isinstance(st.heap.get(l), Arr)]
    if ls and not copy and len(ls) == len(v.refs):
        res = None
        for l in ls:
            o = st.heap[l]
            if o.cls == "ndarray" or o.cls is None:
                r = vref(l)
            else:
                nd = o.ndim
                view = (l, (I.mk_slice(None, None, None),) * nd) if nd is not None else (l, None)
                r = vref(ip.alloc(st, node, Arr(o.v, o.shape, None, o.dtype, view=view), "as%d" % l.n))
            res = r if res is None else ip.join_v(res, r, lambda a, b, k: a)
        return res.with_deps(v.deps)
    a = ip.to_arr(v, st)
    if not v.locs() and (v.unk or v.term is None or (v.refs - {NONE})):
        return new(ip, st, node, Arr(top("array", v.deps), None))
    vv = a.v
    c0 = a.col0
    if dt is not None:
        vv = convert(vv, dt)
        c0 = convert(c0, dt) if c0 is not None else None
    if vv.term is not None and a.ndim and not has_arr(vv.term) and const(vv.term) is None and single_atom(vv.term) is not None:
        pass
    return new(ip, st, node, Arr(vv.with_deps(v.deps).but(lt=None, refs=EMPTY), a.shape, c0, dt or a.dtype, cells=dict(a.cells) if dt in (None, "f") else None))


def fill_array(ip, kind, sh, dt, st, node, val=None):
    n = len(sh) if sh is not None else None
    d = EMPTY
    for x in sh or ():
        d |= x.deps
    if kind == "zeros":
        t = aatom("zeros", shape_terms(sh), n, 0, 0)
        v = V(term=t, lo=0, hi=0, unit="any", deps=EMPTY, isint=dt in ("i", "b"), isbool=dt == "b")
    elif kind == "ones":
        t = aatom("ones", shape_terms(sh), n, 1, 1)
        v = V(term=t, lo=1, hi=1, unit=DIMLESS, isint=dt in ("i", "b"), isbool=dt == "b")
    elif kind == "full":
        if const(val.term) == 0 if val.term is not None else False:
            return fill_array(ip, "zeros", sh, dt, st, node)
        t = aatom("full", (val.term if val.term is not None else NONET,) + shape_terms(sh), n, val.lo, val.hi)
        v = val.but(term=t, const=None, lt=None, refs=EMPTY)
        d = d | val.deps
    else:
        t = aatom("empty", (fresh("empty", False),) + shape_terms(sh), n)
        v = V(term=t, unit="any", isint=dt in ("i", "b"), isbool=dt == "b")
        r = new(ip, st, node, Arr(v, sh, None, dt or "f"))
        ip.emit("uninit", node, st, loc=r.locs()[0], view=None)
        return r
    return new(ip, st, node, Arr(v, sh, None, dt or "f"))


def permuted(ip, op, v, st, node, extra=(), keepcol=False, shape="same", view=True):
    ls = [l for l in v.locs() if isinstance(st.heap.get(l), Arr)]
    if not ls and v.locs():
        v = mk_array(ip, v, st, node)
        ls = v.locs()
    res = None
    for l in ls:
        a = ip.arr(l, st)
        f = a.v if keepcol else allfacets(ip, a)
        t = aatom(op, (a.v.term,) + tuple(extra), a.ndim) if a.v.term is not None else None
        sh = a.shape if shape == "same" else (tuple(reversed(a.shape)) if shape == "rev" and a.shape is not None else None)
        r = new(ip, st, node, Arr(f.but(term=t, lt=None), sh, a.col0.but(term=t) if keepcol and a.col0 is not None else None, a.dtype, cls=a.cls), op + str(l.n))
        # flips and transposes are views of their argument
        o = st.heap[r.locs()[0]]
        if view and ip.opts.get("tab") and not tabular.held(st, l, r.locs()[0]):
            # nobody can see the argument any more: the same as a copy
            st.heap[r.locs()[0]] = tabular.settle(o)
        elif view:
            st.heap[r.locs()[0]] = o.but(view=(l, op)) if not extra else o
        res = r if res is None else ip.join_v(res, r, lambda a, b, k: a)
    return res.with_deps(v.deps) if res is not None else top(op, v.deps)


def transpose(ip, v, st, node):
    ls = [l for l in v.locs() if isinstance(st.heap.get(l), Arr)]
    res = None
    for l in ls:
        o = st.heap[l]
        # transpose of a transpose
        if o.view is not None and o.view[1] == "T":
            r = vref(o.view[0])
        else:
            sh = o.shape if o.view is None else ip.arr(l, st).shape
            r = vref(ip.alloc(st, node, Arr(o.v, tuple(reversed(sh)) if sh is not None else None, None, o.dtype, view=(l, "T"), cls=o.cls), "T%d" % l.n))
        res = r if res is None else ip.join_v(res, r, lambda a, b, k: a)
    return res.with_deps(v.deps) if res is not None else top("T", v.deps)


def arr_attr(ip, ref, o, name, sv, st, node):
    if name == "shape":
        a = ip.arr(ref, st)
        if a.shape is None:
            t = app("shapeof", a.v.term) if a.v.term is not None else fresh("shape", False)
            return vref(ip.alloc(st, node, Lst(None, vterm(fresh("dim", False), lo=0, isint=True, unit=DIMLESS), vterm(fresh("nd", False), lo=0, isint=True), "tuple"), "shape"))
        return ip.new_list(list(a.shape), st, node, "tuple", "shape%d" % ref.n)
    if name == "T":
        return transpose(ip, sv, st, node)
    if name == "ndim":
        a = ip.arr(ref, st)
        return vnum(a.ndim) if a.ndim is not None else vterm(fresh("nd", False), lo=0, isint=True)
    if name == "size":
        a = ip.arr(ref, st)
        if a.shape is not None:
            r = vnum(1)
            for x in a.shape:
                r = ip.num_op(ast.Mult(), r, x, node, st)
            return r
        return vterm(fresh("size", False), lo=0, isint=True)
    if name == "dtype":
        return V(refs=frozenset([ExtRef({"f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_"}.get(o.dtype, "numpy.dtype?"))]))
    if name == "__class__":
        return vref(ExtRef("class:" + (o.cls or "ndarray")))
    if name in ("flat", "real"):
        return sv
    if o.meta is not None and name in o.meta:
        return o.meta[name]
    if o.cls not in (None, "ndarray") and name not in ND_METHODS:
        if o.view is not None and isinstance(st.heap.get(o.view[0]), Arr):
            return arr_attr(ip, o.view[0], st.heap[o.view[0]], name, vref(o.view[0]), st, node)
        return V(refs=frozenset([BoundRef(name, sv)]), term=fresh("attr:" + name, False), deps=o.v.deps)
    return vref(BoundRef(name, sv))


ND_METHODS = {"copy", "fill", "flatten", "ravel", "astype", "sum", "max", "min", "mean", "prod", "cumsum", "argmax", "argmin", "tolist",
              "transpose", "reshape", "any", "all", "nonzero", "clip", "dot", "round", "item", "squeeze", "swapaxes", "view",
              "sort", "argsort", "repeat", "take", "put", "conj", "__len__", "itemset", "setflags", "tobytes", "std", "var", "searchsorted"}


def nd_method(ip, name, selfv, args, kwargs, st, node):
    ls = selfv.locs()
    l = ls[0]
    a = ip.arr(l, st)
    d = selfv.deps
    if ip.opts.get("tab"):
        r = tabular.fold_method(ip, name, selfv, args, kwargs, st, node)
        if r is not None:
            return r
    if name in ("copy", "__copy__"):
        return new(ip, st, node, Arr(a.v.but(lt=None), a.shape, a.col0, a.dtype, cls=a.cls, meta=a.meta, cells=dict(a.cells)), "cp%d" % l.n).with_deps(d)
    if name == "fill":
        ip.write_array(st, l, None, args[0] if args else top(), node, "fill")
        return VNONE
    if name in ("flatten", "ravel"):
        if a.ndim == 1:
            sh = a.shape
            t = a.v.term
        elif a.ndim == 2 and a.shape is not None and a.shape[0].const == 1:
            sh = (a.shape[1],)
            t = select_term(a.v.term, (ZERO,)) if a.v.term is not None else None
            at = single_atom(a.v.term) if a.v.term is not None else None
            if at is not None and at.op == "stack1":
                t = at.args[0]
        elif a.ndim == 0:
            sh = (vnum(1),)
            t = a.v.term
        else:
            sh = None
            t = aatom("flat", (a.v.term,), 1) if a.v.term is not None else None
        r = new(ip, st, node, Arr(allfacets(ip, a).but(term=t, lt=None), sh, None, a.dtype), "fl%d" % l.n)
        if name == "ravel":
            o = st.heap[r.locs()[0]]
            st.heap[r.locs()[0]] = o.but(view=(l, "flat"))
        return r.with_deps(d)
    if name == "astype":
        dt = dtype_of(arg(args, kwargs, 0, "dtype"))
        cp = kwargs.get("copy")
        if cp is not None and cp.const is False and (dt is None or dt == a.dtype or a.dtype is None):
            return selfv
        vv = convert(a.v, dt) if dt else a.v
        c0 = convert(a.col0, dt) if dt and a.col0 is not None else a.col0
        return new(ip, st, node, Arr(vv.but(lt=None), a.shape, c0, dt or a.dtype, cls=a.cls, meta=a.meta), "at%d" % l.n).with_deps(d)
    if name in ("sum", "max", "min", "argmax", "argmin", "any", "all", "prod"):
        return reduce_(ip, name, selfv, arg(args, kwargs, 0, "axis"), st, node)
    if name == "tolist":
        return vref(ip.alloc(st, node, Lst(None, allfacets(ip, a), a.shape[0] if a.shape else None, "list", a.v.term if a.ndim == 1 else None), "tl%d" % l.n)).with_deps(d)
    if name == "transpose" and not args:
        return transpose(ip, selfv, st, node)
    if name == "swapaxes":
        return transpose(ip, selfv, st, node)
    if name in ("reshape", "view", "squeeze", "cumsum", "clip", "nonzero", "round", "mean", "std", "repeat", "take", "dot", "transpose", "var", "argsort"):
        return np_call(ip, name, [selfv] + list(args), kwargs, st, node)
    if name == "item":
        return allfacets(ip, a).but(term=select_term(a.v.term, (args[0].term,)) if args and args[0].term is not None and a.v.term is not None else a.v.term)
    if name in ("sort", "put", "itemset"):
        ip.write_array(st, l, None, V(term=fresh("sorted", False), lo=a.v.lo, hi=a.v.hi, unit=a.v.unit, deps=a.v.deps), node, name)
        return VNONE
    if name == "__len__":
        return ip.length(selfv, st)
    if name == "setflags":
        return VNONE
    return top("nd." + name, d | a.v.deps)


def method(ip, r, fv, args, kwargs, st, node):
    name, selfv = r.func, r.selfv
    if name.startswith("list."):
        name = name[5:]
        for l in selfv.locs():
            o = st.heap.get(l)
            if isinstance(o, Inst) and "data" in o.attrs:
                res = method(ip, BoundRef(name, o.attrs["data"]), fv, args, kwargs, st, node)
                return res
    ls = selfv.locs()
    if ls:
        o = st.heap.get(ls[0])
        if isinstance(o, Arr):
            if name in ND_METHODS or o.cls in (None, "ndarray"):
                return nd_method(ip, name, selfv, args, kwargs, st, node)
            return ip.opaque_call(V(term=app("attr", o.v.term if o.v.term is not None else NONET, name), deps=selfv.deps), args, kwargs, st, node)
        if isinstance(o, Lst):
            return list_method(ip, name, ls[0], o, selfv, args, kwargs, st, node)
        if isinstance(o, Dct):
            return dict_method(ip, name, ls[0], o, selfv, args, kwargs, st, node)
        if isinstance(o, Rng):
            if name == "count" or name == "index":
                return vterm(fresh("rc", False), lo=0, isint=True)
            return top("range." + name)
        if isinstance(o, Opq):
            f = V(term=app("attr", o.term, name), deps=selfv.deps)
            return ip.opaque_call(f, args, kwargs, st, node)
    if isinstance(selfv.const, str) or name in ("format", "join", "split", "strip", "lower", "upper", "startswith", "endswith"):
        return V(term=fresh("str", False))
    if not selfv.refs and selfv.term is not None and not selfv.unk:
        if name in ("copy", "item", "real", "conjugate", "__copy__"):
            return selfv
        if name == "astype":
            return convert(selfv, dtype_of(arg(args, kwargs, 0, "dtype")))
        if name in ("sum", "max", "min", "any", "all"):
            return selfv
        if name == "is_integer":
            return V(term=of_atom(atom("isinteger", (selfv.term,), 0, 1, True, True)), lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS, deps=selfv.deps)
        if fv.term is not None:
            return ip.opaque_call(V(term=fv.term, deps=fv.deps), args, kwargs, st, node)
        return ip.opaque_call(V(term=app("attr", selfv.term, name), deps=selfv.deps), args, kwargs, st, node)
    return top("method:" + name, deps_of(ip, [selfv] + list(args) + list(kwargs.values()), st))


def list_method(ip, name, l, o, selfv, args, kwargs, st, node):
    if name == "append":
        for x in selfv.locs():
            ip.list_append(st, x, args[0], node)
        return VNONE
    if name == "extend":
        for x in selfv.locs():
            ip.list_extend(st, x, args[0], node)
        return VNONE
    if name == "insert":
        if o.elems is not None and isinstance(args[0].const, int) and not l.summary and not ip.loopstack and len(selfv.refs) == 1:
            ip.emit("mutate", node, st, loc=l, how="insert", value=args[1])
            e = list(o.elems)
            e.insert(args[0].const, args[1])
            st.heap[l] = o.but(elems=tuple(e), length=vnum(len(e)), term=None)
            return VNONE
        for x in selfv.locs():
            ip.list_append(st, x, args[1], node, "insert")
        return VNONE
    if name in ("pop", "remove", "clear", "sort", "reverse"):
        ip.emit("mutate", node, st, loc=l, how=name)
        if name == "pop" and o.elems is not None and o.elems and not l.summary and not ip.loopstack and (not args or isinstance(args[0].const, int)):
            e = list(o.elems)
            r = e.pop(args[0].const if args else -1)
            st.heap[l] = o.but(elems=tuple(e), length=vnum(len(e)), term=None)
            return r
        if name == "reverse" and o.elems is not None and not l.summary:
            st.heap[l] = o.but(elems=tuple(reversed(o.elems)), term=None)
            return VNONE
        e = ip.lst_elem(o)
        if name == "clear" and not l.summary and len(selfv.refs) == 1:
            st.heap[l] = Lst((), None, vnum(0), o.kind)
            return VNONE
        if name in ("sort", "reverse"):
            st.heap[l] = o.but(elems=None, elem=e, term=None)
            return VNONE
        st.heap[l] = o.but(elems=None, elem=e, length=vterm(fresh("len", False), lo=0, isint=True, unit=DIMLESS), term=None)
        return e if name == "pop" and e is not None else (VNONE if name != "pop" else top("pop"))
    if name == "copy":
        return vref(ip.alloc(st, node, o.but(), "lcopy%d" % l.n))
    if name in ("index", "count"):
        return vterm(fresh("li", False), lo=0, isint=True, unit=DIMLESS)
    if name == "__len__":
        return o.length
    if name == "add":
        ip.list_append(st, l, args[0], node)
        return VNONE
    return top("list." + name)


def dict_method(ip, name, l, o, selfv, args, kwargs, st, node):
    anyv = None
    for x in list(o.items.values()) + ([o.elem] if o.elem is not None else []):
        anyv = ip.join_v(anyv, x, lambda a, b, k: a if a is b else fresh("d", False))
    if name in ("get", "setdefault", "pop"):
        if name != "get":
            ip.emit("mutate", node, st, loc=l, how=name)
        k = args[0].const if args else None
        if k is not None and k in o.items:
            return o.items[k]
        dflt = args[1] if len(args) > 1 else VNONE
        if name == "setdefault" and k is not None:
            n = dict(o.items)
            n[k] = dflt
            st.heap[l] = o.but(items=n)
            return dflt
        if anyv is None or (k is not None and o.elem is None):
            return dflt
        return ip.join_v(anyv, dflt, lambda a, b, k: fresh("d", False))
    if name in ("items", "values", "keys"):
        if o.elem is None:
            out = []
            for k, v in o.items.items():
                kv = vstr(k) if isinstance(k, str) else vnum(k)
                out.append(v if name == "values" else (kv if name == "keys" else
                           vref(ip.alloc(st, node, Lst((kv, v), kind="tuple"), "it:%s" % (k,)))))
            return ip.new_list(out, st, node, "list", name)
        e = anyv if name == "values" else V(term=fresh("key", False))
        if name == "items":
            e = vref(ip.alloc(st, node, Lst((V(term=fresh("key", False)), anyv), kind="tuple"), "it"))
        return vref(ip.alloc(st, node, Lst(None, e, vterm(fresh("len", False), lo=0, isint=True, unit=DIMLESS)), name))
    if name == "update":
        ip.emit("mutate", node, st, loc=l, how="update")
        n, e = dict(o.items), o.elem
        for k, v in kwargs.items():
            n[k] = v
        for a in args:
            for x in a.locs():
                y = st.heap.get(x)
                if isinstance(y, Dct):
                    n.update(y.items)
                    e = ip.join_v(e, y.elem, lambda p, q, k: fresh("d", False))
        st.heap[l] = o.but(items=n, elem=e)
        return VNONE
    if name == "copy":
        return vref(ip.alloc(st, node, o.but(), "dcopy"))
    if name == "clear":
        ip.emit("mutate", node, st, loc=l, how="clear")
        st.heap[l] = Dct({}, None)
        return VNONE
    return top("dict." + name)


# ---------------------------------------------------------------------------
def ext_call(ip, name, args, kwargs, st, node, mod, cls):
    name = canon(name)
    if name.startswith("builtins."):
        r = builtin(ip, name[9:], args, kwargs, st, node, mod, cls)
    elif name in BUILTINS:
        r = builtin(ip, name, args, kwargs, st, node, mod, cls)
    elif name.startswith("numpy."):
        r = np_call(ip, name[6:], args, kwargs, st, node)
    elif name == "math.isclose" and len(args) == 2:
        r = close(ip, args[0], args[1], kwargs.get("rel_tol") or vnum(1e-9), kwargs.get("abs_tol") or vnum(0), st, node)
        return r if r is not None else top("isclose")
    elif name.startswith("math."):
        r = np_call(ip, name[5:], args, kwargs, st, node)
    elif name in ("copy.deepcopy",):
        r = deepcopy(ip, args[0], st, node) if args else top("deepcopy")
    elif name in ("copy.copy",):
        ls = args[0].locs() if args else []
        if ls and all(isinstance(st.heap.get(x), Arr) for x in ls):
            r = nd_method(ip, "copy", args[0], [], {}, st, node)
        else:
            r = deepcopy(ip, args[0], st, node, deep=False) if args else top("copy")
    elif name.startswith("warnings."):
        r = top("warnings")
    elif name.endswith("integrate.quad"):
        r = quad(ip, args, kwargs, st, node, mod, cls)
    elif name.endswith("optimize.fsolve"):
        r = fsolve(ip, args, kwargs, st, node, mod, cls)
    elif name.startswith("class:"):
        r = make_frame(ip, name[6:], args, kwargs, st, node)
    elif name.startswith("super.") or name.startswith("builtins.object."):
        r = VNONE
    elif name.startswith("functools.partial"):
        r = top("partial")
    else:
        r = None
    if r is None:
        ip.unknown_calls[name] = ip.unknown_calls.get(name, 0) + 1
        d = deps_of(ip, list(args) + list(kwargs.values()), st)
        ip.emit("extcall", node, st, name=name, args=args, kwargs=kwargs)
        r = top(name, d)
    return r


def make_frame(ip, clsname, args, kwargs, st, node):
    v = args[0] if args else kwargs.get("array", kwargs.get("shape"))
    if clsname in (None, "ndarray", "?"):
        return top("ndarray()")
    if v is None or not v.locs():
        return top("frame")
    meta = {k: x for k, x in kwargs.items() if k != "array"}
    for k, x in zip(("mask", "original_roe_corner", "scans", "exposure_info"), args[1:]):
        meta[k] = x
    l = v.locs()[0]
    o = st.heap.get(l)
    if not isinstance(o, Arr):
        return top("frame")
    nd = ip.arr(l, st).ndim
    r = Arr(o.v, ip.arr(l, st).shape, None, o.dtype, view=(l, (I.mk_slice(None, None, None),) * (nd or 2)), cls=clsname, meta=meta)
    return vref(ip.alloc(st, node, r, "frame")).with_deps(v.deps)


def _callable_eval(ip, f, argv, st, node, mod, cls):
    return ip.call(f, argv, {}, st, node, mod, cls)


_QD = [0]


def quad(ip, args, kwargs, st, node, mod, cls):
    f, a, b = args[0], args[1], args[2]
    extra = []
    ea = arg(args, kwargs, 3, "args")
    if ea is not None:
        ex = ip.iter_exact(ea, st)
        extra = ex if ex is not None else [ea]
    _QD[0] += 1
    lvl = sum(1 for x in ip.callnodes if getattr(x, "_quad", False))
    xs = sym("quadx%d" % lvl, max(a.lo, -INF) if a.lo != -INF else -INF, b.hi)
    best = None
    x = None
    cand = ((1, 0), (0, 0), (0, 1))
    if a.lo < 0:
        cand += (("log", (1, 0)), ("log", (0, 1)))      # a variable that takes both signs can be a logarithm
    # the integration variable is open at 0: reciprocal and logarithm are defined
    for u in cand:
        mark = len(ip.events)
        s2 = st.copy()
        xv = relet(V(term=xs, lo=a.lo, hi=b.hi, unit=u, deps=a.deps | b.deps))
        try:
            r = _callable_eval(ip, f, [xv] + extra, s2, node, mod, cls)
        except Dead:
            del ip.events[mark:]
            raise
        n = sum(1 for e in ip.events[mark:] if e.kind == "unit")
        del ip.events[mark:]
        if best is None or n < best[0] and (u[0] != "log" or n == 0):
            best = (n, u)
        if n == 0 and r.unit is not None:
            break
    xv = relet(V(term=xs, lo=a.lo, hi=b.hi, unit=best[1], deps=a.deps | b.deps))
    r = _callable_eval(ip, f, [xv] + extra, st, node, mod, cls)
    d = r.deps | a.deps | b.deps
    if r.term is None or r.unk or r.refs:
        res = top("quad", d)
    else:
        unit = None
        if r.unit is not None and r.unit != "any" and r.unit[0] != "log":
            du = best[1] if best[1][0] != "log" else DIMLESS
            unit = (r.unit[0] + du[0], r.unit[1] + du[1])
        lo, hi = (0 if r.lo >= 0 else -INF), (0 if r.hi <= 0 else INF)
        dens = density_factor(r.term, xs)
        if dens is not None:
            lo, hi = dens
        t = of_atom(atom("integral", (r.term, a.term, b.term), lo, hi))
        res = relet(V(term=t, lo=lo, hi=hi, unit=unit if unit is not None else (DIMLESS if dens is not None else None), deps=d))
    err = V(term=fresh("quaderr", False), unit=None, deps=d)
    return ip.new_list([res, err], st, node, "tuple", "quad")


def density_factor(t, xs):
    """integrand = density(x) * g(x) with an opaque (normalised, non-negative) density: the range of g"""
    common = None
    for m, c in t.p:
        cand = set()
        for i, e in m:
            at = T._BYID[i]
            if at.op == "call" and e == 1 and any(isinstance(z, Term) and z is xs for z in at.args):
                cand.add(i)
        common = cand if common is None else common & cand
    if not common or len(common) != 1:
        return None
    k = next(iter(common))
    rest = T.ZERO
    for m, c in t.p:
        mm = tuple((i, e) for i, e in m if i != k)
        rest = add(rest, Term(((mm, c),)))
    lo, hi = bounds(rest)
    return lo, hi


def fsolve(ip, args, kwargs, st, node, mod, cls):
    f, x0 = args[0], args[1]
    extra = []
    ea = arg(args, kwargs, 2, "args")
    if ea is not None:
        ex = ip.iter_exact(ea, st)
        extra = ex if ex is not None else [ea]
    xs = sym("rootx", -INF, INF)
    mark = len(ip.events)
    s2 = st.copy()
    r = _callable_eval(ip, f, [relet(V(term=xs, unit=x0.unit))] + extra, s2, node, mod, cls)
    d = r.deps | x0.deps
    t = of_atom(atom("root", (r.term if r.term is not None else NONET,)))
    # the solution may be anything: no interval
    v = V(term=t, unit=x0.unit if x0.unit != "any" else None, deps=d)
    if r.unk:
        v = top("root", d)
    av = aatom("vec", ((v.term,),), 1)
    return new(ip, st, node, Arr(v.but(term=av), (vnum(1),), None, "f"), "root")


BINF = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
        "power": ast.Pow, "float_power": ast.Pow, "pow": ast.Pow, "mod": ast.Mod, "remainder": ast.Mod, "fmod": ast.Mod, "floor_divide": ast.FloorDiv,
        "logical_and": ast.BitAnd, "logical_or": ast.BitOr}
CMPF = {"less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE, "equal": ast.Eq, "not_equal": ast.NotEq}


def finish(ip, r, kwargs, st, node):
    out = kwargs.get("out")
    if out is not None and not out.is_none:
        w = kwargs.get("where")
        for l in out.locs():
            o = st.heap.get(l)
            if isinstance(o, Arr):
                if w is not None and w.const is not True:
                    ip.write_array(st, l, [("i", w)], r, node, "out")
                else:
                    ip.write_array(st, l, None, r, node, "out")
            elif isinstance(o, Lst):
                for e in (o.elems or ()):
                    for l2 in e.locs():
                        ip.write_array(st, l2, None, r, node, "out")
                return o.elems[0] if o.elems else r
        return out
    return r


def np_call(ip, n, args, kwargs, st, node):
    A = lambda i, name=None, d=None: arg(args, kwargs, i, name, d)
    E = lambda fn, *vs: ip.emap(fn, list(vs), st, node)
    if ip.opts.get("tab"):
        r = tabular.fold(ip, n, args, kwargs, st, node)
        if r is not None:
            return r
    if n in BINF and len(args) >= 2:
        return finish(ip, ip.binop(BINF[n](), args[0], args[1], st, node), kwargs, st, node)
    if n in CMPF and len(args) >= 2:
        return finish(ip, ip.compare(CMPF[n](), args[0], args[1], st, node), kwargs, st, node)
    if n in ("exp", "log", "sqrt", "isnan", "ceil", "floor", "trunc", "fix", "abs", "absolute", "fabs", "arctan", "atan", "sin", "cos", "tan",
             "log10", "log2", "log1p", "expm1", "negative", "square", "rint", "round", "around", "round_", "sign", "tanh", "isinf", "isfinite",
             "logical_not", "nan_to_num", "reciprocal", "erf", "erfc") and args:
        x = args[0]
        fn = None
        if n == "exp":
            fn = f_exp(ip, node, st)
        elif n == "expm1":
            g = f_exp(ip, node, st)
            fn = lambda y: ip.num_op(ast.Sub(), g(y), vnum(1), node, st)
        elif n == "log":
            if len(args) > 1 and n == "log" and isinstance(args[1].const, (int, float)):
                fn = f_log(ip, node, st, args[1].const)
            else:
                fn = f_log(ip, node, st)
        elif n == "log1p":
            g = f_log(ip, node, st)
            fn = lambda y: g(ip.num_op(ast.Add(), y, vnum(1), node, st))
        elif n in ("log10", "log2"):
            fn = f_log(ip, node, st, 10 if n == "log10" else 2)
        elif n == "sqrt":
            fn = f_sqrt(ip, node, st)
        elif n == "isnan":
            fn = f_isnan(ip, node, st)
        elif n in ("ceil", "floor", "trunc", "fix"):
            fn = f_round("trunc" if n == "fix" else n, ip, node, st)
        elif n in ("rint", "round", "around", "round_"):
            dec = A(1, "decimals")
            if dec is not None and dec.const not in (0, None):
                fn = f_app("rounddec", ip, node, st, unit=None)
            else:
                fn = f_round("round", ip, node, st)
        elif n in ("abs", "absolute", "fabs"):
            fn = f_abs(ip, node, st)
        elif n in ("arctan", "atan"):
            fn = f_app("atan", ip, node, st, -2, 2)
        elif n in ("sin", "cos", "tanh"):
            fn = f_app(n, ip, node, st, -1, 1)
        elif n in ("tan", "erf", "erfc"):
            fn = f_app(n, ip, node, st)
        elif n == "negative":
            fn = ip.num_neg
        elif n == "square":
            fn = lambda y: ip.num_op(ast.Mult(), y, y, node, st)
        elif n == "reciprocal":
            fn = lambda y: ip.num_op(ast.Div(), vnum(1), y, node, st)
        elif n == "sign":
            fn = lambda y: V(term=app("sign", y.term), lo=-1, hi=1, unit=DIMLESS, deps=y.deps, isint=True) if y.term is not None and not y.unk else top("sign", y.deps)
        elif n in ("isinf", "isfinite"):
            def fn(y):
                es = vec_elems(y.term) if y.term is not None and not y.unk and not y.nan else None
                if es:
                    got = []
                    for t in es:
                        lo, hi = T.bounds(t)
                        r = True if t is T.INFT or lo == INF or hi == -INF else False if not any(a.op == "inf" for a in T.atoms_of(t)) else None
                        got.append(None if r is None else ONE if r == (n == "isinf") else ZERO)
                    if None not in got:
                        return V(term=aatom("vec", (tuple(got),), 1, 0, 1, True, True), lo=0, hi=1, unit=DIMLESS, deps=y.deps, isint=True, isbool=True)
                if y.term is not None and not y.unk and not y.nan:
                    inf = True if y.term is T.INFT or y.lo == INF or y.hi == -INF else False if not y.inf and -INF < y.lo and y.hi < INF else None
                    if inf is not None:
                        return vnum(inf == (n == "isinf")).but(deps=y.deps)
                return V(term=of_atom(atom(n, (y.term if y.term is not None else NONET,), 0, 1, True, True)), lo=0, hi=1, unit=DIMLESS, deps=y.deps, isint=True, isbool=True)
        elif n == "logical_not":
            fn = lambda y: V(term=not_(ip.truth(y, st)[0]), lo=0, hi=1, unit=DIMLESS, deps=y.deps, isint=True, isbool=True)
        elif n == "nan_to_num":
            fn = lambda y: y.but(nan=False, inf=False, term=ite(of_atom(atom("isnan", (y.term,), 0, 1, True, True)), ZERO, y.term) if y.nan else y.term,
                                 lo=min(y.lo, 0) if y.nan else y.lo, hi=max(y.hi, 0) if y.nan else y.hi, lt=None) if y.term is not None else y
            z = kwargs.get("nan", vnum(0))
            plain, when = fn, lambda y: z.with_deps(y.deps) if y.term is T.NANT else plain(y)
            fn = when
            if "nan" in kwargs:
                plain = lambda y: (ip.join_v(y.but(nan=False), z, lambda a, b, k: ite(of_atom(atom("isnan", (y.term,), 0, 1, True, True)), b, a)) if y.nan else y) if y.term is not None else y
        return finish(ip, E(fn, x), kwargs, st, node)
    if n in ("maximum", "minimum", "fmax", "fmin") and len(args) >= 2:
        return finish(ip, E(f_minmax("max" if "max" in n else "min", ip, node, st), args[0], args[1]), kwargs, st, node)
    if n == "clip" and args:
        r = args[0]
        lo, hi = A(1, "a_min", kwargs.get("min")), A(2, "a_max", kwargs.get("max"))
        if lo is not None and not lo.is_none:
            r = E(f_minmax("max", ip, node, st), r, lo)
        if hi is not None and not hi.is_none:
            r = E(f_minmax("min", ip, node, st), r, hi)
        return finish(ip, r, kwargs, st, node)
    if n == "where" and len(args) == 3:
        return E(f_where(ip, node, st), *args)
    if n in ("where", "nonzero", "flatnonzero", "argwhere") and len(args) == 1:
        a = ip.to_arr(args[0], st)
        f = allfacets(ip, a)
        t = a.v.term
        if t is None:
            return top(n, f.deps)
        if not (f.isbool or T.is_bool(t)):
            t = not_(eq(t, ZERO))
        d = f.deps | args[0].deps
        k = 1 if n == "flatnonzero" else (a.ndim or 1)
        out = []
        m = a.shape[0].const if a.shape is not None and len(a.shape) == 1 and a.shape[0] is not None else None
        if m is None and a.shape is not None and len(a.shape) == 1 and a.shape[0].term is not None:
            m = const(a.shape[0].term)
        if n != "argwhere" and m is not None and 0 <= m <= 64 and m == int(m):
            # known elements
            es = [const(select_term(t, (num(i),)) if has_arr(t) else t) for i in range(int(m))]
            if all(e is not None for e in es):
                ix = tuple(num(i) for i, e in enumerate(es) if e != 0)
                lo, hi = (min([i for i, e in enumerate(es) if e != 0] or [0]), max([i for i, e in enumerate(es) if e != 0] or [0]))
                r = new(ip, st, node, Arr(V(term=aatom("vec", (ix,), 1, lo, hi, True), lo=lo, hi=hi, unit=DIMLESS, deps=d, isint=True), (vnum(len(ix)),), None, "i"), "nz0")
                return r if n == "flatnonzero" else ip.new_list([r], st, node, "tuple", "nz")
        for i in range(k):
            hi = INF
            if a.shape is not None and i < len(a.shape) and a.shape[i].hi != INF:
                hi = a.shape[i].hi - 1
            tt = aatom("nonzero", (t, num(i)), 1, 0, hi, True)
            out.append(new(ip, st, node, Arr(V(term=tt, lo=0, hi=hi, unit=DIMLESS, deps=d, isint=True),
                                            (vterm(app("count", t), lo=0, isint=True, unit=DIMLESS, deps=d),), None, "i"), "nz%d" % i))
        if n == "flatnonzero":
            return out[0]
        if n == "argwhere":
            return top("argwhere", d)
        return ip.new_list(out, st, node, "tuple", "nz")
    if n in ("array", "asarray", "ascontiguousarray", "asanyarray", "asfortranarray", "copy", "atleast_1d", "require") and args:
        dt = dtype_of(A(1, "dtype")) if n not in ("copy", "atleast_1d") else None
        copy = n in ("array", "copy")
        if n == "array" and kwargs.get("copy") is not None and kwargs["copy"].const is False:
            copy = False
        if not copy and dt is not None:
            ls = args[0].locs()
            for l in ls:
                o = st.heap.get(l)
                if isinstance(o, Arr):
                    src = ip.arr(l, st)
                    if src.dtype is not None and src.dtype != dt:
                        copy = True
        if n == "asanyarray" and all(isinstance(st.heap.get(l), Arr) for l in args[0].locs()) and args[0].locs():
            return args[0]
        r = mk_array(ip, args[0], st, node, dt, copy)
        if n == "array" and "ndmin" in kwargs:
            return top("ndmin")
        return r
    if n in ("zeros", "ones", "empty", "ndarray", "full") and (args or "shape" in kwargs):
        sh = shape_from(ip, A(0, "shape"), st)
        dtv = A(2 if n == "full" else 1, "dtype")
        dt = dtype_of(dtv) if dtv is not None else None
        if dtv is not None and dt is None:
            dt = "?"
        return fill_array(ip, "empty" if n == "ndarray" else n, sh, dt, st, node, A(1, "fill_value") if n == "full" else None)
    if n in ("zeros_like", "ones_like", "empty_like", "full_like") and args:
        a = ip.to_arr(args[0], st)
        dt = dtype_of(kwargs.get("dtype")) or a.dtype
        return fill_array(ip, n[:-5], a.shape, dt, st, node, A(1, "fill_value") if n == "full_like" else None)
    if n == "arange" and args:
        if len(args) == 1:
            s, e, p = vnum(0), args[0], vnum(1)
        else:
            s, e, p = args[0], args[1], args[2] if len(args) > 2 else kwargs.get("step", vnum(1))
        if any(x.refs or x.term is None or x.unk for x in (s, e, p)):
            return top("arange", deps_of(ip, args, st))
        o = Rng(s, e, p)
        isint = s.isint and e.isint and p.isint
        el, ln = ip.rng_elem(o, sym("beta0", 0, INF, True)), ip.rng_len(o)
        if not isint:
            ln = vterm(app("ceil", ln.term), lo=0, isint=True, unit=DIMLESS)
        t = aatom("range", (s.term, e.term, p.term), 1, el.lo, el.hi, isint)
        if ln.const is None and const(ln.term) is not None:
            ln = vnum(int(const(ln.term))).but(deps=ln.deps)
        v = el.but(term=t, isint=isint, lt=None)
        if dtype_of(kwargs.get("dtype")) == "f":
            v = v.but(isint=False)
        return new(ip, st, node, Arr(v, (ln,), None, "i" if isint else "f"))
    if n in ("concatenate", "hstack", "vstack", "stack", "row_stack", "append", "r_", "column_stack") and args:
        parts = ip.iter_exact(args[0], st) if n != "append" else [args[0], args[1]]
        if parts is None:
            parts = [ip.any_elem(args[0], st)]
            if parts[0] is None:
                return top(n)
            axv = None
            many = True
        else:
            many = False
        arrs = [ip.to_arr(p, st) for p in parts]
        axis = kwargs.get("axis", args[1] if len(args) > 1 and n == "concatenate" else None)
        ax = axis.const if axis is not None else 0
        nd = arrs[0].ndim
        if n == "hstack":
            ax = 0 if nd == 1 else 1
        if n in ("stack", "column_stack") or (n in ("vstack", "row_stack") and nd == 1) or (n == "append" and axis is None and nd != 1):
            return top(n, deps_of(ip, parts, st))
        if ax == -1 and nd is not None:
            ax = nd - 1
        v, c0 = None, None
        hasc = any(a.col0 is not None for a in arrs) and ax == 0
        for a in arrs:
            v = ip.join_v(v, a.v if hasc or a.col0 is None else allfacets(ip, a), lambda x, y, k: fresh("cc", False))
            if hasc:
                c0 = ip.join_v(c0, a.col0 if a.col0 is not None else a.v, lambda x, y, k: fresh("cc", False))
        ts = tuple(a.v.term if a.v.term is not None else NONET for a in arrs)
        if ip.opts.get("exact") and not many and isinstance(ax, int):
            r = exact_concat(ip, arrs, ax, v, st, node)
            if r is not None:
                return r
        flat = None
        if nd == 1 and not many:
            flat = []
            for a in arrs:
                ve = vec_elems(a.v.term)
                if ve is None:
                    flat = None
                    break
                flat += ve
        if flat is not None:
            t = aatom("vec", (tuple(flat),), 1, v.lo, v.hi)
        else:
            t = aatom("concat", (("ax", ax if ax is not None else "?"),) + (("many",) if many else ()) + ts, nd, v.lo, v.hi)
        sh = None
        if not many and ax is not None and all(a.shape is not None and nd is not None and len(a.shape) == nd for a in arrs) and isinstance(ax, int) and ax < (nd or 0):
            tot = arrs[0].shape[ax]
            for a in arrs[1:]:
                tot = ip.num_op(ast.Add(), tot, a.shape[ax], node, st)
            sh = tuple(tot if i == ax else x for i, x in enumerate(arrs[0].shape))
        elif nd is not None:
            sh = tuple(vterm(fresh("dim", False), lo=0, isint=True, unit=DIMLESS) for _ in range(nd))
        dt = arrs[0].dtype if all(a.dtype == arrs[0].dtype for a in arrs) else ("f" if any(a.dtype == "f" for a in arrs) else None)
        return new(ip, st, node, Arr(v.but(term=t, lt=None, const=None), sh, c0.but(term=t, lt=None, const=None) if c0 is not None else None, dt))
    if n in ("sum", "max", "min", "amax", "amin", "argmax", "argmin", "any", "all", "prod", "nansum", "nanmax", "nanmin") and args:
        op = {"amax": "max", "amin": "min", "nansum": "sum", "nanmax": "max", "nanmin": "min"}.get(n, n)
        if n == "sum" and len(args) == 1 and not args[0].locs() and False:
            return args[0]
        return finish(ip, reduce_(ip, op, args[0], A(1, "axis"), st, node), kwargs, st, node)
    if n in ("mean", "average", "median", "std", "var"):
        a = ip.to_arr(args[0], st)
        f = allfacets(ip, a)
        if A(1, "axis") is not None:
            return top(n, f.deps)
        return V(term=app("r" + n, a.v.term), lo=f.lo if n in ("mean", "median") else 0, hi=f.hi, unit=f.unit if n != "var" else None, deps=f.deps) if a.v.term is not None and not f.unk else top(n, f.deps)
    if n in ("cumsum", "cumprod"):
        a = ip.to_arr(args[0], st)
        axis = A(1, "axis")
        ax = axis.const if axis is not None else None
        f = allfacets(ip, a) if not (a.ndim == 2 and ax == 0) else a.v
        lo, hi = (0 if f.lo >= 0 else -INF), (0 if f.hi <= 0 else INF)
        if n == "cumprod":
            hi = INF
        if ip.opts.get("exact") and n == "cumsum" and a.ndim == 1:
            ex = ip.iter_exact(args[0], st)
            if ex and all(x.term is not None for x in ex):
                t, r = aatom("zeros", (num(len(ex)),), 1, 0, 0), ZERO
                for i, x in enumerate(ex):
                    r = add(r, x.term)
                    t = ip_store(t, (num(i),), r)
                return new(ip, st, node, Arr(f.but(term=t, lo=lo, hi=hi, lt=None, isbool=False), a.shape, None, a.dtype))
        t = aatom(n, (a.v.term, ("ax", "all" if a.ndim == 1 or axis is None else ax)), 1 if axis is None else a.ndim, lo, hi) if a.v.term is not None else None
        c0 = None
        if a.col0 is not None and a.ndim == 2 and ax == 0:
            c0 = a.col0.but(term=t, lo=0 if a.col0.lo >= 0 else -INF, hi=0 if a.col0.hi <= 0 else INF)
        return new(ip, st, node, Arr(f.but(term=t, lo=lo, hi=hi, lt=None, isbool=False), a.shape if (axis is not None or a.ndim == 1) else None, c0, a.dtype))
    if n in ("identity", "eye"):
        v = args[0]
        t = aatom("eye", (v.term if v.term is not None else NONET,), 2, 0, 1)
        dt = dtype_of(A(1 if n == "identity" else 3, "dtype"))
        return new(ip, st, node, Arr(V(term=t, lo=0, hi=1, unit=DIMLESS, deps=v.deps, isint=True), (v, v), None, dt or "f"))
    if n in ("flipud", "fliplr"):
        return permuted(ip, n, args[0], st, node, keepcol=n == "flipud")
    if n in ("rot90",):
        k = A(1, "k")
        return permuted(ip, "rot90", args[0], st, node, (k.term if k is not None else ONE,), shape="rev")
    if n == "flip":
        axis = A(1, "axis")
        if axis is not None and axis.const == 0:
            return permuted(ip, "flipud", args[0], st, node, keepcol=True)
        if axis is not None and axis.const == 1:
            return permuted(ip, "fliplr", args[0], st, node)
        return permuted(ip, "flipall", args[0], st, node)
    if n == "roll":
        axis = A(2, "axis")
        sh = A(1, "shift")
        ax = axis.const if axis is not None else None
        if ip.opts.get("exact"):
            r = exact_roll(ip, args[0], sh, ax, st, node)
            if r is not None:
                return r
        return permuted(ip, "roll", args[0], st, node, (sh.term if sh is not None and sh.term is not None else NONET, ("ax", ax)), keepcol=ax == 0, view=False)
    if n in ("transpose", "swapaxes"):
        if n == "transpose" and len(args) > 1:
            ex = ip.iter_exact(args[1], st)
            if ex is not None and [x.const for x in ex] == [0, 1]:
                return args[0]
        if not any(isinstance(st.heap.get(l), Arr) for l in args[0].locs()):
            args = [mk_array(ip, args[0], st, node)] + list(args[1:])
        return transpose(ip, args[0], st, node)
    if n in ("reshape", "squeeze", "expand_dims", "view", "repeat", "tile", "take", "diff", "diag", "outer", "broadcast_to", "meshgrid", "moveaxis"):
        a = ip.to_arr(args[0], st)
        f = allfacets(ip, a)
        ts = []
        for x in args[1:]:
            ex = ip.iter_exact(x, st)
            ts += [y.term if y.term is not None else NONET for y in ex] if ex is not None else [x.term if x.term is not None else NONET]
        for k in sorted(kwargs):
            ts.append(kwargs[k].term if kwargs[k].term is not None else NONET)
        t = aatom(n, (a.v.term if a.v.term is not None else NONET,) + tuple(ts), None)
        sh = None
        if n == "reshape":
            s = args[1:] if len(args) > 2 else shape_from(ip, args[1], st) if len(args) > 1 else None
            if s is not None:
                sh = tuple(x if not (x.const == -1) else vterm(fresh("dim", False), lo=0, isint=True, unit=DIMLESS) for x in s)
        if n in ("diff", "outer"):
            return top(n, f.deps | deps_of(ip, args, st))
        r = new(ip, st, node, Arr(f.but(term=t, lt=None, deps=f.deps | deps_of(ip, args[1:], st)), sh, None, a.dtype))
        if n in ("reshape", "squeeze", "expand_dims", "view", "broadcast_to"):
            ls = [l for l in args[0].locs() if isinstance(st.heap.get(l), Arr)]
            if len(ls) == 1:
                o = st.heap[r.locs()[0]]
                st.heap[r.locs()[0]] = o.but(view=(ls[0], None))
                if len(ls) == 1 and n == "view" and not args[1:]:
                    st.heap[r.locs()[0]] = o.but(view=(ls[0], (mk_slice(None, None, None),) * (a.ndim or 1)), v=a.v, shape=a.shape)
        return r
    if n in ("unique", "sort"):
        a = ip.to_arr(args[0], st)
        f = allfacets(ip, a)
        ve = vec_elems(a.v.term)
        t = aatom(n, (a.v.term if a.v.term is not None else NONET,), 1, f.lo, f.hi, f.isint)
        if ve is not None and all(const(x) is not None for x in ve):
            cs = sorted(set(const(x) for x in ve)) if n == "unique" else sorted(const(x) for x in ve)
            t = aatom("vec", (tuple(num(c) for c in cs),), 1, f.lo, f.hi)
            ln = vnum(len(cs))
        else:
            ln = vterm(fresh("ulen", False), lo=0, isint=True, unit=DIMLESS)
        return new(ip, st, node, Arr(f.but(term=t, lt=None), (ln,), None, a.dtype))
    if n == "isclose" and len(args) >= 2 and not any(k in kwargs for k in ("equal_nan",)):
        rtol, atol = A(2, "rtol", kwargs.get("rel_tol")), A(3, "atol", kwargs.get("abs_tol"))
        r = close(ip, args[0], args[1], rtol or vnum(1e-5), atol or vnum(1e-8), st, node)
        if r is not None:
            return r
    if n == "allclose" and len(args) >= 2:
        atol = A(3, "atol")
        u = [ip.to_arr(a, st).v.unit for a in args[:2]]
        if any(isinstance(x, tuple) and x != DIMLESS for x in u) and not (atol is not None and atol.const == 0):
            ip.emit("unit", node, st, what="absolute tolerance", a=[x for x in u if isinstance(x, tuple) and x != DIMLESS][0],
                    b=atol.unit if atol is not None and isinstance(atol.unit, tuple) else DIMLESS)
    if n in ("isclose", "allclose", "array_equal"):
        t = of_atom(atom(n, tuple(ip.to_arr(a, st).v.term or NONET for a in args[:2]), 0, 1, True, True))
        d = deps_of(ip, args, st)
        return V(term=t, lo=0, hi=1, unit=DIMLESS, deps=d, isint=True, isbool=True)
    if n == "copyto" and len(args) >= 2:
        w = A(3, "where")
        for l in args[0].locs():
            ip.write_array(st, l, [("i", w)] if w is not None else None, args[1], node, "copyto")
        return VNONE
    if n in ("fill_diagonal", "put", "place", "putmask") and args:
        for l in args[0].locs():
            if isinstance(st.heap.get(l), Arr):
                ip.write_array(st, l, None, top(n), node, n)
        return VNONE
    if n.startswith("random."):
        ip.emit("rng", node, st, what=n[7:], args=args, kwargs=kwargs)
        d = deps_of(ip, list(args) + list(kwargs.values()), st)
        if n == "random.seed":
            return VNONE
        if n in ("random.default_rng", "random.RandomState", "random.Generator"):
            return vref(ip.alloc(st, node, Opq(app("rng", *(a.term if a.term is not None else NONET for a in args))), "rng"))
        if n in ("random.poisson",) and args:
            return poisson(ip, args, kwargs, st, node, d)
        return V(term=fresh("random", False), deps=d | {"random"})
    if n in ("errstate", "seterr", "set_printoptions"):
        return top(n)
    if n in ("float64", "double", "float32", "float_", "int64", "int32", "int_", "intp", "bool_") and args:
        return builtin(ip, "float" if n[0] in "fd" else ("bool" if n[0] == "b" else "int"), args, kwargs, st, node, None, None)
    if n in ("isscalar", "iterable"):
        return V(term=fresh(n, False), isbool=True, lo=0, hi=1, isint=True)
    if n in ("ndim", "shape", "size") and args:
        return ip.getattr(args[0], n, st, node, None, None)
    if n in ("dot", "matmul", "inner", "vdot") and len(args) >= 2:
        a, b = ip.to_arr(args[0], st), ip.to_arr(args[1], st)
        if a.ndim == 1 and b.ndim == 1:
            return reduce_(ip, "sum", ip.binop(ast.Mult(), args[0], args[1], st, node), None, st, node)
        return top(n, deps_of(ip, args, st))
    if n in ("count_nonzero",) and args:
        a = ip.to_arr(args[0], st)
        f = allfacets(ip, a)
        if A(1, "axis") is None and a.v.term is not None:
            t = a.v.term if f.isbool else not_(eq(a.v.term, ZERO))
            return V(term=app("count", t), lo=0, isint=True, unit=DIMLESS, deps=f.deps)
        v = ip.compare(ast.NotEq(), args[0], vnum(0), st, node) if not f.isbool else args[0]
        return reduce_(ip, "sum", v, A(1, "axis"), st, node)
    if n in ("linspace",):
        d = deps_of(ip, args, st)
        return new(ip, st, node, Arr(V(term=aatom("linspace", tuple(a.term if a.term is not None else NONET for a in args), 1),
                                      lo=min(args[0].lo, args[1].lo), hi=max(args[0].hi, args[1].hi), unit=args[0].unit, deps=d),
                                    (args[2] if len(args) > 2 else vnum(50),), None, "f"))
    if n == "isin" or n == "in1d":
        d = deps_of(ip, args, st)
        t = of_atom(atom("in?", (args[0].term if args[0].term is not None else NONET, ip.to_arr(args[1], st).v.term or NONET), 0, 1, True, True))
        return V(term=t, lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS, deps=d)
    if n == "vectorize":
        return top("vectorize")
    return None


def poisson(ip, args, kwargs, st, node, d):
    lam = args[0]
    size = kwargs.get("size", args[1] if len(args) > 1 else None)
    if size is not None:
        el = ip.iter_exact(size, st) if size.locs() else ([size] if size.term is not None and not size.refs else None)
        t = aatom("drawn", (lam.term if lam.term is not None else NONET, fresh("draw", False)), len(el) if el else 1, 0, INF)
        return new(ip, st, node, Arr(V(term=t if el else None, lo=0, unit=lam.unit, deps=d | {"random"}), tuple(el) if el else None, None, "i"))
    a = ip.to_arr(lam, st) if lam.locs() else None
    if a is not None:
        t = aatom("poisson", (a.v.term if a.v.term is not None else NONET, fresh("draw", False)), a.ndim, 0, INF)
        return new(ip, st, node, Arr(V(term=t, lo=0, unit=a.v.unit, deps=d | {"random"}), a.shape, None, "i"))
    return V(term=app("poisson", lam.term if lam.term is not None else NONET, fresh("draw", False)), lo=0, unit=lam.unit, deps=d | {"random"})


# ---- builtins ----------------------------------------------------------------
def builtin(ip, n, args, kwargs, st, node, mod, cls):
    d = deps_of(ip, list(args) + [x for x in kwargs.values() if isinstance(x, V)], st)
    if n == "range":
        if not args:
            return top("range")
        if len(args) == 1:
            s, e, p = vnum(0), args[0], vnum(1)
        elif len(args) == 2:
            s, e, p = args[0], args[1], vnum(1)
        else:
            s, e, p = args
        for x in (s, e, p):
            if x.refs or x.term is None or x.unk:
                if x.refs and NONE in x.refs and len(x.refs) == 1:
                    ip.emit("typeerror", node, st, what="range() of None")
                    raise Dead()
                z = V(term=fresh("rng", x.unk), isint=True, deps=d, unk=x.unk, unit=DIMLESS)
                return vref(ip.alloc(st, node, Rng(s if x is not s else z, e if x is not e else z, p if x is not p else z))).with_deps(d)
        f = lambda x: x if x.isint or x.const is not None else x
        return vref(ip.alloc(st, node, Rng(f(s), f(e), f(p))))
    if n == "len":
        if args[0].is_none:
            ip.emit("typeerror", node, st, what="len() of None")
            raise Dead()
        return relet(ip.length(args[0], st))
    if n in ("enumerate",):
        start = args[1] if len(args) > 1 else kwargs.get("start", vnum(0))
        return vref(ip.alloc(st, node, Zip([("count", start), args[0]])))
    if n == "zip":
        return vref(ip.alloc(st, node, Zip(list(args))))
    if n == "map":
        return map_(ip, args, st, node, mod, cls)
    if n in ("list", "tuple", "set", "frozenset"):
        if not args:
            return ip.new_list([], st, node, n if n != "frozenset" else "set")
        return to_list(ip, args[0], st, node, n if n != "frozenset" else "set")
    if n == "dict":
        if not args:
            return vref(ip.alloc(st, node, Dct(dict(kwargs))))
        for l in args[0].locs():
            o = st.heap.get(l)
            if isinstance(o, Dct):
                x = dict(o.items)
                x.update(kwargs)
                return vref(ip.alloc(st, node, Dct(x, o.elem)))
        return vref(ip.alloc(st, node, Dct({}, top("dict"))))
    if n in ("int", "float", "bool"):
        if not args:
            return vnum({"int": 0, "float": 0.0, "bool": False}[n])
        v = args[0]
        if v.is_none:
            ip.emit("typeerror", node, st, what="%s() of None" % n)
            raise Dead()
        if any(isinstance(st.heap.get(l), Arr) for l in v.locs()):
            a = ip.to_arr(v, st)
            v = allfacets(ip, a).but(term=a.v.term)
        if v.refs - {NONE}:
            return top(n, d)
        v = v.but(refs=EMPTY)
        if n == "float":
            return relet(v.but(isint=False, isbool=False, const=float(v.const) if isinstance(v.const, (int, bool)) else v.const)) if not isinstance(v.const, str) else top("float")
        if n == "bool":
            c, known = ip.truth(v, st)
            if known is not None:
                return vnum(known).but(deps=v.deps)
            return V(term=c, lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS, deps=v.deps, unk=v.unk)
        if isinstance(v.const, str):
            return top("int")
        if v.isbool:
            return v.but(isbool=False, const=int(v.const) if v.const is not None else None)
        if v.term is None or v.unk:
            return V(term=fresh("int", v.unk), isint=True, deps=v.deps, unk=v.unk)
        if v.isint or T.all_int(v.term):
            return v.but(isint=True)
        c = const(v.term)
        if c is not None:
            return vnum(int(c)).but(deps=v.deps)
        if isinstance(v.unit, tuple) and v.unit != DIMLESS and v.unit[0] != "log":
            ip.emit("unit", node, st, what="rounding", a=v.unit, b=DIMLESS)
        if v.lo >= 0:
            t = app("floor", v.term)
        else:
            t = app("trunc", v.term)
        return relet(V(term=t, lo=math.floor(v.lo) if v.lo not in (INF, -INF) else v.lo, hi=math.ceil(v.hi) if v.hi not in (INF, -INF) else v.hi,
                       unit=v.unit, deps=v.deps, isint=True))
    if n == "abs":
        return ip.emap(f_abs(ip, node, st), [args[0]], st, node)
    if n == "round":
        if len(args) > 1 and args[1].const not in (0, None):
            return ip.emap(f_app("rounddec", ip, node, st, unit=None), [args[0]], st, node)
        return ip.emap(f_round("round", ip, node, st), [args[0]], st, node)
    if n == "pow":
        return ip.binop(ast.Pow(), args[0], args[1], st, node)
    if n == "divmod":
        return ip.new_list([ip.binop(ast.FloorDiv(), args[0], args[1], st, node), ip.binop(ast.Mod(), args[0], args[1], st, node)], st, node, "tuple")
    if n in ("min", "max"):
        if "key" in kwargs:
            e = ip.any_elem(args[0], st) if len(args) == 1 else None
            if e is None:
                for a in args:
                    e = ip.join_v(e, a, lambda x, y, k: fresh("mx", False))
            return e.with_deps(d) if e is not None else top(n, d)
        if len(args) == 1:
            return reduce_(ip, n, args[0], None, st, node)
        r = args[0]
        for x in args[1:]:
            if r.locs() or x.locs():
                return top(n, d)
            r = f_minmax(n, ip, node, st)(r.but(refs=EMPTY), x.but(refs=EMPTY))
        return relet(r)
    if n == "sum":
        r = reduce_(ip, "sum", args[0], vnum(0) if arr2d(ip, args[0], st) else None, st, node)
        if len(args) > 1:
            r = ip.binop(ast.Add(), r, args[1], st, node)
        return r
    if n in ("any", "all"):
        ex = ip.iter_exact(args[0], st)
        if ex is not None:
            t = ONE if n == "all" else ZERO
            for x in ex:
                c, known = ip.truth(x, st)
                t = mul(t, c) if n == "all" else T.or_(t, c)
            c = const(t)
            return V(term=t, lo=c if c is not None else 0, hi=c if c is not None else 1, isint=True, isbool=True, unit=DIMLESS, deps=d,
                     const=bool(c) if c is not None else None)
        e = ip.any_elem(args[0], st)
        if e is not None:
            c, known = ip.truth(e, st)
            if known is True and n == "all":
                return vnum(True).but(deps=d)
            if known is False and n == "any":
                return vnum(False).but(deps=d)
            if known is not None:
                ln = ip.length(args[0], st)
                if ln is not None and ln.lo >= 1:
                    return vnum(known).but(deps=d)
            ls = [st.heap.get(l) for l in args[0].locs()]
            if ls and isinstance(ls[0], Lst) and ls[0].term is not None:
                return V(term=of_atom(atom("r" + n, (ls[0].term,), 0, 1, True, True)), lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS, deps=d)
        return V(term=of_atom(atom("truthy", (fresh(n, False),), 0, 1, True, True)), lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS, deps=d)
    if n == "sorted":
        e = ip.any_elem(args[0], st)
        ln = ip.length(args[0], st)
        t = None
        a = ip.to_arr(args[0], st)
        if a.v.term is not None and not a.v.unk:
            t = aatom("sort", (a.v.term,), 1, a.v.lo, a.v.hi, a.v.isint)
        return vref(ip.alloc(st, node, Lst(None, e if e is not None else top("sorted"), ln, "list", t)))
    if n == "reversed":
        ex = ip.iter_exact(args[0], st)
        if ex is not None:
            return ip.new_list(list(reversed(ex)), st, node, "list", "rev")
        for l in args[0].locs():
            o = st.heap.get(l)
            if isinstance(o, Rng) and o.step.const in (1, -1):
                k = o.step.const
                s = ip.num_op(ast.Sub(), o.stop, vnum(k), node, st)
                e = ip.num_op(ast.Sub(), o.start, vnum(k), node, st)
                return vref(ip.alloc(st, node, Rng(s, e, vnum(-k))))
            e = ip.any_elem(args[0], st)
            t = None
            a = ip.to_arr(args[0], st)
            if a.v.term is not None and not a.v.unk:
                t = aatom("rev", (a.v.term,), a.ndim, a.v.lo, a.v.hi, a.v.isint)
            return vref(ip.alloc(st, node, Lst(None, e if e is not None else top("rev"), ip.length(args[0], st), "list", t if a.ndim == 1 else None)))
        return top("reversed", d)
    if n == "isinstance":
        return isinstance_(ip, args[0], args[1], st)
    if n == "issubclass":
        return V(term=fresh("issub", False), isbool=True, isint=True, lo=0, hi=1)
    if n == "getattr":
        if isinstance(args[1].const, str):
            mark = len(ip.events)
            try:
                return ip.getattr(args[0], args[1].const, st, node, mod, cls)
            except Dead:
                if len(args) > 2:
                    del ip.events[mark:]
                    return args[2]
                raise
        return top("getattr", d)
    if n == "setattr":
        if isinstance(args[1].const, str):
            ip.setattr(args[0], args[1].const, args[2], st, node, mod, cls)
        else:
            ip.emit("attrstore", node, st, loc=args[0].locs()[0] if args[0].locs() else None, attr="?", value=args[2], old=None)
        return VNONE
    if n == "hasattr":
        if isinstance(args[1].const, str) and args[0].locs() and not args[0].unk:
            ks = set()
            for l in args[0].locs():
                o = st.heap.get(l)
                if isinstance(o, Inst) and isinstance(o.cls, Class) and not o.open:
                    ks.add(args[1].const in o.attrs or o.cls.find(args[1].const)[0] is not None)
                elif isinstance(o, Arr):
                    ks.add(args[1].const in ND_METHODS or args[1].const in ("shape", "ndim", "dtype", "size", "T") or None)
                elif isinstance(o, (Lst,)):
                    ks.add(hasattr([], args[1].const))
                else:
                    ks.add(None)
            if len(ks) == 1 and None not in ks:
                return vnum(ks.pop())
        if not args[0].refs and args[0].term is not None and isinstance(args[1].const, str) and args[1].const in ("__len__", "__iter__", "__getitem__") and not args[0].unk and args[0].unit is not None:
            return vnum(False)
        return V(term=of_atom(atom("truthy", (fresh("hasattr", False),), 0, 1, True, True)), lo=0, hi=1, isint=True, isbool=True, deps=d, unit=DIMLESS)
    if n == "type":
        if len(args) == 1:
            rs = set()
            for r in args[0].refs:
                o = st.heap.get(r) if isinstance(r, Loc) else None
                if isinstance(o, Inst) and isinstance(o.cls, Class):
                    rs.add(ClassRef(o.cls))
                elif isinstance(o, Lst):
                    rs.add(ExtRef("builtins." + o.kind))
                elif isinstance(o, Dct):
                    rs.add(ExtRef("builtins.dict"))
                elif isinstance(o, Rng):
                    rs.add(ExtRef("builtins.range"))
                elif isinstance(o, Arr):
                    rs.add(ExtRef("class:" + (o.cls or "ndarray")))
                elif r is NONE:
                    rs.add(ExtRef("builtins.NoneType"))
                else:
                    return top("type", d)
            if rs and not args[0].unk:
                return V(refs=frozenset(rs), deps=args[0].deps)
            if not rs and args[0].term is not None and not args[0].unk and args[0].unit is not None:
                v = args[0]
                return vref(ExtRef("builtins." + ("bool" if v.isbool else ("int" if v.isint else "float"))))
        return top("type", d)
    if n in ("print", "warn", "delattr", "breakpoint"):
        return VNONE
    if n in ("str", "repr", "format", "ascii", "chr", "hex"):
        return V(term=fresh("str", False), deps=d)
    if n in ("id", "hash", "ord"):
        return V(term=fresh(n, False), deps=d)
    if n == "callable":
        if args[0].refs and all(isinstance(r, (FuncRef, BoundRef, ClassRef, ExtRef)) for r in args[0].refs) and not args[0].unk:
            return vnum(True)
        return V(term=of_atom(atom("truthy", (fresh("callable", False),), 0, 1, True, True)), lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS)
    if n == "slice":
        vs = [None if a.is_none else a for a in args]
        if len(vs) == 1:
            vs = [None, vs[0], None]
        while len(vs) < 3:
            vs.append(None)
        ts = [v.term if v is not None and v.term is not None else None for v in vs]
        return vref(ip.alloc(st, node, Opq(mk_slice(*ts), "slice", tuple(vs)))).with_deps(d)
    if n in ("iter",):
        return args[0]
    if n == "next":
        e = ip.any_elem(args[0], st)
        return e.with_deps(d) if e is not None else top("next", d)
    if n == "filter":
        e = ip.any_elem(args[1], st)
        return vref(ip.alloc(st, node, Lst(None, e if e is not None else top("filter"), vterm(fresh("flen", False), lo=0, isint=True, unit=DIMLESS))))
    if n == "property":
        return top("property")
    if n in ("malloc", "calloc"):
        sz = args[0].term
        if n == "calloc" and len(args) > 1:
            sz = mul(sz, args[1].term) if sz is not None and args[1].term is not None else None
        se = sym("sizeof", 1, 64, True)
        bytes_ = sz is not None and single_atom(se).id not in {a.id for a in T.atoms_of(sz)}
        cnt = sz if bytes_ else div(sz, se) if sz is not None else fresh("cnt", False)
        t = aatom("malloc", (fresh("mem", False),), 1) if n == "malloc" else aatom("zeros", (cnt,), 1, 0, 0)
        loc = ip.alloc(st, node, Arr(V(term=t, unit="any"), (vterm(cnt, unit=DIMLESS, isint=True),), None, "f", origin="bytes" if bytes_ else None), "malloc")
        ip.emit("malloc", node, st, loc=loc, count=cnt)
        return vref(loc)
    if n == "free":
        ip.emit("free", node, st, refs=args[0].refs)
        return VNONE
    import builtins as B
    c = getattr(B, n, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return V(term=fresh("exc", False))
    if n in ("vars", "dir", "globals", "locals", "eval", "exec", "open", "input", "__import__"):
        ip.emit("extcall", node, st, name="builtins." + n, args=args, kwargs=kwargs)
        return top(n, d)
    return None


def arr2d(ip, v, st):
    for l in v.locs():
        o = st.heap.get(l)
        if isinstance(o, Arr):
            return (ip.arr(l, st).ndim or 1) > 1
    return False


def to_list(ip, v, st, node, kind):
    ex = ip.iter_exact(v, st)
    if ex is not None:
        return ip.new_list(ex, st, node, kind)
    res = None
    for l in v.locs():
        o = st.heap.get(l)
        if isinstance(o, Lst):
            r = vref(ip.alloc(st, node, o.but(kind=kind), "tl%d" % l.n))
        elif isinstance(o, Rng):
            a = ip.to_arr(vref(l), st)
            r = vref(ip.alloc(st, node, Lst(None, a.v.but(term=None) if False else ip.rng_elem(o, sym("beta0", 0, INF, True)), ip.rng_len(o), kind, a.v.term), "tl%d" % l.n))
        elif isinstance(o, Arr):
            a = ip.arr(l, st)
            if a.ndim == 1:
                r = vref(ip.alloc(st, node, Lst(None, allfacets(ip, a), a.shape[0], kind, a.v.term), "tl%d" % l.n))
            else:
                e = ip.load_array(l, [("i", vterm(sym("beta0", 0, INF, True), isint=True, unit=DIMLESS))], st, node)
                r = vref(ip.alloc(st, node, Lst(None, e, a.shape[0] if a.shape else None, kind), "tl%d" % l.n))
        elif isinstance(o, Inst) and "data" in o.attrs:
            r = to_list(ip, o.attrs["data"], st, node, kind)
        elif isinstance(o, Dct):
            r = vref(ip.alloc(st, node, Lst(None, V(term=fresh("key", False)), ip.length(vref(l), st), kind), "tl%d" % l.n))
        elif isinstance(o, Zip):
            idx = sym("beta0", 0, INF, True)
            e, ln, _ = ip.iter_elem(vref(l), idx, st, node)
            r = vref(ip.alloc(st, node, Lst(None, e if e is not None else top("zip"), ln, kind), "tl%d" % l.n))
        else:
            r = top("list", v.deps)
        res = r if res is None else ip.join_v(res, r, lambda a, b, k: a)
    if res is None:
        return top("list", v.deps)
    return res.with_deps(v.deps)


def map_(ip, args, st, node, mod, cls):
    f = args[0]
    if len(args) == 2:
        ex = ip.iter_exact(args[1], st)
        if ex is not None and len(ex) <= (64 if ip.opts.get("tab") else 8):
            out = []
            saved = ip.ctx
            for k, x in enumerate(ex):
                ip.ctx = saved + (("map", id(node), k),)
                out.append(ip.call(f, [x], {}, st, node, mod, cls))
            ip.ctx = saved
            return ip.new_list(out, st, node, "list", "map")
        lid = ((ip.ctxkey(), id(node)), "map")
        uid = ip.loops.setdefault(lid, len(ip.loops))
        ia = atom("idx", (uid,), 0, INF, True)
        key = ip.iter_key(args[1], st)
        e, ln, _ = ip.iter_elem(args[1], of_atom(ia), st, node)
        if e is None:
            return ip.new_list([], st, node, "list", "map")
        ip.loopstack.append(uid)
        try:
            v = ip.call(f, [e], {}, st, node, mod, cls)
        finally:
            ip.loopstack.pop()
        t = None
        if v.term is not None and not v.refs and key is not None:
            k, body = ip.abstract_idx(v.term, ia)
            t = v.term if body is v.term and has_arr(v.term) else aatom("map", (key, body, "beta%d" % k), 1, v.lo, v.hi, v.isint)
        if ln is None:
            ln = vterm(fresh("mlen", False), lo=0, isint=True, unit=DIMLESS)
        return vref(ip.alloc(st, node, Lst(None, v.but(lt=None), ln, "list", t), "map"))
    return top("map")


def isinstance_(ip, v, c, st):
    ks = set()
    names = set()
    for x in c.refs:
        if isinstance(x, Loc) and isinstance(st.heap.get(x), Lst):
            for y in st.heap[x].elems or ():
                names |= y.refs
        else:
            names.add(x)
    for r in v.refs:
        if r is NONE:
            ks.add(False)
        else:
            ks.add(ip.isinstance_ref(r, c, st))
    if not v.refs or (v.refs == frozenset([NONE]) and not v.is_none):
        ext = {y.name for y in names if isinstance(y, ExtRef)}
        if v.unk or v.term is None:
            ks.add(None)
        elif isinstance(v.const, str):
            ks.add("builtins.str" in ext)
        elif v.isbool:
            ks.add(bool(ext & {"builtins.bool", "builtins.int", "numbers.Number", "numbers.Integral"}) or (None if ext & {"numpy.bool_"} else False))
        elif v.isint:
            ks.add(True if ext & {"builtins.int", "numbers.Number", "numbers.Integral", "numbers.Real"} else (None if any("numpy" in e for e in ext) else False))
        elif v.unit is not None:
            ks.add(True if ext & {"builtins.float", "numbers.Number", "numbers.Real"} else (None if any("numpy" in e for e in ext) else False))
        else:
            ks.add(None)
    if len(ks) == 1:
        k = ks.pop()
        if k is not None and not v.unk:
            return vnum(k).but(deps=v.deps)
    tn = tuple(sorted(repr(x) for x in names))
    tt = v.term if v.term is not None else sym("objs:" + ",".join(sorted(map(repr, v.refs))))
    t = of_atom(atom("isinst", (tt, tn), 0, 1, True, True))
    return V(term=t, lo=0, hi=1, isint=True, isbool=True, unit=DIMLESS, deps=v.deps)
