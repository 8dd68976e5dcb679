"""Constant folding of arrays whose size and contents are fixed by the configuration (opts "tab")."""
import numpy as np
from fractions import Fraction

import terms as T
from terms import single_atom, num, const

LIMIT = 4000


class No(Exception):
    pass


def tab_term(x):
    """the value number of a constant array"""
    from interp import aatom
    x = np.asarray(x)
    isbool = x.dtype == bool
    isint = isbool or np.issubdtype(x.dtype, np.integer)
    flat = tuple(int(v) if isint else float(v) for v in x.ravel().tolist())
    lo, hi = (min(flat), max(flat)) if flat and not any(v != v for v in flat) else (-T.INF, T.INF)
    return aatom("tab", (flat, tuple(int(s) for s in x.shape), "b" if isbool else "i" if isint else "f"), x.ndim, lo, hi, isint, isbool)


def scalar(x):
    return num(int(x) if isinstance(x, (bool, np.bool_, np.integer, int)) else Fraction(float(x)))


def of_tab(a):
    flat, shape, k = a.args
    return np.array(flat, dtype={"b": bool, "i": int, "f": float}[k]).reshape(shape)


def index(x):
    a = single_atom(x)
    if a is not None and a.op == "slice":
        from interp import NONET
        return slice(*[None if y is NONET else as_int(value(y)) for y in a.args])
    if a is not None and a.op == "fancy":
        return as_index(value(a.args[0]))
    return as_index(value(x))


def as_int(x):
    x = np.asarray(x)
    if x.shape != () or float(x) != int(x):
        raise No("index")
    return int(x)


def as_index(x):
    x = np.asarray(x)
    if x.dtype == bool:
        return x
    if not np.all(x == np.floor(x)):
        raise No("index")
    return x.astype(int) if x.shape else int(x)


def extents(xs):
    return tuple(as_int(value(x)) for x in xs)


def value(t, fixed=None):
    """the constant array that a value number stands for, else No"""
    c = const(t)
    if c is not None:
        return np.array(int(c)) if c.denominator == 1 else np.array(float(c))
    if len(t.p) == 1:
        (m, c), = t.p.items() if isinstance(t.p, dict) else t.p
        if c == 1 and len(m) == 1 and tuple(m)[0][1] == 1:
            return atom_value(T._BYID[tuple(m)[0][0]])
    res = 0
    for m, c in (t.p.items() if isinstance(t.p, dict) else t.p):
        x = float(c) if Fraction(c).denominator != 1 else int(c)
        for i, e in m:
            v = atom_value(T._BYID[i])
            if e.denominator == 1 and e >= 0:
                v = v.astype(int) ** int(e) if v.dtype == bool else v ** int(e)
            else:
                if np.any(v == 0):
                    raise No("division by zero")
                v = v.astype(float) ** float(e)
            x = x * v
        res = res + x
    return np.asarray(res)


def atom_value(a):
    op, ar = a.op, a.args
    if op == "tab":
        return of_tab(a)
    if op == "nan":
        return np.array(np.nan)
    if op == "vec":
        if not isinstance(ar[0], tuple):
            raise No(op)
        return np.array([value(x) for x in ar[0]])
    if op == "range":
        return np.arange(*[value(x)[()] for x in ar])
    if op in ("zeros", "ones"):
        return (np.zeros if op == "zeros" else np.ones)(extents(ar))
    if op == "full":
        return np.full(extents(ar[1:]), value(ar[0])[()])
    if op == "eye":
        return np.eye(as_int(value(ar[0])))
    if op == "store":
        b = np.array(value(ar[0]))
        v = value(ar[2])
        if v.dtype.kind == "f" and b.dtype.kind != "f":
            b = b.astype(float)
        try:
            b[tuple(index(x) for x in ar[1])] = v
        except (IndexError, ValueError) as e:
            raise No(str(e))
        return b
    if op == "select":
        try:
            return np.asarray(value(ar[0])[tuple(index(x) for x in ar[1])])
        except (IndexError, ValueError) as e:
            raise No(str(e))
    if op == "mask":
        return value(ar[0])[value(ar[1]).astype(bool)]
    if op == "T":
        return value(ar[0]).T
    if op in ("flipud", "fliplr") and len(ar) == 1:
        return getattr(np, op)(value(ar[0]))
    if op in ("unique", "sort") and len(ar) == 1:
        return getattr(np, op)(value(ar[0]))
    if op in ("stack",):
        return np.array([value(x) for x in ar])
    if op == "stack1":
        return value(ar[0])[None]
    if op == "ite":
        return np.where(value(ar[0]).astype(bool), value(ar[1]), value(ar[2]))
    if op in ("min", "max"):
        f = np.minimum if op == "min" else np.maximum
        r = value(ar[0])
        for x in ar[1:]:
            r = f(r, value(x))
        return r
    if op in ("floor", "ceil", "trunc", "round", "abs"):
        r = getattr(np, op)(value(ar[0]).astype(float))
        return r.astype(int) if op != "abs" else r
    if op == "neg?":
        return value(ar[0]) < -1e-12
    if op == "zero?":
        return np.abs(value(ar[0])) < 1e-12
    if op == "mul":
        return value(ar[0]) * value(ar[1])
    if op == "mod":
        return np.mod(value(ar[0]), value(ar[1]))
    if op == "floordiv":
        return np.floor_divide(value(ar[0]), value(ar[1]))
    if op == "inv":
        return 1 / value(ar[0])
    raise No(op)


def sized(v, term, shape):
    """the constant array with these extents"""
    x = value(term)
    if shape is not None:
        n = tuple(as_int(value(s.term)) for s in shape)
        if x.shape != n:
            try:
                x = np.broadcast_to(x, n)
            except ValueError:
                raise No("shape")
    if x.size > LIMIT:
        raise No("size")
    if v is not None and v.isbool:
        x = x.astype(bool)
    return x


def of_value(ip, v, st, depth=0):
    """python constant / numpy array of an abstract value, else No"""
    if v is None or v.is_none:
        return None
    ls = v.locs()
    if ls:
        if len(v.refs) != 1:
            raise No("several objects")
        o = st.heap.get(ls[0])
        cls = type(o).__name__
        if cls == "Arr":
            a = ip.arr(ls[0], st)
            if a.v.term is None or a.v.unk or a.shape is None:
                raise No("unknown array")
            return sized(a.v, a.v.term, a.shape)
        if cls in ("Lst", "Rng") and depth < 3:
            ex = ip.iter_exact(v, st)
            if ex is None:
                raise No("unknown list")
            xs = [of_value(ip, e, st, depth + 1) for e in ex]
            if any(x is None for x in xs):
                raise No("None in list")
            return tuple(xs) if getattr(o, "kind", "") == "tuple" else xs
        raise No(cls)
    if v.refs:
        n = getattr(list(v.refs)[0], "name", None) or getattr(list(v.refs)[0], "path", None)
        t = {"builtins.int": int, "builtins.float": float, "builtins.bool": bool, "numpy.int64": int, "numpy.float64": float}.get(n)
        if t is None:
            raise No("reference")
        return t
    if v.term is None or v.unk:
        raise No("unknown value")
    x = value(v.term)
    if x.shape:
        raise No("array without an object")
    if v.isbool:
        return bool(x)
    return x[()].item()


def to_value(ip, r, st, node, deps, tag="tab"):
    """abstract value of a constant result"""
    from values import V, Arr, vnum, DIMLESS
    from values import vref
    if isinstance(r, tuple) or isinstance(r, list):
        return ip.new_list([to_value(ip, x, st, node, deps, (tag, k)) for k, x in enumerate(r)], st, node, "tuple" if isinstance(r, tuple) else "list", tag)
    x = np.asarray(r)
    if x.dtype.kind not in "bif" or x.size > LIMIT:
        raise No("result")
    if not x.shape:
        return vnum(bool(x) if x.dtype.kind == "b" else int(x) if x.dtype.kind == "i" else float(x), deps=deps)
    return vref(ip.alloc(st, node, arr_of(x, deps), tag))


def arr_of(x, deps):
    from values import V, Arr, vnum, DIMLESS
    t = tab_term(x)
    a = single_atom(t)
    return Arr(V(term=t, lo=a.lo, hi=a.hi, unit=DIMLESS, deps=deps, isint=a.isint, isbool=a.isbool, nan=bool(np.isnan(x.astype(float)).any())),
               tuple(vnum(int(n)) for n in x.shape), None, {"b": "b", "i": "i", "f": "f"}[x.dtype.kind])


def deps_all(ip, vs, st):
    d = frozenset()
    for v in vs:
        d |= v.deps
        for l in v.locs():
            o = st.heap.get(l)
            if type(o).__name__ == "Arr":
                d |= ip.arr(l, st).v.deps
    return d


def fold(ip, n, args, kwargs, st, node):
    """result of a numpy function of constants, or None"""
    if n not in FUNCS or n in ALIASING or "out" in kwargs:
        return None
    if not any(type(st.heap.get(l)).__name__ in ("Arr", "Lst") for v in args for l in v.locs()):
        return None
    try:
        a = [of_value(ip, v, st) for v in args]
        k = {x: of_value(ip, v, st) for x, v in kwargs.items()}
        with np.errstate(all="ignore"):
            r = getattr(np, n)(*a, **k)
        return to_value(ip, r, st, node, deps_all(ip, list(args) + list(kwargs.values()), st), "tab." + n)
    except (No, ValueError, TypeError, IndexError, AttributeError, OverflowError):
        return None


def fold_method(ip, name, selfv, args, kwargs, st, node):
    if name not in METHODS or name in ("reshape", "ravel", "transpose"):
        return None
    try:
        x = of_value(ip, selfv, st)
        if not isinstance(x, np.ndarray):
            return None
        a = [of_value(ip, v, st) for v in args]
        k = {y: of_value(ip, v, st) for y, v in kwargs.items()}
        return to_value(ip, getattr(x, name)(*a, **k), st, node, deps_all(ip, [selfv] + list(args), st), "tab." + name)
    except (No, ValueError, TypeError, IndexError, AttributeError, OverflowError):
        return None


def key(ip, comps, st):
    out = []
    for c in comps:
        if c[0] == "i":
            x = of_value(ip, c[1], st)
            if isinstance(x, (list, tuple)):
                x = np.array(x)
            out.append(as_index(x) if not isinstance(x, bool) else x)
        elif c[0] == "s":
            out.append(slice(*[None if y is None or y.is_none else as_int(of_value(ip, y, st)) for y in c[1:]]))
        elif c[0] == "e":
            out.append(Ellipsis)
        elif c[0] == "n":
            out.append(None)
        else:
            raise No(c[0])
    return tuple(out)


def load(ip, l, comps, st, node, deps):
    """x[mask], x[indices] of constants"""
    try:
        a = ip.arr(l, st)
        if a.v.term is None or a.shape is None:
            return None
        x, k = sized(a.v, a.v.term, a.shape), key(ip, comps, st)
        try:
            r = x[k]
        except IndexError as e:
            outside(ip, node, st, e)
        return to_value(ip, np.array(r), st, node, deps | a.v.deps, "tab.load")
    except (No, ValueError, TypeError, IndexError):
        return None


def outside(ip, node, st, e):
    from interp import Dead
    ip.emit("indexerror", node, st, what=str(e))
    raise Dead()


def put(ip, a, comps, value_, st, node):
    """contents after x[comps] = value for constants"""
    try:
        x = np.array(sized(a.v, a.v.term, a.shape))
        v = np.asarray(of_value(ip, value_, st))
        if x.dtype.kind != "f" and v.dtype.kind == "f" and a.dtype != "i":
            x = x.astype(float)
        k = key(ip, comps, st)
        try:
            x[k] = v
        except IndexError as e:
            outside(ip, node, st, e)
        return x
    except (No, ValueError, TypeError, IndexError):
        return None


def held(st, loc, but):
    """whether a variable or an object refers to the array"""
    from values import V, Loc

    def inside(x, depth=0):
        if isinstance(x, V):
            return loc in x.refs
        if x is loc:
            return True
        if depth > 4:
            return True
        if isinstance(x, (list, tuple)):
            return any(inside(y, depth + 1) for y in x)
        if isinstance(x, dict):
            return any(inside(y, depth + 1) for y in x.values())
        return False
    if any(inside(f) for f in st.frames):
        return True
    for k, o in st.heap.items():
        if k is loc or k is but:
            continue
        d = vars(o) if hasattr(o, "__dict__") else {n: getattr(o, n, None) for n in getattr(o, "__slots__", ())}
        if any(inside(x) for x in d.values()):
            return True
    return False


def settle(a):
    """the same array with its contents written out, when they are constant"""
    if a.v.term is None or a.shape is None or a.view is not None or a.v.unk:
        return a
    at = single_atom(a.v.term)
    if at is not None and at.op == "tab":
        return a
    try:
        x = sized(a.v, a.v.term, a.shape)
    except (No, ValueError, TypeError):
        return a
    if a.dtype == "f":
        x = x.astype(float)
    b = arr_of(x, a.v.deps)
    return a.but(v=a.v.but(term=b.v.term, const=None, lt=None), col0=None, cells={})


FUNCS = {"sum", "cumsum", "cumprod", "diff", "round", "around", "rint", "clip", "nonzero", "where", "argmax", "argmin", "flipud", "fliplr", "flip", "roll", "concatenate",
         "hstack", "vstack", "stack", "append", "repeat", "tile", "outer", "tril", "triu", "tri", "diag", "eye", "identity", "unique", "sort", "argsort", "searchsorted",
         "array", "asarray", "ascontiguousarray", "atleast_1d", "arange", "linspace", "zeros", "ones", "full", "maximum", "minimum", "floor", "ceil", "any", "all", "max",
         "min", "prod", "mean", "count_nonzero", "reshape", "ravel", "transpose", "broadcast_to", "logical_and", "logical_or", "logical_not", "abs", "absolute", "floor_divide",
         "mod", "bincount", "take", "digitize", "subtract", "add", "multiply", "divide", "isin", "insert", "delete", "pad", "indices", "column_stack", "zeros_like", "ones_like",
         "full_like", "copy", "sign", "square", "sqrt", "array_split", "trunc", "fix", "ediff1d", "greater", "less", "equal", "split"}
METHODS = {"sum", "cumsum", "clip", "nonzero", "argmax", "argmin", "round", "any", "all", "max", "min", "prod", "mean", "reshape", "ravel", "flatten", "transpose", "repeat",
           "take", "astype", "copy", "tolist"}
ALIASING = {"asarray", "ascontiguousarray", "atleast_1d", "reshape", "ravel", "transpose", "flipud", "fliplr", "flip", "array_split", "split", "broadcast_to", "diag"}
