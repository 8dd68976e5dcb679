"""Abstract values and abstract heap objects."""
from terms import (INF, ONE, ZERO, INFT, Term, add, app, atom, bounds, const, fresh, ite, num, of_atom,
                   single_atom, sub, sym)

EMPTY = frozenset()


class Loc:
    """allocation site; age 0 = the most recent object of the site, 1 = summary of the older ones"""
    __slots__ = ("site", "age", "_h", "n")
    _tab = {}

    def __new__(cls, site, age=0):
        k = (site, age)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.site, r.age = site, age
            r._h = hash(k)
            r.n = len(cls._tab)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def summary(self):
        return self.age > 0

    def __repr__(self):
        return "<%d:%s%s>" % (self.n, self.site[-1] if isinstance(self.site, tuple) else self.site, "+" if self.age else "")


class _None:
    def __repr__(self):
        return "None"


NONE = _None()


class FuncRef:
    __slots__ = ("node", "mod", "cls", "env", "name")

    def __init__(self, node, mod, cls=None, env=None):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.name = getattr(node, "name", "<lambda>")

    def __hash__(self):
        return hash((id(self.node), self.env))

    def __eq__(self, o):
        return isinstance(o, FuncRef) and o.node is self.node and o.env == self.env

    @property
    def qual(self):
        return "%s%s.%s" % (self.mod.name, "." + self.cls.name if self.cls else "", self.name)

    def __repr__(self):
        return "fn:" + self.qual


class ClassRef:
    def __init__(self, cls):
        self.cls = cls

    def __hash__(self):
        return hash(("class", self.cls))

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.cls is self.cls

    def __repr__(self):
        return "class:" + self.cls.qual


class ModRef:
    def __init__(self, mod):
        self.mod = mod

    def __hash__(self):
        return hash(("mod", self.mod.name))

    def __eq__(self, o):
        return isinstance(o, ModRef) and o.mod is self.mod


class ExtRef:
    """something outside of the package, by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("ext", self.name))

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name

    def __repr__(self):
        return "ext:" + self.name


class BoundRef:
    """method bound to an object: func is a FuncRef, or a str for a modelled method"""

    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv

    def __hash__(self):
        return hash((self.func, self.selfv.refs))

    def __eq__(self, o):
        return isinstance(o, BoundRef) and o.func == self.func and o.selfv.refs == self.selfv.refs


class SuperRef:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv

    def __hash__(self):
        return hash((self.cls, self.selfv.refs))

    def __eq__(self, o):
        return isinstance(o, SuperRef) and o.cls is self.cls and o.selfv.refs == self.selfv.refs


class Class:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.body = {}          # name -> member
        self.qual = mod.name + "." + name
        self.lineno = node.lineno

    def mro(self):
        out, seen = [], set()

        def walk(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in (c.bases if isinstance(c, Class) else ()):
                walk(b)
        walk(self)
        return out

    def is_sub(self, other):
        return other in self.mro()

    def find(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Class) and name in c.body:
                return c.body[name], c
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, Class)]

    def __repr__(self):
        return self.qual


class V:
    """one abstract value"""
    __slots__ = ("refs", "term", "lo", "hi", "unit", "deps", "inf", "nan", "unk", "const", "lt", "isint", "isbool")

    def __init__(self, refs=EMPTY, term=None, lo=-INF, hi=INF, unit=None, deps=EMPTY, inf=False, nan=False,
                 unk=False, const=None, lt=None, isint=False, isbool=False):
        self.refs, self.term, self.lo, self.hi, self.unit = refs, term, lo, hi, unit
        self.deps, self.inf, self.nan, self.unk, self.const = deps, inf, nan, unk, const
        self.lt, self.isint, self.isbool = lt, isint, isbool

    def but(self, **kw):
        n = V.__new__(V)
        for s in V.__slots__:
            setattr(n, s, getattr(self, s))
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        return (self.refs, self.term, self.lo, self.hi, self.unit, self.deps, self.inf, self.nan, self.unk,
                self.const if not isinstance(self.const, list) else None)

    def with_deps(self, d):
        return self if d <= self.deps else self.but(deps=self.deps | d)

    @property
    def is_none(self):
        return self.refs == frozenset([NONE]) and not self.unk

    @property
    def maybe_none(self):
        return NONE in self.refs or self.unk

    def locs(self):
        return [r for r in self.refs if isinstance(r, Loc)]

    def __repr__(self):
        s = []
        if self.refs:
            s.append("refs=%s" % sorted(map(repr, self.refs)))
        if self.const is not None:
            s.append("const=%r" % (self.const,))
        if self.term is not None:
            s.append("term=%r" % (self.term,))
        s.append("[%s,%s]" % (float(self.lo) if self.lo not in (INF, -INF) else self.lo,
                              float(self.hi) if self.hi not in (INF, -INF) else self.hi))
        if self.unit is not None:
            s.append("u=%s" % (self.unit,))
        if self.deps:
            s.append("deps=%s" % sorted(self.deps))
        for f in ("inf", "nan", "unk", "isint", "isbool"):
            if getattr(self, f):
                s.append(f)
        return "V(" + " ".join(s) + ")"


def vnum(x, unit=None, deps=EMPTY):
    """a numeric literal"""
    import math
    t = num(x)
    isb = isinstance(x, bool)
    if isinstance(x, float) and math.isinf(x):
        return V(term=t, lo=x, hi=x, unit="any", deps=deps, inf=True, const=x)
    if isinstance(x, float) and math.isnan(x):
        return V(term=t, unit="any", deps=deps, nan=True, const=None)
    c = const(t)
    return V(term=t, lo=c, hi=c, unit=unit or ("any" if x == 0 and not isb else DIMLESS), deps=deps, const=x,
             isint=isinstance(x, int), isbool=isb)


def vterm(t, lo=None, hi=None, unit=None, deps=EMPTY, **kw):
    l, h = bounds(t)
    lo = l if lo is None else max(lo, l)
    hi = h if hi is None else min(hi, h)
    return V(term=t, lo=lo, hi=hi, unit=unit, deps=deps, **kw)


def vsym(name, lo=-INF, hi=INF, unit=None, deps=EMPTY, isint=False, isbool=False):
    return vterm(sym(name, lo, hi, isint, isbool), unit=unit, deps=deps, isint=isint, isbool=isbool)


def vref(*refs, term=None, deps=EMPTY):
    return V(refs=frozenset(refs), term=term, deps=deps)


def vstr(s):
    return V(const=s, term=sym("str:" + repr(s)))


VNONE = V(refs=frozenset([NONE]), term=sym("None"))
DIMLESS = (0, 0)


def top(why="unk", deps=EMPTY):
    return V(term=fresh("?" + why), unk=True, deps=deps)


# ---- heap objects (immutable: replaced on write) --------------------------
class Obj:
    def but(self, **kw):
        n = object.__new__(type(self))
        n.__dict__.update(self.__dict__)
        n.__dict__.pop("_r", None)
        n.__dict__.update(kw)
        return n

    def locs(self):
        """locations this object refers to directly (cached: objects are immutable)"""
        r = self.__dict__.get("_r")
        if r is None:
            out = set()
            st = list(self.__dict__.values())
            while st:
                x = st.pop()
                if isinstance(x, V):
                    for y in x.refs:
                        st.append(y)
                elif isinstance(x, Loc):
                    out.add(x)
                elif isinstance(x, (list, tuple)):
                    st += x
                elif isinstance(x, dict):
                    st += x.values()
                elif isinstance(x, (BoundRef, SuperRef)):
                    st.append(x.selfv)
                    if isinstance(x, BoundRef):
                        st.append(x.func)
                elif isinstance(x, FuncRef) and x.env is not None:
                    st.append(x.env)
            r = self.__dict__["_r"] = frozenset(out)
        return r


class Inst(Obj):
    def __init__(self, cls, attrs=None, open_=False):
        self.cls, self.attrs, self.open = cls, attrs or {}, open_


class Lst(Obj):
    def __init__(self, elems=None, elem=None, length=None, kind="list", term=None):
        self.elems, self.elem, self.kind = elems, elem, kind
        self.length = length if length is not None else vnum(len(elems or ()))
        self.term = term


class Dct(Obj):
    def __init__(self, items=None, elem=None):
        self.items, self.elem = items or {}, elem


class Rng(Obj):
    def __init__(self, start, stop, step, term=None, elem=None, length=None):
        self.start, self.stop, self.step, self.term, self.elem, self.length = start, stop, step, term, elem, length


class Arr(Obj):
    """v: facets of the cells (v.term: the value number of the whole content version);
    col0: facets of the cells with last index 0, when they differ; view: (base loc, index comps)"""

    def __init__(self, v, shape=None, col0=None, dtype=None, view=None, cls="ndarray", meta=None, cells=None,
                 origin=None):
        self.v, self.shape, self.col0, self.dtype = v, shape, col0, dtype
        self.view, self.cls, self.meta, self.cells = view, cls, meta, cells or {}
        self.origin = origin

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)


class Opq(Obj):
    """an external object known only by its value number"""

    def __init__(self, term, cls=None, info=None):
        self.term, self.cls, self.info = term, cls, info


class Env(Obj):
    def __init__(self, vars_):
        self.vars = vars_


class Zip(Obj):
    """zip / enumerate: parts are iterable values, or ("count", start)"""

    def __init__(self, parts):
        self.parts = parts
