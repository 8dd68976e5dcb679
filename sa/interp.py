"""Whole-program abstract interpreter (flow-sensitive, context-sensitive by inlining, joins at
merge points, fixpoints with widening at loops).  See DESIGN.md for the domains."""
import ast
import math
from fractions import Fraction

import terms as T
from terms import (INF, ONE, ZERO, Term, add, app, atom, bounds, const, div, eq, fresh, ite, le, lt, mul, neg, not_,
                   num, of_atom, single_atom, sub, sym)
from values import *
import values as VV


class Dead(Exception):
    """the current path cannot continue (an exception is raised)"""


class Abort(Exception):
    pass


class State:
    __slots__ = ("heap", "frames", "path", "facts", "ctl")

    def __init__(self):
        self.heap, self.frames, self.path, self.facts, self.ctl = {}, [{}], (), frozenset(), EMPTY

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.frames = [dict(f) for f in self.frames]
        s.path, s.facts, s.ctl = self.path, self.facts, self.ctl
        return s

    def become(self, o):
        self.heap, self.frames, self.path, self.facts, self.ctl = o.heap, o.frames, o.path, o.facts, o.ctl

    @property
    def env(self):
        return self.frames[-1]


class Out:
    __slots__ = ("normal", "ret", "brk", "cont", "exc")

    def __init__(self, normal=None):
        self.normal, self.ret, self.brk, self.cont, self.exc = normal, [], [], [], []

    def absorb(self, o):
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont
        self.exc += o.exc


class Event:
    __slots__ = ("kind", "data", "node", "stack", "path", "ctl")

    def __init__(self, kind, data, node, stack, path, ctl):
        self.kind, self.data, self.node, self.stack, self.path, self.ctl = kind, data, node, stack, path, ctl

    @property
    def where(self):
        mod, fn = self.stack[-1] if self.stack else ("?", "?")
        return "%s:%s in %s" % (mod, getattr(self.node, "lineno", "?"), fn)

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)


# array atoms: id -> number of dimensions (None when unknown)
ARRND = {}
ELEMWISE = {"exp", "log", "inv", "pow", "max", "min", "ite", "mod", "floordiv", "neg?", "zero?", "abs", "mul",
            "isnan", "floor", "ceil", "round", "trunc", "sin", "cos", "tan", "atan", "f32", "log10"}
NONET = sym("None")


def aatom(op, args, nd, lo=-INF, hi=INF, isint=False, isbool=False):
    a = atom(op, tuple(args), lo, hi, isint, isbool)
    ARRND[a.id] = nd
    return of_atom(a)


def has_arr(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = False
        for m, _ in t.p:
            for i, _e in m:
                a = T._BYID[i]
                if i in ARRND or (a.op in ELEMWISE and any(has_arr(x) for x in a.args if isinstance(x, Term))):
                    r = True
        memo[t] = r
    return r


def is_slice(t):
    a = single_atom(t)
    return a is not None and a.op == "slice"


def mk_slice(a, b, s=None):
    return of_atom(atom("slice", (a if a is not None else NONET, b if b is not None else NONET,
                                  s if s is not None else NONET)))


def select_term(t, idx):
    """value number of a cell/region of an array value number (elementwise operators distribute)"""
    res = ZERO
    for m, c in t.p:
        mono = num(c)
        for i, e in m:
            mono = mul(mono, T._powe(_sel_atom(i, idx), e))
        res = add(res, mono)
    return res


def _sel_atom(i, idx):
    a = T._BYID[i]
    if i in ARRND:
        nd = ARRND[i]
        ix = idx
        if nd is not None and nd < len(idx):
            ix = idx[len(idx) - nd:]
        return _sel(of_atom(a), tuple(ix), nd)
    if a.op in ELEMWISE and any(isinstance(x, Term) and has_arr(x) for x in a.args):
        return T.rebuild(a, [select_term(x, idx) if isinstance(x, Term) and has_arr(x) else x for x in a.args])
    return of_atom(a)


def idx_rel(x, y):
    """'same' / 'disjoint' / None for two index components"""
    if x is y:
        return "same"
    sx, sy = is_slice(x), is_slice(y)
    if not sx and not sy:
        d = const(sub(x, y))
        if d is not None:
            return "same" if d == 0 else "disjoint"
        if T.same(x, y) is True:
            return "same"
        return None
    if sx and sy:
        return None
    s, k = (x, y) if sx else (y, x)
    a = single_atom(s)
    st, en = a.args[0], a.args[1]
    if st is not NONET:
        l, _ = bounds(sub(st, k))
        if l > 0 and bounds(k)[0] >= 0:
            return "disjoint"
    if en is not NONET:
        l, _ = bounds(sub(k, en))
        if l >= 0 and bounds(en)[0] >= 0:
            return "disjoint"
    if sx and bounds(k)[0] >= 0 and a.args[2] is NONET and (st is NONET or (bounds(st)[0] >= 0 and bounds(sub(k, st))[0] >= 0)) and \
            (en is NONET or (bounds(en)[0] >= 0 and bounds(sub(en, k))[0] > 0)):
        return "in"
    return None


def _sel(arr, idx, nd):
    a = single_atom(arr)
    n = 0
    while a is not None and a.op == "store" and n < 60:
        n += 1
        base, sidx, val = a.args
        if len(sidx) != len(idx):
            break
        rel = [idx_rel(x, y) for x, y in zip(sidx, idx)]
        if all(r == "same" for r in rel):
            return val
        if all(r in ("same", "in") for r in rel):
            if not has_arr(val):
                return val
            loc = []
            for x, y, r in zip(sidx, idx, rel):
                if r == "in":
                    st = single_atom(x).args[0]
                    loc.append(y if st is NONET else sub(y, st))
                elif is_slice(y):
                    loc.append(mk_slice(None, None))
            return select_term(val, tuple(loc))
        if any(r == "disjoint" for r in rel):
            arr = base
            a = single_atom(arr)
            if a is None:
                return select_term(arr, idx)
            continue
        break
    if a is not None and a.op == "ite" and a.id in ARRND:
        return ite(a.args[0], select_term(a.args[1], idx), select_term(a.args[2], idx))
    # a select of a region: compose
    if a is not None and a.op == "select" and not any(is_slice(x) for x in idx):
        base, bidx = a.args
        out, k, ok = [], 0, True
        for x in bidx:
            if is_slice(x):
                if k < len(idx):
                    s = single_atom(x).args
                    if s[2] is not NONET:
                        ok = False
                    out.append(idx[k] if s[0] is NONET else add(s[0], idx[k]))
                    if s[0] is not NONET and bounds(s[0])[0] < 0:
                        ok = False
                    k += 1
                else:
                    out.append(x)
            else:
                out.append(x)
        out += idx[k:]
        if ok:
            b = single_atom(base)
            return _sel(base, tuple(out), ARRND.get(b.id) if b is not None else None)
    if a is not None and a.op == "T" and len(idx) == 2:
        r = select_term(a.args[0], (idx[1], idx[0]))
        if is_slice(idx[0]) and is_slice(idx[1]):
            b = single_atom(r)
            if b is not None and b.op == "T":
                return b.args[0]
            return aatom("T", (r,), 2)
        return r
    if a is not None and a.op in ("zeros", "ones"):
        if not any(is_slice(x) for x in idx):
            return ZERO if a.op == "zeros" else ONE
    if a is not None and a.op == "range":
        if len(idx) == 1 and not is_slice(idx[0]):
            lo, hi = bounds(idx[0])
            if lo >= 0:
                return add(a.args[0], mul(idx[0], a.args[2]))
    if a is not None and a.op == "full" and not any(is_slice(x) for x in idx):
        return a.args[0]
    if a is not None and a.op == "tab":
        flat, sh, _k = a.args
        cs = [const(x) if not is_slice(x) else None for x in idx]
        if len(cs) == len(sh) and all(c is not None and c == int(c) and -n_ <= c < n_ for c, n_ in zip(cs, sh)):
            p = 0
            for c, n_ in zip(cs, sh):
                p = p * n_ + int(c) % n_
            return num(flat[p])
    if a is not None and a.op == "vec" and len(idx) == 1 and isinstance(a.args[0], tuple):
        c = const(idx[0]) if not is_slice(idx[0]) else None
        if c is not None and c == int(c) and -len(a.args[0]) <= c < len(a.args[0]) and not any(has_arr(x) for x in a.args[0]):
            return a.args[0][int(c)]
    lo, hi = (a.lo, a.hi) if a is not None else bounds(arr)
    r = atom("select", (arr, tuple(idx)), lo, hi, a.isint if a is not None else False, a.isbool if a is not None else False)
    ns = sum(1 for x in idx if is_slice(x))
    rest = (nd - len(idx)) if nd is not None else 0
    if ns + max(rest, 0) > 0:
        ARRND[r.id] = ns + max(rest, 0)
    return of_atom(r)


def _rebuild(a, args):
    """substitution below an array operator: reads see through writes again, array atoms stay arrays"""
    if a.op == "select" and isinstance(args[0], Term) and has_arr(args[0]):
        return select_term(args[0], args[1])
    if a.id in ARRND:
        b = atom(a.op, tuple(args), a.lo, a.hi, a.isint, a.isbool)
        ARRND.setdefault(b.id, ARRND[a.id])
        return of_atom(b)
    return None


T.REBUILD_HOOK = _rebuild


def store_term(arr, idx, val):
    a = single_atom(arr)
    # overwrite of the same cell/region
    if a is not None and a.op == "store" and len(a.args[1]) == len(idx) and all(
            idx_rel(x, y) == "same" for x, y in zip(a.args[1], idx)):
        return store_term(a.args[0], idx, val)
    nd = arr_ndim(arr)
    la, ha = bounds(arr)
    lb, hb = bounds(val)
    return aatom("store", (arr, tuple(idx), val), nd, min(la, lb), max(ha, hb))


T.STORE_HOOK = store_term


def arr_ndim(t):
    best = None
    for m, _ in t.p:
        for i, _e in m:
            if i in ARRND:
                if ARRND[i] is None:
                    return None
                best = max(best or 0, ARRND[i])
            else:
                a = T._BYID[i]
                if a.op in ELEMWISE:
                    for x in a.args:
                        if isinstance(x, Term) and has_arr(x):
                            n = arr_ndim(x)
                            if n is None:
                                return None
                            best = max(best or 0, n)
    return best


# ---------------------------------------------------------------------------
def uadd(a, b):
    """unit of a sum; returns (unit, ok)"""
    if a == b:
        return a, True
    if a is None or b is None:
        return None, True
    if a == "any":
        return b, True
    if b == "any":
        return a, True
    return None, False


def umul(a, b, s=1):
    if a is None or b is None:
        return None
    if a == "any" or b == "any":
        return "any"
    if a[0] == "log" or b[0] == "log":
        # log(x)*dimensionless keeps no useful unit, except a plain number factor
        return None
    return (a[0] + s * b[0], a[1] + s * b[1])


def join_unit(a, b):
    if a == b:
        return a
    if a == "any":
        return b
    if b == "any":
        return a
    return None


def let(v):
    """local value number used for intervals: the whole value as one variable"""
    t = v.term
    if t is None:
        return None
    if const(t) is not None:
        return t
    a = single_atom(t)
    if a is not None and a.lo == v.lo and a.hi == v.hi:
        return t
    return of_atom(atom("let", (t, v.lo, v.hi), v.lo, v.hi, v.isint, v.isbool))


def relet(v):
    if v.term is None:
        return v
    l = let(v)
    return v if v.lt is l else v.but(lt=l)


class Interp:
    def __init__(self, mods, opts=None):
        self.mods = mods
        self.opts = opts or {}
        self.valuations = {}
        self.events = []
        self.stack = []          # [(module path, function qualname)]
        self.callnodes = []      # call nodes
        self.ctx = ()
        self._ctxid = {(): 0}
        self.mute = 0
        self.loopcache = {}
        self.loopstack = []
        self.cuts = {}           # function name -> handler
        self.globals = {}        # module name -> {name: V}
        self.classes = {}
        self.nfun = set()
        self.calls_resolved = 0
        self.unknown_calls = {}
        self.steps = 0
        self.exc_top = []
        self.global_locs = set()
        self.loops = {}
        self.root = State()
        self._exec_modules()

    # ---------------------------------------------------------------- modules
    def _exec_modules(self):
        self.loading = set()
        for name in sorted(self.mods):
            self.load_module(name)
        for st_loc in list(self.root.heap):
            self.global_locs.add(st_loc)

    def load_module(self, name):
        if name in self.globals or name not in self.mods:
            return
        m = self.mods[name]
        g = {}
        self.globals[name] = g
        self.loading.add(name)
        # parents first
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module and n.level == 0 and n.module in self.mods:
                self.load_module(n.module)
        self.stack.append((m.path, "<module>"))
        self.curmod = m
        st = self.root
        st.frames.append({})
        self.modframe = True
        prev = self.curmod
        for s in m.tree.body:
            self.exec_module_stmt(s, m, g, st)
        st.frames.pop()
        self.stack.pop()
        self.loading.discard(name)

    def resolve_module(self, dotted):
        if dotted in self.mods:
            self.load_module(dotted)
            return vref(ModRef(self.mods[dotted]))
        return vref(ExtRef(dotted))

    def exec_module_stmt(self, s, m, g, st):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    g[a.asname] = self.resolve_module(a.name)
                else:
                    g[a.name.split(".")[0]] = self.resolve_module(a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                pkg = m.name.split(".")
                pkg = pkg[: len(pkg) - s.level + (1 if m.path.endswith("__init__.py") else 0)]
                base = ".".join(pkg + ([base] if base else []))
            for a in s.names:
                tgt = a.asname or a.name
                full = base + "." + a.name
                if full in self.mods:
                    g[tgt] = self.resolve_module(full)
                elif base in self.mods:
                    self.load_module(base)
                    if a.name in self.globals.get(base, {}):
                        g[tgt] = self.globals[base][a.name]
                    else:
                        # circular import: resolve later by name
                        g[tgt] = ("late", base, a.name)
                else:
                    g[tgt] = vref(ExtRef(full))
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g[s.name] = self.def_function(s, m, None, None, st)
        elif isinstance(s, ast.ClassDef):
            g[s.name] = self.def_class(s, m, g, st)
        elif isinstance(s, ast.If):
            for x in s.body + s.orelse:
                self.exec_module_stmt(x, m, g, st)
        elif isinstance(s, ast.Try):
            for x in s.body:
                self.exec_module_stmt(x, m, g, st)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            st.frames[-1] = {}
            self.curmod = m
            try:
                v = self.ev(s.value, st, m, None) if s.value is not None else top()
            except Dead:
                v = top()
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Name):
                    g[t.id] = v
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            g[e.id] = top("global")
        elif isinstance(s, (ast.Expr, ast.Pass)):
            pass

    def def_function(self, node, mod, cls, env, st):
        f = FuncRef(node, mod, cls, env)
        # default values are evaluated once, at definition time
        if not hasattr(node, "_defaults"):
            node._defaults = {}
        key = env
        ds = []
        a = node.args
        saved = self.stack
        for d in a.defaults:
            ds.append(self.ev(d, st, mod, cls))
        kd = [self.ev(d, st, mod, cls) if d is not None else None for d in a.kw_defaults]
        node._defaults[key] = (ds, kd)
        return vref(f)

    def def_class(self, node, mod, g, st):
        bases = []
        for b in node.bases:
            try:
                v = self.ev(b, st, mod, None)
            except Dead:
                v = top()
            done = False
            for r in v.refs:
                if isinstance(r, ClassRef):
                    bases.append(r.cls)
                    done = True
                elif isinstance(r, ExtRef):
                    bases.append(r.name)
                    done = True
            if not done:
                bases.append("?")
        c = Class(node.name, mod, node, bases)
        self.classes[c.qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                for d in s.decorator_list:
                    dn = ast.unparse(d) if not isinstance(d, ast.Name) else d.id
                    if dn in ("property", "functools.cached_property", "cached_property", "abstractproperty"):
                        kind = "property"
                    elif dn == "classmethod":
                        kind = "classmethod"
                    elif dn == "staticmethod":
                        kind = "staticmethod"
                    elif dn.endswith(".setter"):
                        kind = "setter"
                    elif dn.endswith(".deleter"):
                        kind = "deleter"
                    elif dn.endswith(".getter"):
                        kind = "property"
                    elif dn in ("abstractmethod", "abc.abstractmethod"):
                        pass
                    else:
                        kind = "decorated"
                fv = self.def_function(s, mod, c, None, st)
                fr = next(iter(fv.refs))
                if kind == "property":
                    prev = c.body.get(s.name)
                    c.body[s.name] = ("property", fr, None)
                elif kind == "setter":
                    prev = c.body.get(s.name)
                    base = s.decorator_list[0].value.id if isinstance(s.decorator_list[0], ast.Attribute) and isinstance(
                        s.decorator_list[0].value, ast.Name) else s.name
                    prev = c.body.get(base)
                    if prev is None:
                        m, _ = c.find(base)
                        prev = m
                    getter = prev[1] if isinstance(prev, tuple) and prev[0] == "property" else None
                    c.body[s.name] = ("property", getter, fr)
                elif kind == "deleter":
                    pass
                else:
                    c.body[s.name] = (kind, fr)
            elif isinstance(s, ast.Assign):
                try:
                    v = self.ev(s.value, st, mod, c)
                except Dead:
                    v = top()
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.body[t.id] = ("attr", v)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                c.body[s.target.id] = ("attr", self.ev(s.value, st, mod, c))
            elif isinstance(s, ast.ClassDef):
                c.body[s.name] = ("attr", self.def_class(s, mod, g, st))
        for k, mem in list(c.body.items()):
            # x = property(getx, setx)
            pass
        return vref(ClassRef(c))

    # ---------------------------------------------------------------- events
    def emit(self, kind, node, st=None, **data):
        self.events.append(Event(kind, data, node, tuple(self.stack), st.path if st else (), st.ctl if st else EMPTY))

    # ---------------------------------------------------------------- heap helpers
    altk = ""        # tells apart the objects made at one site for the alternatives of one value

    def alloc(self, st, node, obj, tag=""):
        if self.altk:
            tag = (tag, self.altk)
        site = (self.ctxkey(), id(node) if node is not None else 0, tag,
                "%s:%s" % (type(node).__name__, getattr(node, "lineno", "?")))
        loc = Loc(site, 0)
        if loc in st.heap:
            self.age(st, loc)
        st.heap[loc] = obj
        return loc

    def ctxkey(self):
        k = self.ctx
        if k not in self._ctxid:
            self._ctxid[k] = len(self._ctxid)
        return self._ctxid[k]

    def age(self, st, loc):
        """rename the most recent object of a site into the summary of the older ones"""
        old = Loc(loc.site, 1)

        def ren_refs(refs):
            return frozenset(old if r is loc else self._ren_ref(r, loc, old) for r in refs)

        def rv(v):
            if v is None or not v.refs:
                return v
            if loc in v.refs or any(isinstance(r, (BoundRef, SuperRef, FuncRef)) for r in v.refs):
                nr = ren_refs(v.refs)
                if nr != v.refs:
                    return v.but(refs=nr)
            return v
        # is it referenced at all?
        obj = st.heap.pop(loc)
        st.heap = {l: (self.map_obj(o, rv, loc, old) if loc in o.locs() else o) for l, o in st.heap.items()}
        obj = self.map_obj(obj, rv, loc, old) if loc in obj.locs() else obj
        st.frames = [{k: rv(x) for k, x in f.items()} for f in st.frames]
        if old in st.heap:
            st.heap[old] = self.join_obj(st.heap[old], obj, lambda a, b, k: a if a is b else fresh("old", False), "old")
        else:
            st.heap[old] = obj

    def collect(self, st, before):
        """drop the temporaries that one statement allocated and nothing refers to any more"""
        heap = st.heap
        new = [l for l in heap if l not in before and not (l.age and Loc(l.site, 0) in before)]
        if not new:
            return
        live = set()
        pend = set(new)
        work = []
        for f in st.frames:
            for x in f.values():
                if isinstance(x, V) and x.refs:
                    for r in x.refs:
                        if isinstance(r, Loc):
                            work.append(r)
                        elif isinstance(r, (BoundRef, SuperRef, FuncRef)):
                            work += Lst([x]).locs()
        for l, o in heap.items():
            if l not in pend and before.get(l) is not o:
                work += o.locs()
        while work:
            l = work.pop()
            if l in pend and l not in live:
                live.add(l)
                work += heap[l].locs()
        for l in new:
            if l not in live:
                del heap[l]

    def _ren_ref(self, r, loc, old):
        if isinstance(r, BoundRef) and loc in r.selfv.refs:
            return BoundRef(r.func, r.selfv.but(refs=frozenset(old if x is loc else x for x in r.selfv.refs)))
        if isinstance(r, SuperRef) and loc in r.selfv.refs:
            return SuperRef(r.cls, r.selfv.but(refs=frozenset(old if x is loc else x for x in r.selfv.refs)))
        if isinstance(r, FuncRef) and r.env is loc:
            return FuncRef(r.node, r.mod, r.cls, old)
        return r

    def map_obj(self, o, rv, loc=None, old=None):
        """apply rv to every V in the object; keep identity when nothing changes"""
        if isinstance(o, Inst):
            n = {k: rv(v) for k, v in o.attrs.items()}
            return o if all(n[k] is o.attrs[k] for k in n) else o.but(attrs=n)
        if isinstance(o, Lst):
            e = tuple(rv(v) for v in o.elems) if o.elems is not None else None
            el, ln = rv(o.elem), rv(o.length)
            if (o.elems is None or all(a is b for a, b in zip(e, o.elems))) and el is o.elem and ln is o.length:
                return o
            return o.but(elems=e, elem=el, length=ln)
        if isinstance(o, Dct):
            n = {k: rv(v) for k, v in o.items.items()}
            el = rv(o.elem)
            return o if el is o.elem and all(n[k] is o.items[k] for k in n) else o.but(items=n, elem=el)
        if isinstance(o, Arr):
            v, c0 = rv(o.v), rv(o.col0)
            view = o.view
            if view is not None and loc is not None and view[0] is loc:
                view = (old,) + tuple(view[1:])
            cells = {k: rv(x) for k, x in o.cells.items()}
            shape = tuple(rv(x) for x in o.shape) if o.shape is not None else None
            if v is o.v and c0 is o.col0 and view is o.view and all(cells[k] is o.cells[k] for k in cells) and (
                    shape is None or all(a is b for a, b in zip(shape, o.shape))):
                return o
            return o.but(v=v, col0=c0, view=view, cells=cells, shape=shape)
        if isinstance(o, Rng):
            a, b, c, e, ln = rv(o.start), rv(o.stop), rv(o.step), rv(o.elem), rv(o.length)
            if a is o.start and b is o.stop and c is o.step and e is o.elem and ln is o.length:
                return o
            return o.but(start=a, stop=b, step=c, elem=e, length=ln)
        if isinstance(o, Env):
            n = {k: rv(v) for k, v in o.vars.items()}
            return o if all(n[k] is o.vars[k] for k in n) else o.but(vars=n)
        return o

    # ---------------------------------------------------------------- joins
    def join_v(self, a, b, tj, key=None, deps=EMPTY, widen=False):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        ta, tb = a.term, b.term
        if ta is tb:
            t = ta
        elif ta is None or tb is None:
            t = None
            if ta is not None or tb is not None:
                t = tj(ta if ta is not None else sym("obj"), tb if tb is not None else sym("obj"), key)
        else:
            t = tj(ta, tb, key)
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        if widen:
            if b.lo < a.lo:
                lo = 0 if b.lo >= 0 else (-1 if b.lo >= -1 else -INF)
            if b.hi > a.hi:
                hi = 1 if b.hi <= 1 else INF
        diff = ta is not tb or a.refs != b.refs
        d = a.deps | b.deps
        if diff:
            d = d | deps
        c = a.const if (a.const == b.const and type(a.const) is type(b.const)) else None
        r = V(a.refs | b.refs, t, lo, hi, join_unit(a.unit, b.unit) if not (a.is_none or b.is_none) else (a.unit if b.is_none else b.unit),
              d, a.inf or b.inf, a.nan or b.nan, a.unk or b.unk, c, None,
              (a.isint or a.is_none) and (b.isint or b.is_none), a.isbool and b.isbool)
        if t is not None:
            tl, th = bounds(t)
            if not widen:
                r.lo, r.hi = max(r.lo, tl), min(r.hi, th)
            if r.lo == r.hi and const(t) is None and False:
                pass
        r.lt = let(r) if t is not None else None
        if r.key() == a.key():
            return a
        return r

    def join_obj(self, a, b, tj, key, deps=EMPTY, widen=False):
        if a is b:
            return a
        if type(a) is not type(b):
            return Opq(fresh("mixed"))
        J = lambda x, y, k: self.join_v(x, y, tj, (key, k), deps, widen)
        if isinstance(a, Inst):
            attrs = {}
            same_ = a.cls is b.cls and a.attrs.keys() == b.attrs.keys()
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                attrs[k] = J(a.attrs.get(k), b.attrs.get(k), k)
                if k in a.attrs and attrs[k] is not a.attrs[k]:
                    same_ = False
            return a if same_ else a.but(attrs=attrs)
        if isinstance(a, Lst):
            if a.elems is not None and b.elems is not None and len(a.elems) == len(b.elems):
                e = tuple(J(x, y, i) for i, (x, y) in enumerate(zip(a.elems, b.elems)))
                if all(x is y for x, y in zip(e, a.elems)):
                    return a
                return a.but(elems=e, term=None)
            ea, eb = self.lst_elem(a), self.lst_elem(b)
            el = J(ea, eb, "elem")
            ln = J(a.length, b.length, "len")
            t = a.term if a.term is b.term else None
            if a.elems is None and el is a.elem and ln is a.length and t is a.term:
                return a
            return a.but(elems=None, elem=el, length=ln, term=t)
        if isinstance(a, Dct):
            items = {}
            for k in list(a.items) + [k for k in b.items if k not in a.items]:
                items[k] = J(a.items.get(k), b.items.get(k), k)
            el = J(a.elem, b.elem, "elem")
            if el is a.elem and items.keys() == a.items.keys() and all(items[k] is a.items[k] for k in items):
                return a
            return a.but(items=items, elem=el)
        if isinstance(a, Arr):
            if a.view != b.view and (a.view is None or b.view is None or a.view[0] is not b.view[0]):
                v = J(a.v, b.v, "v")
                return a.but(v=v if v.unk else v, view=None, col0=None, shape=None, cells={}, origin=None)
            if a.view != b.view:
                # same base, different regions
                va = tuple(tj(x, y, (key, "view")) if isinstance(x, Term) and isinstance(y, Term) and x is not y else x
                           for x, y in zip(a.view[1], b.view[1])) if len(a.view) > 1 and isinstance(a.view[1], tuple) and isinstance(
                               b.view[1], tuple) and len(a.view[1]) == len(b.view[1]) else None
                if va is None:
                    return a.but(v=J(a.v, b.v, "v"), shape=None, cells={}, view=(a.view[0], None))
                return a.but(view=(a.view[0], va), shape=self.join_shape(a.shape, b.shape, tj, key, deps, widen), cells={})
            shape = self.join_shape(a.shape, b.shape, tj, key, deps, widen)
            v = J(a.v, b.v, "v")
            nd = len(shape) if shape is not None else None
            self.reg(v.term, nd)
            if a.col0 is None and b.col0 is None:
                c0 = None
            else:
                c0 = J(a.col0 or a.v, b.col0 or b.v, "col0")
                if v.term is not None and c0.term is not v.term:
                    c0 = c0.but(term=v.term)
            cells = {}
            for k, x in a.cells.items():
                if k in b.cells:
                    cells[k] = J(x, b.cells[k], ("cell", k))
            n = a.but(v=v, col0=c0, shape=shape, cells=cells, dtype=a.dtype if a.dtype == b.dtype else None,
                      cls=a.cls if a.cls == b.cls else a.cls, meta=a.meta if a.meta is b.meta else None,
                      origin=a.origin if a.origin is b.origin else None)
            if n.v is a.v and n.col0 is a.col0 and (n.shape is a.shape or n.shape == a.shape) and n.cells.keys() == a.cells.keys() and all(
                    n.cells[k] is a.cells[k] for k in n.cells) and n.dtype == a.dtype and n.meta is a.meta:
                return a
            return n
        if isinstance(a, Rng):
            s, e, p = J(a.start, b.start, "s"), J(a.stop, b.stop, "e"), J(a.step, b.step, "p")
            el, ln = J(a.elem, b.elem, "el"), J(a.length, b.length, "ln")
            if s is a.start and e is a.stop and p is a.step and el is a.elem and ln is a.length:
                return a
            t = a.term if a.term is b.term else (tj(a.term, b.term, (key, "rng")) if a.term is not None and b.term is not None else None)
            return a.but(start=s, stop=e, step=p, term=t, elem=el, length=ln)
        if isinstance(a, Opq):
            if a.term is b.term:
                return a
            return a.but(term=tj(a.term, b.term, (key, "opq")), info=None)
        if isinstance(a, Env):
            n = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                n[k] = J(a.vars.get(k), b.vars.get(k), k)
            return a if n.keys() == a.vars.keys() and all(n[k] is a.vars[k] for k in n) else a.but(vars=n)
        return a

    def join_shape(self, a, b, tj, key, deps, widen):
        if a is b:
            return a
        if a is None or b is None or len(a) != len(b):
            return None
        n = tuple(self.join_v(x, y, tj, (key, "shape", i), deps, widen) for i, (x, y) in enumerate(zip(a, b)))
        return a if all(x is y for x, y in zip(n, a)) else n

    def join_states(self, a, b, tj, deps=EMPTY, widen=False):
        """join b into a (new state); a may be None"""
        if a is None:
            return b
        if b is None:
            return a
        s = State.__new__(State)
        s.heap = {}
        for l, o in a.heap.items():
            ob = b.heap.get(l)
            s.heap[l] = o if ob is None or ob is o else self.join_obj(o, ob, tj, ("h", l), deps, widen)
        for l, o in b.heap.items():
            if l not in s.heap:
                s.heap[l] = o
        s.frames = []
        for d, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            if fa is fb:
                s.frames.append(dict(fa))
                continue
            f = {}
            for k, v in fa.items():
                vb = fb.get(k)
                if vb is None:
                    f[k] = v.but(const=None) if False else v
                else:
                    f[k] = v if v is vb else self.join_v(v, vb, tj, ("e", d, k), deps, widen)
            for k, v in fb.items():
                if k not in f:
                    f[k] = v
            s.frames.append(f)
        n = 0
        while n < len(a.path) and n < len(b.path) and a.path[n] == b.path[n]:
            n += 1
        s.path = a.path[:n]
        s.facts = a.facts & b.facts
        s.ctl = a.ctl & b.ctl
        return s

    def merge(self, states):
        """join states that left one region by different paths (value numbers: ite on their paths)"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        acc = states[-1]
        for s in reversed(states[:-1]):
            n = 0
            while n < len(s.path) and n < len(acc.path) and s.path[n] == acc.path[n]:
                n += 1
            c = ONE
            deps = EMPTY
            for t, pol, d in s.path[n:]:
                c = mul(c, t if pol else not_(t))
                deps |= d
            for t, pol, d in acc.path[n:]:
                deps |= d
            if const(c) == 1 and len(acc.path) > n:
                c2 = ONE
                for t, pol, d in acc.path[n:]:
                    c2 = mul(c2, t if pol else not_(t))
                c = not_(c2)
            if len(c.p) > 12:
                c = of_atom(atom("cond", (c,), 0, 1, True, True))
            acc = self.join_states(s, acc, self.ite_join(c), deps)
        return acc

    def ite_join(self, c):
        def tj(x, y, key):
            r = ite(c, x, y)
            if has_arr(x) or has_arr(y):
                self.reg(r, arr_ndim(x) if has_arr(x) else arr_ndim(y))
            return r
        return tj

    def reg(self, t, nd):
        if t is None:
            return
        a = single_atom(t)
        if a is not None and a.id not in ARRND and a.op not in ELEMWISE - {"ite"}:
            ARRND[a.id] = nd

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, mod, cls):
        out = Out()
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.stmt(s, cur, mod, cls)
            out.absorb(o)
            cur = o.normal
        out.normal = cur
        return out

    def stmt(self, s, st, mod, cls):
        self.steps += 1
        if self.steps > self.opts.get("max_steps", 3_000_000):
            raise Abort("step budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        try:
            if m is None:
                self.emit("unsupported", s, st, what=type(s).__name__)
                return Out(st)
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)):
                before = dict(st.heap)
                o = m(s, st, mod, cls)
                if o.normal is not None:
                    self.collect(o.normal, before)
                return o
            return m(s, st, mod, cls)
        except Dead:
            o = Out()
            o.exc.append(st)
            return o

    def s_Expr(self, s, st, mod, cls):
        self.ev(s.value, st, mod, cls)
        return Out(st)

    def s_Pass(self, s, st, mod, cls):
        return Out(st)

    def s_Global(self, s, st, mod, cls):
        st.env.setdefault("__global__", VNONE)
        for n in s.names:
            self.emit("globaldecl", s, st, name=n)
            st.env["__global__:" + n] = VNONE
        return Out(st)

    def s_Nonlocal(self, s, st, mod, cls):
        for n in s.names:
            st.env["__nonlocal__:" + n] = VNONE
        return Out(st)

    def s_Import(self, s, st, mod, cls):
        for a in s.names:
            st.env[(a.asname or a.name.split(".")[0])] = self.resolve_module(a.name if a.asname else a.name.split(".")[0])
        return Out(st)

    def s_ImportFrom(self, s, st, mod, cls):
        g = {}
        self.exec_module_stmt(s, mod, g, st)
        for k, v in g.items():
            st.env[k] = self.late(v)
        return Out(st)

    def s_FunctionDef(self, s, st, mod, cls):
        # lexical environment: a heap cell shared with the enclosing frame (by name, late binding)
        envloc = self.alloc(st, s, Env(dict(st.env)), "env")
        fv = self.def_function(s, mod, cls, envloc, st)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, mod, cls)
            fv = self.call(dv, [fv], {}, st, d, mod, cls)
        self.assign_name(s.name, fv, st, s, mod)
        # the function can see itself
        o = st.heap.get(envloc)
        if isinstance(o, Env):
            n = dict(o.vars)
            n[s.name] = fv
            st.heap[envloc] = Env(n)
        return Out(st)

    def s_ClassDef(self, s, st, mod, cls):
        st.env[s.name] = self.def_class(s, mod, st.env, st)
        return Out(st)

    def s_Return(self, s, st, mod, cls):
        v = self.ev(s.value, st, mod, cls) if s.value is not None else VNONE
        o = Out()
        st.env["__ret__"] = v.with_deps(st.ctl)
        o.ret.append((st, s))
        return o

    def s_Raise(self, s, st, mod, cls):
        if s.exc is not None:
            try:
                self.ev(s.exc, st, mod, cls)
            except Dead:
                pass
        self.emit("raise", s, st)
        o = Out()
        o.exc.append(st)
        return o

    def s_Assert(self, s, st, mod, cls):
        t, f = self.branch(s.test, st, mod, cls)
        o = Out()
        if f is not None:
            self.emit("raise", s, f, assertion=True)
            o.exc.append(f)
        if t is not None:
            # an assertion does not make what follows control dependent on it
            t.ctl = st.ctl
        o.normal = t
        return o

    def s_Delete(self, s, st, mod, cls):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, st, mod, cls)
                self.emit("attrdel", s, st, refs=v.refs, attr=t.attr)
            elif isinstance(t, ast.Subscript):
                v = self.ev(t.value, st, mod, cls)
                for l in v.locs():
                    self.emit("mutate", s, st, loc=l, how="del")
                    self.smash_list(st, l)
        return Out(st)

    def smash_list(self, st, l):
        o = st.heap.get(l)
        if isinstance(o, Lst):
            st.heap[l] = o.but(elems=None, elem=self.lst_elem(o), length=vterm(fresh("len", False), lo=0, isint=True), term=None)
        elif isinstance(o, Dct):
            vals = [v for v in o.items.values()]
            e = o.elem
            for v in vals:
                e = self.join_v(e, v, lambda a, b, k: fresh("d", False))
            st.heap[l] = Dct({}, e)

    def s_Break(self, s, st, mod, cls):
        o = Out()
        o.brk.append(st)
        return o

    def s_Continue(self, s, st, mod, cls):
        o = Out()
        o.cont.append(st)
        return o

    def s_If(self, s, st, mod, cls):
        base_ctl, base_n = st.ctl, len(st.path)
        t, f = self.branch(s.test, st, mod, cls)
        out = Out()
        ot = self.block(s.body, t, mod, cls) if t is not None else Out()
        of = self.block(s.orelse, f, mod, cls) if f is not None else Out()
        out.absorb(ot)
        out.absorb(of)
        both = ot.normal is not None and of.normal is not None
        abrupt = bool(ot.ret or of.ret or ot.brk or of.brk or ot.cont or of.cont)
        n = self.merge([ot.normal, of.normal])
        if n is not None:
            if not abrupt:
                # exceptional exits excluded: a raise leaves no data dependence on what continues
                n.ctl = base_ctl
            else:
                n.ctl = base_ctl | (ot.normal.ctl if ot.normal is not None else EMPTY) | (
                    of.normal.ctl if of.normal is not None else EMPTY)
                x = t or f
                n.ctl |= x.path[base_n][2] if x is not None and len(x.path) > base_n else EMPTY
        out.normal = n
        return out

    def s_With(self, s, st, mod, cls):
        for it in s.items:
            v = self.ev(it.context_expr, st, mod, cls)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s, mod, cls)
        return self.block(s.body, st, mod, cls)

    def s_Try(self, s, st, mod, cls):
        pre = st.copy()
        o = self.block(s.body, st, mod, cls)
        res = Out()
        res.ret, res.brk, res.cont = o.ret, o.brk, o.cont
        normals = [o.normal] if o.normal is not None else []
        if o.normal is not None and s.orelse:
            oo = self.block(s.orelse, o.normal, mod, cls)
            res.absorb(oo)
            normals = [oo.normal] if oo.normal is not None else []
        if s.handlers:
            caught = o.exc
            base = pre
            for e in caught + ([o.normal.copy()] if o.normal is not None else []):
                e2 = e.copy()
                e2.frames = e2.frames[: len(pre.frames)]
                base = self.join_states(base, e2, lambda a, b, k: fresh("exc", False))
            for h in s.handlers:
                hs = base.copy()
                hs.path = pre.path + ((fresh("caught", False), True, EMPTY),)
                if h.type is not None:
                    try:
                        self.ev(h.type, hs, mod, cls)
                    except Dead:
                        pass
                if h.name:
                    hs.env[h.name] = top("exc")
                ho = self.block(h.body, hs, mod, cls)
                res.absorb(ho)
                if ho.normal is not None:
                    normals.append(ho.normal)
        else:
            res.exc += o.exc
        res.normal = self.merge(normals)
        if s.finalbody:
            if res.normal is not None:
                fo = self.block(s.finalbody, res.normal, mod, cls)
                res.absorb(fo)
                res.normal = fo.normal
            nr = []
            for rs, rn in res.ret:
                rv = rs.env.get("__ret__")
                fo = self.block(s.finalbody, rs, mod, cls)
                if fo.normal is not None:
                    fo.normal.env["__ret__"] = rv
                    nr.append((fo.normal, rn))
            res.ret = nr
            for es in o.exc:
                try:
                    self.block(s.finalbody, es, mod, cls)
                except Dead:
                    pass
        return res

    def s_Assign(self, s, st, mod, cls):
        v = self.ev(s.value, st, mod, cls)
        ct = getattr(s, "_ctype", None)
        if ct is not None:
            v = self.coerce(v, ct, st, s)
        for t in s.targets:
            self.assign(t, v, st, s, mod, cls)
        return Out(st)

    def s_AnnAssign(self, s, st, mod, cls):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, mod, cls), st, s, mod, cls)
        return Out(st)

    def s_AugAssign(self, s, st, mod, cls):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, mod, cls)
            rhs = self.ev(s.value, st, mod, cls)
            r = self.inplace(cur, s.op, rhs, st, s)
            self.assign(t, r, st, s, mod, cls)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, mod, cls)
            cur = self.getattr(base, t.attr, st, s, mod, cls)
            rhs = self.ev(s.value, st, mod, cls)
            r = self.inplace(cur, s.op, rhs, st, s)
            self.setattr(base, t.attr, r, st, s, mod, cls)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, mod, cls)
            idx = self.ev_index(t.slice, st, mod, cls)
            cur = self.subscript(base, idx, st, s, mod, cls)
            rhs = self.ev(s.value, st, mod, cls)
            # the store below writes the combined value back: for a view the in-place form is the same
            if any(isinstance(st.heap.get(l), Arr) for l in cur.locs()) and not any(
                    isinstance(st.heap.get(l), Arr) for l in base.locs()):
                r = self.inplace(cur, s.op, rhs, st, s)
            else:
                r = self.binop(s.op, cur, rhs, st, s)
            self.store_subscript(base, idx, r, st, s, mod, cls)
        return Out(st)

    def inplace(self, cur, op, rhs, st, node):
        """augmented assignment: arrays and lists are updated in place"""
        arrs = [l for l in cur.locs() if isinstance(st.heap.get(l), Arr)]
        lsts = [l for l in cur.locs() if isinstance(st.heap.get(l), Lst) and st.heap[l].kind == "list"]
        if arrs and not cur.unk:
            r = self.binop(op, cur, rhs, st, node)
            rl = [l for l in r.locs() if isinstance(st.heap.get(l), Arr)]
            if rl:
                for l in arrs:
                    self.write_array(st, l, None, r, node)
                return cur
            return r
        if lsts and isinstance(op, ast.Add):
            for l in lsts:
                self.list_extend(st, l, rhs, node)
            return cur
        return self.binop(op, cur, rhs, st, node)

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, mod, cls):
        itv = self.ev(s.iter, st, mod, cls)
        # exact unrolling of literal sequences keeps heterogeneous tuples exact
        el = self.iter_exact(itv, st)
        if el is not None and len(el) <= self.opts.get("unroll", 4) and not self.opts.get("no_unroll"):
            return self.unrolled(s, el, itv, st, mod, cls)
        return self.loop(s, itv, None, st, mod, cls)

    def s_While(self, s, st, mod, cls):
        if self.opts.get("unroll_while"):
            r = self.while_const(s, st.copy(), mod, cls)
            if r is not None:
                return r
        return self.loop(s, None, s.test, st, mod, cls)

    def while_const(self, s, st, mod, cls):
        """a loop whose condition has a known value each time, at most a few times"""
        mark = len(self.events)
        out = Out()
        brks = []
        cur = st
        for _ in range(self.opts["unroll_while"] + 1):
            t = self.truth(self.ev(s.test, cur, mod, cls), cur)[1]
            if t is None:
                break
            if not t:
                out.normal = self.merge(brks + [cur])
                return out
            o = self.block(s.body, cur, mod, cls)
            out.ret += o.ret
            out.exc += o.exc
            brks += o.brk
            cur = self.merge(o.cont + ([o.normal] if o.normal is not None else []))
            if cur is None:
                out.normal = self.merge(brks)
                return out
        del self.events[mark:]
        return None

    def unrolled(self, s, elems, itv, st, mod, cls):
        out = Out()
        cur = st
        brks = []
        saved = self.ctx
        for k, e in enumerate(elems):
            if cur is None:
                break
            if self.opts.get("exact"):
                self.ctx = saved + (("unroll", id(s), k),)
            self.assign(s.target, e, cur, s, mod, cls)
            o = self.block(s.body, cur, mod, cls)
            self.ctx = saved
            out.ret += o.ret
            out.exc += o.exc
            brks += o.brk
            cur = self.merge(o.cont + ([o.normal] if o.normal is not None else []))
        if cur is not None and s.orelse:
            o = self.block(s.orelse, cur, mod, cls)
            out.absorb(o)
            cur = o.normal
        out.normal = self.merge(brks + ([cur] if cur is not None else []))
        return out

    def loop(self, s, itv, test, st, mod, cls):
        lid = (self.ctxkey(), id(s))
        if lid not in self.loops:
            self.loops[lid] = len(self.loops)
        uid = self.loops[lid]
        depth = len(st.frames)
        path0, ctl0, facts0 = st.path, st.ctl, st.facts
        init = st.copy()
        phis = {}

        def phi_term(key, nd=None, x=None):
            a = atom("phi", (uid, repr(key)))
            if nd is not None or (x is not None and has_arr(x)):
                ARRND.setdefault(a.id, nd if nd is not None else arr_ndim(x))
            phis[key] = a
            return of_atom(a)

        def tj(x, y, key):
            a = phis.get(key)
            if a is not None and x is of_atom(a):
                return x
            return phi_term(key, None, x if has_arr(x) else (y if has_arr(y) else None))

        idxatom = atom("idx", (uid,), 0, INF, True)
        idxt = of_atom(idxatom)
        head = st
        cached = self.loopcache.get(lid)
        if cached is not None and len(cached.frames) == len(st.frames):
            head = self.join_states(st, cached, tj)
            head.path, head.ctl, head.facts = path0, ctl0, facts0
        # facts about values of a previous execution of this very loop are stale
        head.facts = frozenset(f for f in head.facts if not self.mentions(f[0], uid))
        n = 0
        iterdeps = itv.deps if itv is not None else EMPTY
        while True:
            n += 1
            mark = len(self.events)
            cur = head.copy()
            cur.ctl = ctl0 | iterdeps
            self.loopstack.append(uid)
            exits = []
            ok = True
            if itv is not None:
                try:
                    ev, ln, first_nonempty = self.iter_elem(itv, idxt, cur, s)
                except Dead:
                    ev = None
                if ev is None:
                    o = Out()
                    cur = None
                else:
                    if ln is not None and ln.term is not None:
                        T.SYMBOUNDS[idxatom.id] = (ZERO, sub(ln.term, ONE))
                    iterdeps = iterdeps | (ln.deps if ln is not None else EMPTY)
                    cur.ctl |= iterdeps
                    self.assign(s.target, ev, cur, s, mod, cls)
                    o = self.block(s.body, cur, mod, cls)
            else:
                t, f = self.branch(test, cur, mod, cls)
                if f is not None:
                    exits.append(f)
                o = self.block(s.body, t, mod, cls) if t is not None else Out()
            self.loopstack.pop()
            for x in o.cont + ([o.normal] if o.normal is not None else []):
                pass
            back = self.merge(o.cont + ([o.normal] if o.normal is not None else []))
            if back is not None:
                back = self.trim(back, depth)
                nh = self.join_states(head, back, tj, iterdeps, widen=n > 2)
            else:
                nh = head
            nh.path, nh.ctl = path0, ctl0
            nh.facts = frozenset(f for f in nh.facts if f in facts0 or not self.mentions(f[0], uid))
            if self.state_eq(head, nh) or n > 12:
                if n > 12:
                    self.emit("nonconverging", s, st)
                break
            head = nh
            del self.events[mark:]
        # keep the invariant for later executions in the same context; a copy without this execution's path
        c = head.copy()
        self.loopcache[lid] = c
        out = Out()
        out.ret = o.ret
        out.exc = o.exc
        # ---- functional summary of the loop: replace the phi atoms in what leaves the loop
        mapping = self.summarise(uid, phis, init, head, back, depth, idxatom, itv, st)
        ex = head.copy() if itv is not None else self.merge(exits)
        nonempty = False
        if itv is not None and ln_nonempty(self, itv, st) and back is not None and not o.brk:
            nonempty = True
        if ex is not None:
            ex.path, ex.ctl = path0, ctl0
            ex.facts = frozenset(f for f in ex.facts if not self.mentions(f[0], uid))
            if s.orelse:
                eo = self.block(s.orelse, ex, mod, cls)
                out.absorb(eo)
                ex = eo.normal
        brks = []
        for b in o.brk:
            b = self.trim(b, depth)
            b.path = path0 + tuple(p for p in b.path[len(path0):])
            brks.append(b)
        res = self.merge(brks + ([ex] if ex is not None else []))
        if res is not None:
            res = self.apply_summary(res, mapping, uid)
            res.path = path0
            res.ctl = ctl0
            if o.brk or o.ret:
                for b in o.brk:
                    res.ctl = res.ctl | b.ctl
            if isinstance(getattr(s, "target", None), ast.Name) and s.target.id in res.env and itv is not None:
                pass
        for r, _ in out.ret:
            self.apply_summary(r, mapping, uid, inplace=True)
            r.path = path0 + tuple(x for x in r.path[len(path0):])
        out.normal = res
        return out

    def trim(self, st, depth):
        st.frames = st.frames[:depth]
        return st

    def mentions(self, t, uid, memo={}):
        k = (t, uid)
        r = memo.get(k)
        if r is None:
            r = any(a.op in ("phi", "idx") and a.args[0] == uid for a in T.atoms_of(t))
            memo[k] = r
        return r

    def state_eq(self, a, b):
        if a is b:
            return True
        if a.heap.keys() != b.heap.keys():
            return False
        for l, o in a.heap.items():
            ob = b.heap[l]
            if o is not ob and not self.obj_eq(o, ob):
                return False
        for fa, fb in zip(a.frames, b.frames):
            if fa.keys() != fb.keys():
                return False
            for k, v in fa.items():
                w = fb[k]
                if v is not w and v.key() != w.key():
                    return False
        return True

    def obj_eq(self, a, b):
        if type(a) is not type(b):
            return False
        E = lambda x, y: x is y or (x is not None and y is not None and x.key() == y.key())
        if isinstance(a, Inst):
            return a.attrs.keys() == b.attrs.keys() and all(E(a.attrs[k], b.attrs[k]) for k in a.attrs)
        if isinstance(a, Lst):
            if (a.elems is None) != (b.elems is None):
                return False
            if a.elems is not None:
                return len(a.elems) == len(b.elems) and all(E(x, y) for x, y in zip(a.elems, b.elems))
            return E(a.elem, b.elem) and E(a.length, b.length)
        if isinstance(a, Dct):
            return a.items.keys() == b.items.keys() and all(E(a.items[k], b.items[k]) for k in a.items) and E(a.elem, b.elem)
        if isinstance(a, Arr):
            return E(a.v, b.v) and E(a.col0, b.col0) and a.view == b.view and a.cells.keys() == b.cells.keys() and all(
                E(a.cells[k], b.cells[k]) for k in a.cells) and (a.shape is b.shape or (
                    a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape) and all(
                        E(x, y) for x, y in zip(a.shape, b.shape))))
        if isinstance(a, Rng):
            return E(a.start, b.start) and E(a.stop, b.stop) and E(a.step, b.step) and E(a.elem, b.elem)
        if isinstance(a, Opq):
            return a.term is b.term
        if isinstance(a, Env):
            return a.vars.keys() == b.vars.keys() and all(E(a.vars[k], b.vars[k]) for k in a.vars)
        return a is b

    # value of a phi key in a state
    def key_get(self, st, key):
        try:
            v = self._key_get(st, key)
            return v
        except (KeyError, IndexError, AttributeError, TypeError):
            return None

    def _key_get(self, st, key):
        if key[0] == "e":
            return st.frames[key[1]].get(key[2]).term
        # nested: ((..., 'h', loc), field)
        base, f = key[0], key[1]
        if isinstance(base, tuple) and base[0] == "h":
            o = st.heap[base[1]]
            if isinstance(o, Inst):
                return o.attrs[f].term
            if isinstance(o, Lst):
                if f == "elem":
                    return self.lst_elem(o).term
                if f == "len":
                    return o.length.term
                return o.elems[f].term
            if isinstance(o, Arr):
                if f == "v":
                    return o.v.term
                if f == "col0":
                    return (o.col0 or o.v).term
                if isinstance(f, tuple) and f[0] == "cell":
                    return o.cells[f[1]].term
            if isinstance(o, Env):
                return o.vars[f].term
            if isinstance(o, Dct):
                return o.items[f].term if f in o.items else o.elem.term
            if isinstance(o, Opq):
                return o.term
        return None

    def summarise(self, uid, phis, init, head, back, depth, idxatom, itv, st):
        """exit value numbers for the loop's phi atoms"""
        if back is None or not phis:
            return {}
        info = {}
        for key, a in phis.items():
            i, n = self.key_get(init, key), self.key_get(back, key)
            info[a.id] = (key, i, n)
        self.last_loop_info = {"uid": uid, "info": info, "itv": itv}
        self.loop_infos = getattr(self, "loop_infos", {})
        self.loop_infos[uid] = info
        iterkey = itv.term if itv is not None and itv.term is not None else None
        if itv is not None:
            iterkey = self.iter_key(itv, st)
        mapping = {}
        for aid, (key, i, n) in info.items():
            if n is None:
                mapping[aid] = fresh("loop", False)
                self._regas(mapping[aid], aid)
                continue
            if i is None:
                i = sym("undef")
            phi = of_atom(T._BYID[aid])
            d = sub(n, phi)
            own = [x for x in T.atoms_of(d) if x.op == "phi" and x.args[0] == uid]
            arrn = aid in ARRND
            if not own and not arrn and iterkey is not None and not any(
                    x.op in ("phi", "idx") and x.args[0] != uid for x in ()):
                # a sum:  x += f(index)
                beta, body = self.abstract_idx(d, idxatom)
                if d is ZERO:
                    mapping[aid] = i
                    continue
                lo, hi = bounds(d)
                s_ = of_atom(atom("sum", (iterkey, body), 0 if lo >= 0 else -INF, 0 if hi <= 0 else INF))
                mapping[aid] = add(i, s_)
                continue
            # general recurrence: the cone of phi atoms it depends on, in a canonical order
            order, todo = [], [aid]
            while todo:
                x = todo.pop(0)
                if x in order or x not in info:
                    continue
                order.append(x)
                nx = info[x][2]
                if nx is not None:
                    for y in T.atoms_of(nx):
                        if y.op == "phi" and y.args[0] == uid and y.id not in order:
                            todo.append(y.id)
            ren = {x: sym("rho%d" % k) for k, x in enumerate(order)}
            for k, x in enumerate(order):
                if x in ARRND:
                    ren[x] = aatom("asym", ("rho%d" % k,), ARRND[x])
            ren[idxatom.id] = sym("beta0", 0, INF, True)
            memo = {}
            nexts = []
            bad = False
            for x in order:
                nx = info[x][2]
                if nx is None or nx.size > 20000:
                    bad = True
                    break
                nexts.append(T.subst(nx, ren, memo))
            if bad:
                mapping[aid] = fresh("loop", False)
                self._regas(mapping[aid], aid)
                continue
            inits = tuple(info[x][1] if info[x][1] is not None else sym("undef") for x in order)
            t = of_atom(atom("loop", (iterkey if iterkey is not None else sym("while"), inits, tuple(nexts))))
            self._regas(t, aid)
            mapping[aid] = t
        return mapping

    def _regas(self, t, aid):
        if aid in ARRND:
            a = single_atom(t)
            if a is not None:
                ARRND[a.id] = ARRND[aid]

    def abstract_idx(self, t, idxatom):
        """replace the loop index by a canonical bound symbol (de Bruijn level)"""
        k = 0
        for a in T.atoms_of(t):
            if a.op == "sym" and isinstance(a.args[0], str) and a.args[0].startswith("beta") and a.args[0][4:].isdigit():
                k = max(k, int(a.args[0][4:]) + 1)
        b = sym("beta%d" % k, 0, INF, True)
        return k, T.subst(t, {idxatom.id: b})

    def iter_key(self, itv, st):
        for l in itv.locs():
            o = st.heap.get(l)
            if isinstance(o, Rng):
                if o.term is not None:
                    return o.term
                return of_atom(atom("range", (o.start.term, o.stop.term, o.step.term)))
            if isinstance(o, Arr):
                a = self.arr(l, st)
                return a.v.term
            if isinstance(o, Lst):
                if o.term is not None:
                    return o.term
                if o.length.term is not None:
                    return of_atom(atom("seq", (o.length.term,)))
            if isinstance(o, Opq):
                return o.term
        return itv.term

    def apply_summary(self, st, mapping, uid, inplace=False):
        if not mapping:
            return st
        memo = {}
        ids = set(mapping)

        def rt(t):
            if t is None:
                return None
            if not self.mentions(t, uid):
                return t
            r = T.subst(t, mapping, memo)
            for a in (single_atom(t),):
                if a is not None and a.id in ARRND:
                    self.reg(r, ARRND[a.id])
            return r

        def rv(v):
            if v is None or v.term is None:
                return v
            if not self.mentions(v.term, uid):
                return v
            n = v.but(term=rt(v.term))
            # the interval of the abstract value is kept
            n.lt = let(n)
            return n
        if not inplace:
            st = st.copy()
        for l, o in list(st.heap.items()):
            n = self.map_obj(o, rv)
            if isinstance(n, Opq) and self.mentions(n.term, uid):
                n = n.but(term=rt(n.term))
            if isinstance(n, Rng) and n.term is not None and self.mentions(n.term, uid):
                n = n.but(term=rt(n.term))
            if isinstance(n, Lst) and n.term is not None and self.mentions(n.term, uid):
                n = n.but(term=rt(n.term))
            if isinstance(n, Arr) and n.cells:
                if any(any(self.mentions(t, uid) for t in k) for k in n.cells):
                    n = n.but(cells={k: x for k, x in n.cells.items() if not any(self.mentions(t, uid) for t in k)})
            if isinstance(n, Arr) and n.view is not None and len(n.view) > 1 and isinstance(n.view[1], tuple):
                if any(isinstance(t, Term) and self.mentions(t, uid) for t in n.view[1]):
                    n = n.but(view=(n.view[0], tuple(rt(t) if isinstance(t, Term) else t for t in n.view[1])))
            if n is not o:
                st.heap[l] = n
        st.frames = [{k: rv(v) for k, v in f.items()} for f in st.frames]
        st.facts = frozenset(f for f in st.facts if not self.mentions(f[0], uid))
        return st

    # ---------------------------------------------------------------- branching
    def branch(self, test, st, mod, cls):
        """(state where test is true | None, state where it is false | None); st may be consumed"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, st, mod, cls)
            return f, t
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            n0 = len(st.path)
            cur = st
            others = []
            for v in test.values:
                if cur is None:
                    break
                t, f = self.branch(v, cur, mod, cls)
                if isand:
                    others.append(f)
                    cur = t
                else:
                    others.append(t)
                    cur = f
            oth = self.merge([x for x in others if x is not None])
            # one path entry for the whole condition
            if oth is not None and cur is not None:
                c, deps, facts = ONE, EMPTY, []
                for tt, pol, d in cur.path[n0:]:
                    c = mul(c, tt if pol else not_(tt))
                    deps |= d
                cur.path = cur.path[:n0] + ((c, True, deps),)
                oth.path = oth.path[:n0] + ((c, False, deps),)
                oth.ctl = oth.ctl | deps
                cur.ctl = cur.ctl | deps
                oth.facts = oth.facts | {(c, False)}
            return (cur, oth) if isand else (oth, cur)
        v = self.ev(test, st, mod, cls)
        c, known = self.truth(v, st)
        if known is True:
            return st, None
        if known is False:
            return None, st
        a, b = st, st.copy()
        for s_, pol in ((a, True), (b, False)):
            s_.path = s_.path + ((c, pol, v.deps),)
            s_.facts = s_.facts | {(c, pol)}
            s_.ctl = s_.ctl | v.deps
        a = self.refine(test, True, a, mod, cls)
        b = self.refine(test, False, b, mod, cls)
        return a, b

    def truth(self, v, st):
        """(condition term, True/False/None)"""
        if v.const is not None and not v.refs and not v.unk:
            try:
                return (ONE if v.const else ZERO), bool(v.const)
            except Exception:
                pass
        if v.is_none:
            return ZERO, False
        if v.refs and not v.unk and NONE not in v.refs and v.term is None:
            # objects: lists by their length
            ks = set()
            for l in v.refs:
                o = st.heap.get(l) if isinstance(l, Loc) else None
                if isinstance(o, Lst):
                    lo, hi = o.length.lo, o.length.hi
                    ks.add(True if lo > 0 else (False if hi <= 0 else None))
                elif isinstance(o, (Arr, Dct, Rng)):
                    ks.add(None)
                else:
                    ks.add(True)
            if len(ks) == 1:
                k = ks.pop()
                if k is not None:
                    return (ONE if k else ZERO), k
            return fresh("truth", False), None
        t = v.term
        if t is None:
            return fresh("truth", v.unk), None
        if not v.refs and (v.lo > 0 or v.hi < 0) and not v.unk:
            return ONE, True
        if not v.refs and v.lo == 0 and v.hi == 0 and not v.unk:
            return ZERO, False
        if v.isbool or (T.is_bool(t) and not v.refs):
            c = t
        elif v.refs:
            c = of_atom(atom("truthy", (t,), 0, 1, True, True))
        else:
            c = not_(eq(t, ZERO))
        k = const(c)
        if k is not None:
            return c, k != 0
        for f, pol in st.facts:
            if f is c:
                return c, pol
            nf = not_(f)
            if nf is c:
                return c, not pol
        # implied by facts: conjunctions
        for f, pol in st.facts:
            if pol and len(f.p) == 1 and f.p[0][1] == 1 and len(c.p) == 1 and c.p[0][1] == 1:
                if set(c.p[0][0]) <= set(f.p[0][0]):
                    return c, True
        if self.opts.get("sampled"):
            return c, self.sampled(c, st)
        return c, None

    def sampled(self, c, st):
        """the truth value of a condition made of known parts, if it is the same under every valuation that agrees with the path"""
        if c.unknown or any(a.op in ("phi", "loop", "amb", "opq") for a in T.atoms_of(c)):
            return None
        seen = set()
        try:
            for k in range(24):
                v = self.valuations.get(k)
                if v is None:
                    v = self.valuations[k] = T.Valuation(k)
                if all((v.term(f) > 0.5) == pol for f, pol in st.facts):
                    x = v.term(c)
                    if x != x:
                        return None
                    seen.add(x > 0.5)
        except RecursionError:
            return None
        return seen.pop() if len(seen) == 1 else None

    def refine(self, test, pol, st, mod, cls):
        """narrow the intervals / reference sets of the tested places; None when contradictory"""
        try:
            return self._refine(test, pol, st, mod, cls)
        except Dead:
            return None

    def _refine(self, test, pol, st, mod, cls):
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            if pol:
                left = test.left
                for op, c in zip(test.ops, test.comparators):
                    st = self._refine(ast.copy_location(ast.Compare(left, [op], [c]), test), True, st, mod, cls)
                    if st is None:
                        return None
                    left = c
            return st
        if isinstance(test, ast.Compare):
            op, l, r = test.ops[0], test.left, test.comparators[0]
            mark = len(self.events)
            if not (self.pure(l) and self.pure(r)):
                return st
            lv, rv = self.ev(l, st, mod, cls), self.ev(r, st, mod, cls)
            del self.events[mark:]
            if isinstance(op, (ast.Is, ast.IsNot)) or (isinstance(op, (ast.Eq, ast.NotEq)) and (rv.is_none or lv.is_none)):
                yes = isinstance(op, (ast.Is, ast.Eq)) == pol
                if rv.is_none:
                    nv = self.only_none(lv) if yes else self.not_none(lv)
                    self.put(l, nv, st, mod, cls)
                elif lv.is_none:
                    nv = self.only_none(rv) if yes else self.not_none(rv)
                    self.put(r, nv, st, mod, cls)
                return st
            ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
            o = ops.get(type(op))
            if o is None or lv.term is None or rv.term is None or lv.refs or rv.refs:
                return st
            if not pol:
                if lv.nan or rv.nan:
                    return st
                o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[o]
            a, b = self.narrow(lv, o, rv), self.narrow(rv, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[o], lv)
            if a is None or b is None:
                return None
            if a is not lv:
                self.put(l, a, st, mod, cls)
            if b is not rv:
                self.put(r, b, st, mod, cls)
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            if self.pure(test.args[0]):
                v = self.ev(test.args[0], st, mod, cls)
                c = self.ev(test.args[1], st, mod, cls)
                keep = []
                for x in v.refs:
                    k = self.isinstance_ref(x, c, st)
                    if k is None or k == pol:
                        keep.append(x)
                if v.refs and not v.unk and len(keep) < len(v.refs):
                    if not keep and v.const is None and v.term is None:
                        return None
                    if keep:
                        self.put(test.args[0], v.but(refs=frozenset(keep)), st, mod, cls)
            return st
        if isinstance(test, (ast.Name, ast.Attribute)):
            v = self.ev(test, st, mod, cls)
            if not v.refs and v.term is not None and not v.isbool and not v.unk:
                if not pol:
                    if v.lo <= 0 <= v.hi:
                        self.put(test, v.but(lo=0, hi=0, lt=None), st, mod, cls)
                elif v.lo == 0 and False:
                    pass
            elif v.refs and NONE in v.refs and pol:
                self.put(test, self.not_none(v), st, mod, cls)
        return st

    def pure(self, e):
        """re-evaluating this expression has no effect on the abstract state"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda, ast.NamedExpr)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "abs", "min", "max", "int", "float"):
                    continue
                return False
        return True

    def only_none(self, v):
        return VNONE

    def not_none(self, v):
        if NONE in v.refs:
            return v.but(refs=v.refs - {NONE})
        return v

    def narrow(self, v, op, w):
        lo, hi = v.lo, v.hi
        eps = 1 if (v.isint and w.isint) else 0
        if op == "<":
            hi = min(hi, w.hi - eps)
            if eps == 0 and lo >= w.hi and lo != -INF and not v.inf:
                return None
        elif op == "<=":
            hi = min(hi, w.hi)
        elif op == ">":
            lo = max(lo, w.lo + eps)
        elif op == ">=":
            lo = max(lo, w.lo)
        elif op == "==":
            lo, hi = max(lo, w.lo), min(hi, w.hi)
        elif op == "!=":
            if w.lo == w.hi:
                if v.isint and lo == w.lo:
                    lo = lo + 1
                if v.isint and hi == w.lo:
                    hi = hi - 1
        if lo > hi:
            return None
        if (lo, hi) == (v.lo, v.hi):
            return v
        n = v.but(lo=lo, hi=hi)
        if lo == hi and not v.unk and lo not in (INF, -INF):
            n = n.but(term=num(Fraction(lo) if not isinstance(lo, Fraction) else lo))
        n.lt = let(n)
        return n

    def put(self, place, v, st, mod, cls):
        """overwrite a place with a refined version of its own value (no event, no new version)"""
        if isinstance(place, ast.Name):
            if place.id in st.env:
                st.env[place.id] = v
        elif isinstance(place, ast.Attribute):
            base = self.ev(place.value, st, mod, cls)
            ls = base.locs()
            if len(ls) == 1 and not ls[0].summary:
                o = st.heap.get(ls[0])
                if isinstance(o, Inst) and place.attr in o.attrs:
                    n = dict(o.attrs)
                    n[place.attr] = v
                    st.heap[ls[0]] = o.but(attrs=n)
                elif isinstance(o, Inst):
                    # property returning a plain field
                    mem, c = o.cls.find(place.attr) if isinstance(o.cls, Class) else (None, None)
                    if mem is not None and mem[0] == "property" and mem[1] is not None:
                        b = [x for x in mem[1].node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                        if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and isinstance(
                                b[0].value.value, ast.Name) and b[0].value.attr in o.attrs:
                            n = dict(o.attrs)
                            n[b[0].value.attr] = v
                            st.heap[ls[0]] = o.but(attrs=n)
        elif isinstance(place, ast.Subscript):
            base = self.ev(place.value, st, mod, cls)
            ls = base.locs()
            if len(ls) == 1 and not ls[0].summary:
                o = st.heap.get(ls[0])
                if isinstance(o, Arr):
                    comps = self.ev_index(place.slice, st, mod, cls)
                    rl, key = self.cell_key(ls[0], comps, st)
                    if key is not None:
                        ro = st.heap[rl]
                        n = dict(ro.cells)
                        n[key] = v
                        st.heap[rl] = ro.but(cells=n)


def ln_nonempty(ip, itv, st):
    return False
