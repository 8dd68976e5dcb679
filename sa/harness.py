"""Abstract callers: the objects and arguments with which the public entry points are analysed."""
import ast
import sys

import frontend
import terms as T
from terms import *
from values import *
from interp import *
import models
import exprs

sys.setrecursionlimit(20000)
NODE = ast.parse("harness()").body[0].value
ast.fix_missing_locations(NODE)
TIME, CHARGE, ONEU = (1, 0), (0, 1), (0, 0)


def load(repo="/repo"):
    return frontend.load_package(repo)


class H:
    def __init__(self, mods, opts=None, cuts=None):
        self.mods = mods
        H.last = self
        self.ip = exprs.AI(mods, opts or {})
        self.ip.events = []
        self.ip.cuts.update(cuts or {})
        self.st = self.ip.root.copy()
        self.st.frames.append({})
        self.ip.stack.append(("harness", "caller"))
        self.ip.callnodes.append(None)
        self.mod = next(iter(mods.values()))
        self.n = 0
        self.exc = None

    def node(self):
        n = ast.parse("harness()").body[0].value
        return n

    # --- names
    def cls(self, name):
        for m, g in self.ip.globals.items():
            v = g.get(name)
            if v is None or isinstance(v, tuple):
                continue
            for r in v.refs:
                if isinstance(r, ClassRef) and r.cls.name == name:
                    return r.cls
        return None

    def fn(self, name):
        for m, g in sorted(self.ip.globals.items()):
            v = g.get(name)
            if v is None or isinstance(v, tuple):
                continue
            for r in v.refs:
                if isinstance(r, FuncRef) and r.name == name:
                    return r
        return None

    # --- building
    def new(self, cname, *args, **kw):
        c = self.cls(cname)
        if c is None:
            raise Missing("class " + cname)
        return self.ip.construct(c, list(args), kw, self.st, self.node())

    def put(self, obj):
        self.n += 1
        return vref(self.ip.alloc(self.st, NODE, obj, ("h", self.n)))

    def meth(self, obj, name, *args, **kw):
        f = self.ip.getattr(obj, name, self.st, NODE, self.mod, None)
        if not [r for r in f.refs if r is not NONE]:
            raise Missing("method " + name)
        return self.ip.call(f, list(args), kw, self.st, self.node(), self.mod, None)

    def call(self, name, *args, **kw):
        f = self.fn(name)
        if f is None:
            raise Missing("function " + name)
        return self.ip.call_fn(f, list(args), kw, self.st, self.node())

    def get(self, obj, name):
        return self.ip.getattr(obj, name, self.st, NODE, self.mod, None)

    def set(self, obj, name, v):
        """set a field of a caller object without an event"""
        l = obj.locs()[0]
        o = self.st.heap[l]
        n = dict(o.attrs)
        n[name] = v
        self.st.heap[l] = o.but(attrs=n)

    # --- values
    def sym(self, name, lo=-INF, hi=INF, unit=ONEU, deps=EMPTY, isint=False, isbool=False):
        return relet(vsym(name, lo, hi, unit, deps, isint, isbool))

    def array(self, name, shape, lo=-INF, hi=INF, unit=ONEU, deps=EMPTY, cls="ndarray", meta=None, dtype="f", isint=False, nan=False, inf=False):
        t = aatom("asym", (name,), len(shape), lo, hi, isint)
        v = V(term=t, lo=lo, hi=hi, unit=unit, deps=deps, isint=isint, nan=nan, inf=inf)
        return self.put(Arr(v, tuple(shape), None, dtype, cls=cls, meta=meta))

    def species_sym(self, name, lo=-INF, hi=INF, unit=ONEU, deps=EMPTY, inf=False):
        """a per-species quantity: the element of an array indexed by the species"""
        t = aatom("asym", (name,), 1, lo, hi)
        return V(term=t, lo=lo, hi=hi, unit=unit, deps=deps, inf=inf)

    def image(self, name="image", frame=False, n_rows=None, n_cols=None, lo=-INF, deps=frozenset(["image"])):
        r = n_rows or self.sym("n_rows", 1, INF, isint=True)
        c = n_cols or self.sym("n_cols", 1, INF, isint=True)
        meta = None
        if frame:
            meta = {k: V(term=sym("meta:" + k), refs=frozenset(), unit=None) for k in
                    ("mask", "original_roe_corner", "scans", "exposure_info")}
        return self.array(name, (r, c), lo=lo, unit=CHARGE, deps=deps, cls=("SubFrame" if frame == "sub" else "Frame") if frame else "ndarray", meta=meta)


class Missing(Exception):
    pass


# ---------------------------------------------------------------- common callers
def mk_ccd(h, phases=1, **kw):
    """a CCD with arbitrary parameters: notch + depth, both >= 0"""
    D = h.sym("well_range", 0, unit=CHARGE, deps=frozenset(["ccd"]))
    notch = h.sym("notch", 0, unit=CHARGE, deps=frozenset(["ccd"]))
    full = h.ip.binop(ast.Add(), notch, D, h.st, NODE)
    power = h.sym("fill_power", 0, unit=ONEU, deps=frozenset(["ccd"]))
    bloom = h.sym("bloom", 0, unit=CHARGE, deps=frozenset(["ccd"]))
    if phases == 1:
        fr = vnum(1)
    else:
        fr = h.put(Lst(None, V(term=aatom("asym", ("phase_fraction",), 1, 0, 1), lo=0, hi=1, unit=ONEU), h.sym("n_phases", 1, isint=True), "list"))
    return h.new("CCD", fr, full, notch, power, bloom)


def mk_trap(h, kind="Trap", tag="", capture=True, surface=False):
    d = frozenset(["traps" + tag])
    tau_r = h.species_sym("tau_r" + tag, 0, unit=TIME, deps=d)
    tau_c = h.species_sym("tau_c" + tag, 0, unit=TIME, deps=d)
    dens = h.species_sym("density" + tag, 0, unit=CHARGE, deps=d)
    if kind == "Trap":
        return h.new("Trap", dens, tau_r, tau_c, vnum(surface))
    if kind == "TrapInstantCapture":
        return h.new("TrapInstantCapture", dens, tau_r, vnum(surface))
    if kind == "TrapLogNormalLifetimeContinuum":
        return h.new(kind, dens, tau_r, h.species_sym("sigma" + tag, 0, unit=ONEU, deps=d))
    if kind == "TrapLifetimeContinuumAbstract":
        f = h.put(Opq(sym("distribution" + tag), "function"))
        return h.new(kind, dens, f, tau_r, h.species_sym("sigma" + tag, 0, unit=ONEU, deps=d))
    raise Missing(kind)


def mk_traps(h, kind="Trap", tag="", n=None, **kw):
    """list of an arbitrary number of species of one kind"""
    t = mk_trap(h, kind, tag, **kw)
    n = n or h.sym("n_species" + tag, 1, INF, isint=True)
    return h.put(Lst(None, t, n, "list"))


MANAGERS = [("TrapManager", "Trap"), ("TrapManagerInstantCapture", "TrapInstantCapture"),
            ("TrapManagerTrackTime", "TrapLogNormalLifetimeContinuum")]


def mk_manager(h, cls, kind, w="W", wlo=0, whi=INF):
    """a trap manager in an arbitrary state"""
    n = h.sym("n_species", 1, INF, isint=True)
    traps = mk_traps(h, kind, n=n)
    tm = h.new(cls, traps, h.sym("max_n_transfers", 1, INF, isint=True))
    if w:
        arr = h.array(w, (h.sym("n_levels", 2, isint=True), h.ip.binop(ast.Add(), n, vnum(1), h.st, NODE)), lo=wlo, hi=whi, unit=ONEU,
                      deps=frozenset(["trap_state"]))
        l = tm.locs()[0]
        if "watermarks" not in h.st.heap[l].attrs:
            raise Missing("watermarks")
        if cls == "TrapManagerTrackTime":
            # volumes in column 0, elapsed times elsewhere
            al = arr.locs()[0]
            o = h.st.heap[al]
            h.st.heap[al] = o.but(v=o.v.but(unit=TIME, inf=True), col0=o.v.but(unit=ONEU))
        h.set(tm, "watermarks", arr)
    return tm


def filling(h, ccd, phase=None):
    return h.meth(ccd, "well_filling_function", phase if phase is not None else vnum(0))


def alternatives(t, limit=40):
    """the possible values of a value number: leaves of top-level ite / amb, as (value) list; sums are distributed"""
    for m, c in t.p:
        for i, e in m:
            a = T._BYID[i]
            if a.op == "ite":
                x = alternatives(T.subst(t, {i: a.args[1]}), limit) + alternatives(T.subst(t, {i: a.args[2]}), limit)
            elif a.op == "amb":
                x = alternatives(T.subst(t, {i: a.args[0]}), limit) + alternatives(T.subst(t, {i: a.args[1]}), limit)
            else:
                continue
            out = []
            for y in x:
                if y not in out:
                    out.append(y)
            return out[:limit]
    return [t]


def cases(t, limit=60, amb=True):
    """the values a term can take, by the conditions under which it takes them: [(conds, [alternatives])];
    conds is a tuple of (condition, polarity); the alternatives of one entry differ only in unresolved ambiguity"""
    conds, alts = [], [t]
    for m, c in t.p:
        for i, e in m:
            a = T._BYID[i]
            if a.op == "ite":
                out = []
                for pol in (True, False):
                    mp = {}
                    for mm, _c in t.p:
                        for j, _e in mm:
                            b = T._BYID[j]
                            if b.op == "ite" and b.args[0] is a.args[0]:
                                mp[j] = b.args[1] if pol else b.args[2]
                    out += [(((a.args[0], pol),) + k, y) for k, y in cases(T.subst(t, mp), limit, amb)]
                return out[:limit]
    return [((), alternatives(t) if amb else t)]


def unknown_term(t):
    """the value contains something that was not modelled, became too large to keep, or stands for one of several without saying which"""
    return any(a.op == "amb" or a.unknown and a.op == "sym" and (a.args[0].startswith("?") or a.args[0].startswith("big#")) or a.op == "sym" and str(a.args[0]).startswith("dispatch:") for a in T.atoms_of(t))


def unmodelled(t):
    """the value contains something that was not modelled or became too large to keep"""
    return any(a.unknown and a.op == "sym" and (a.args[0].startswith("?") or a.args[0].startswith("big#")) for a in T.atoms_of(t))


def flatten_sum(t):
    """a nested sum as ([(count, counter atom id)], body): counters start at 0; None when t is not a sum"""
    loops = []
    while True:
        a = single_atom(t)
        if a is None or a.op != "sum":
            break
        loops.append(a)
        t = a.args[-1]
    return loops, t


def range_count(r):
    a = single_atom(r) if isinstance(r, Term) else None
    if a is None or a.op != "range" or len(a.args) < 3:
        return None
    lo, hi, st = a.args[:3]
    if T.const(st) == 1:
        return sub(hi, lo)
    if T.const(st) == -1:
        return sub(lo, hi)
    return None


def counters(t):
    """loop counters (beta atoms) occurring in t"""
    return [a for a in T.atoms_of(t) if a.op == "beta" or (a.op == "sym" and str(a.args[0]).startswith("beta"))]
