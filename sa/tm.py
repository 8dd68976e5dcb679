"""One operation of a trap manager at a time: the others are replaced by what they are required to do (an arbitrary state
within the required ranges), so that each operation is judged for every state the others can leave behind."""
import itertools

from shape import *
from harness import *

STATE = frozenset(["trap_state"])


class Man:
    def __init__(self, mods, cls, kind, cut=(), cap=None, wshape=None):
        self.cls, self.kind = cls, kind
        h = self.h = H(mods)
        self.n_fresh = 0
        self.track = cls == "TrapManagerTrackTime"
        self.hi = INF if self.track else 1
        d = frozenset(["traps"])
        self.n = h.sym("n_species", 1, INF, isint=True)
        self.tau_r = h.species_sym("tau_r", Fraction(1, 1000), unit=TIME, deps=d)
        self.dens = h.species_sym("density", 0, unit=CHARGE, deps=d)
        if kind == "Trap":
            self.tau_c = h.species_sym("tau_c", Fraction(1, 1000), unit=TIME, deps=d) if cap is None else vnum(cap)
            self.trap = h.new("Trap", self.dens, self.tau_r, self.tau_c)
        elif kind == "TrapInstantCapture":
            self.trap = h.new(kind, self.dens, self.tau_r)
        else:
            self.trap = h.new(kind, self.dens, self.tau_r, h.species_sym("sigma", Fraction(1, 1000), unit=ONEU, deps=d))
        self.tm = h.new(cls, h.put(Lst(None, self.trap, self.n, "list")), h.sym("max_n_transfers", 1, INF, isint=True))
        self.levels = h.sym("n_levels", 4, isint=True)
        self.cols = h.ip.binop(ast.Add(), self.n, vnum(1), h.st, NODE)
        self.W = self.state("W")
        if "watermarks" not in h.st.heap[self.tm.locs()[0]].attrs:
            raise Missing("watermarks")
        h.set(self.tm, "watermarks", self.W)
        self.enough = []
        self.phases = mk_ccd(h)
        self.fill = filling(h, self.phases)
        for c in cut:
            if c in ("fractions", "times"):
                h.ip.cuts["watermarks_converted_to_fill_fractions_from_elapsed_times" if c == "fractions" else
                          "watermarks_converted_to_elapsed_times_from_fill_fractions"] = getattr(self, "_" + c)
                continue
            h.ip.cuts[c] = getattr(self, "_" + c)
        self.mark = len(h.ip.events)

    def state(self, name, cls="ndarray"):
        """an arbitrary trap state: volumes in column 0, occupations (or elapsed times) in the others"""
        h = self.h
        t = aatom("asym", (name,), 2, 0, self.hi)
        v = V(term=t, lo=0, hi=self.hi, unit=TIME if self.track else ONEU, deps=STATE, inf=self.track)
        c0 = V(term=t, lo=0, hi=1, unit=ONEU, deps=STATE)
        return h.put(Arr(v, (self.levels, self.cols), c0, "f"))

    # --- what the operations not under study are required to do
    def like(self, ip, st, node, v):
        l = v.locs()[0]
        o = ip.arr(l, st)
        self.n_fresh += 1
        t = aatom("asym", ("S%d" % self.n_fresh,), 2, 0, self.hi)
        c0 = o.col0 if o.col0 is not None else o.v
        return vref(ip.alloc(st, node, o.but(v=o.v.but(term=t, lo=0, hi=self.hi), col0=c0.but(term=t, lo=0, hi=1), cells={}, view=None), ("S", self.n_fresh)))

    def _collapse_redundant_watermarks(self, ip, f, env, st, node):
        vs = [v for v in list(env.values())[1:] if v.locs()]
        if not vs or any(not isinstance(st.heap.get(v.locs()[0]), Arr) for v in vs):
            return NotImplemented
        r = [self.like(ip, st, node, v) for v in vs]
        return r[0] if len(r) == 1 else ip.new_list(r, st, node, "tuple", "collapsed")

    def _update_watermark_volumes_for_cloud_below_highest(self, ip, f, env, st, node):
        vs = [v for v in list(env.values())[1:] if v.locs() and isinstance(st.heap.get(v.locs()[0]), Arr)]
        return self.like(ip, st, node, vs[0]) if vs else NotImplemented

    def _fractions(self, ip, f, env, st, node):
        hi, self.hi = self.hi, 1
        r = self._update_watermark_volumes_for_cloud_below_highest(ip, f, env, st, node)
        self.hi = hi
        return r

    def _times(self, ip, f, env, st, node):
        hi, self.hi = self.hi, INF
        r = self._update_watermark_volumes_for_cloud_below_highest(ip, f, env, st, node)
        self.hi = hi
        return r

    def _updated_watermarks_from_capture_not_enough(self, ip, f, env, st, node):
        e = env.get("enough") or list(env.values())[-1]
        self.enough.append((e, st.path, ip.where(node) if hasattr(ip, "where") else None, env))
        return self._update_watermark_volumes_for_cloud_below_highest(ip, f, env, st, node)

    def _n_trapped_electrons_from_watermarks(self, ip, f, env, st, node):
        self.n_fresh += 1
        return relet(vsym("trapped%d_" % self.n_fresh, 0, INF, unit=CHARGE, deps=STATE))

    def _extend_watermarks_if_almost_full(self, ip, f, env, st, node):
        return vref(NONE)

    def stores(self):
        for e in self.h.ip.events[self.mark:]:
            if e.kind == "arrstore":
                yield e

    def arrays(self, v):
        return [self.h.ip.arr(l, self.h.st) for l in v.locs() if isinstance(self.h.st.heap.get(l), Arr)]


OTHERS = ("collapse_redundant_watermarks", "update_watermark_volumes_for_cloud_below_highest", "updated_watermarks_from_capture_not_enough",
          "n_trapped_electrons_from_watermarks", "extend_watermarks_if_almost_full")


def column(e):
    """which columns a store addresses: 0 volumes, 1 occupations, None unknown"""
    comps = [c for c in e.data.get("comps") or () if c[0] in ("i", "s")]
    if len(comps) < 2:
        return None
    c = comps[-1]
    v = c[1]
    if v is None or v.term is None:
        return None
    k, lo = T.const(v.term), T.bounds(v.term)[0]
    if c[0] == "i" and k == 0:
        return 0
    return 1 if lo >= 1 else None


def decisions(path):
    """boolean atoms of the path conditions, and the assignments that satisfy all of them"""
    ids = []
    for c in path:
        for m, k in c[0].p:
            for i, e in m:
                if i not in ids:
                    ids.append(i)
    ids = [i for i in ids if T._BYID[i].isbool or T._BYID[i].op in ("neg?", "zero?", "isnan", "and", "or", "not")]
    if len(ids) > 10:
        return ids, None
    out = []
    for bits in itertools.product((0, 1), repeat=len(ids)):
        mp = {i: num(b) for i, b in zip(ids, bits)}
        ok = True
        for c in path:
            k = T.const(T.subst(c[0], mp))
            if k is not None and (k != 0) != c[1]:
                ok = False
                break
        if ok:
            out.append(dict(zip(ids, bits)))
    return ids, out


def follows_nonneg(path, t, strict=False):
    """is t >= 0 wherever the path conditions hold? True or None"""
    if T.bounds(t)[0] >= 0 or T.provably_nonneg(t):
        return True
    ids, asg = decisions(path)
    if asg is None:
        return None
    scale = [ONE]
    for m, c in t.p:
        for i, e in m:
            a = T._BYID[i]
            if a.op == "inv":
                scale.append(a.args[0])
            elif e < 0:
                scale.append(T._powe(T.of_atom(a), -e))
    for s in asg:
        ok = False
        pos = [T._BYID[i].args[0] for i, b in s.items() if T._BYID[i].op == "neg?" and b == 1]      # d < 0
        neg = [T._BYID[i].args[0] for i, b in s.items() if T._BYID[i].op == "neg?" and b == 0]      # d >= 0
        signs = [(T.neg(d), True) for d in pos] + [(d, True) for d in neg]
        for y in scale:
            sy = None
            if T.bounds(y)[0] >= 0:
                sy = 1
            else:
                for d, _ in signs:
                    if T.sub(d, y) is ZERO:
                        sy = 1
                    elif T.add(d, y) is ZERO:
                        sy = -1
            if sy is None:
                continue
            z = T.mul(t, y)
            if sy < 0:
                z = T.neg(z)
            if T.bounds(z)[0] >= 0:
                ok = True
            for d, _ in signs:
                r = T.ratio(z, d)
                if z is d or (r is not None and r > 0):
                    ok = True
        if not ok:
            return None
    return True


def of_state(t):
    """a condition on how many levels the (arbitrary) state has: either outcome can be, whatever the numbers are"""
    top = [a for a in T.atoms_of(t) if a.op == "rargmax"]
    if len(top) != 1:
        return False
    inner = {a.id for a in T.atoms_of(T.of_atom(top[0]))}
    return not any(opaque(T.of_atom(a)) for a in T.atoms_of(t) if a.id not in inner and not any(b.id == top[0].id for b in T.atoms_of(T.of_atom(a)))) \
        and all(a.op in ("sym", "asym", "asel", "select", "slice", "zero?", "rargmax") for a in T.atoms_of(T.of_atom(top[0])))


def counterexample(t, path, lo, hi, n=150):
    """a value of t outside [lo, hi] on an evaluation that satisfies the path"""
    if opaque(t) or any(opaque(c[0]) and not of_state(c[0]) for c in path):
        return None
    for k in range(n):
        v = T.Valuation(k)
        try:
            if any((v.term(c[0]) >= 0.5) != c[1] for c in path):
                continue
            y = v.term(t)
        except (RecursionError, ArithmeticError):
            return None
        if isinstance(y, complex) or math.isnan(y):
            continue
        if y < lo - 1e-7 or y > hi + 1e-7:
            return y
    return None


# ---------------------------------------------------------------- small states, cell by cell
from interp import store_term  # noqa: E402

EXACT = {"unroll": 14, "unroll_while": 14, "exact": True}


class Small(Man):
    """a manager of a few species in a state of a few levels; volumes, occupations and rates arbitrary"""

    def __init__(self, mods, cls, kind, species=1, cut=(), cap=None, opts=None, slow=False):
        """slow: release much slower than the dwell times, gradual capture much faster"""
        self.cls, self.kind = cls, kind
        h = self.h = H(mods, dict(EXACT, **(opts or {})))
        slowly = lambda n, lo, hi, unit: h.sym(n + "slow%d_" % s, lo, hi, unit=unit, deps=d) if slow else h.sym(n + "%d_" % s, Fraction(1, 100), unit=unit, deps=d)
        self.n_fresh = 0
        self.track = cls == "TrapManagerTrackTime"
        self.hi = INF if self.track else 1
        self.full, self.empty = (ZERO, T.app("inf")) if self.track else (ONE, ZERO)
        d = frozenset(["traps"])
        self.S = species
        ts = []
        self.par = []
        for s in range(species):
            tr = slowly("tau_r", 10, 20, TIME)
            de = slowly("density", 1, 2, CHARGE)
            if kind == "Trap":
                tc = slowly("tau_c", Fraction(1, 20), Fraction(1, 10), TIME) if cap is None else vnum(cap)
                ts.append(h.new("Trap", de, tr, tc))
                self.par.append((de.term, tr.term, tc.term))
            elif kind == "TrapInstantCapture":
                ts.append(h.new(kind, de, tr))
                self.par.append((de.term, tr.term, None))
            else:
                ts.append(h.new(kind, de, tr, h.sym("sigma%d_" % s, Fraction(1, 100), unit=ONEU, deps=d)))
                self.par.append((de.term, tr.term, None))
        self.tm = h.new(cls, h.put(Lst(ts, None, None, "list")), vnum(3))
        if "watermarks" not in h.st.heap[self.tm.locs()[0]].attrs:
            raise Missing("watermarks")
        self.enough = []
        self.cutnames(cut)
        self.mark = len(h.ip.events)

    def cutnames(self, cut):
        for c in cut:
            self.h.ip.cuts[c] = getattr(self, "_" + c)

    def array_of(self, cells, R):
        h = self.h
        C = self.S + 1
        t = aatom("zeros", (num(R), num(C)), 2, 0, 0)
        for k in sorted(cells):
            t = store_term(t, tuple(num(i) for i in k), cells[k])
        v = V(term=t, lo=0, hi=self.hi, unit=TIME if self.track else ONEU, deps=STATE, inf=self.track)
        return h.put(Arr(v, (vnum(R), vnum(C)), V(term=t, lo=0, hi=1, unit=ONEU, deps=STATE) if self.track else None, "f"))

    def levels(self, K, name="", filled=()):
        """K levels [(volume, [occupations])], none of them empty of volume or quite full, unless listed in filled"""
        out = []
        for i in range(K):
            v = sym("v%s%d_" % (name, i), Fraction(1, 100), 1)
            o = [self.full if (i, s) in filled else sym("o%s%d%d_" % (name, i, s), Fraction(1, 100), Fraction(9, 10) if not self.track else 50) for s in range(self.S)]
            out.append((v, o))
        return out

    def put_levels(self, lv, R):
        cells = {}
        for i, (v, o) in enumerate(lv):
            cells[(i, 0)] = v
            for s, x in enumerate(o):
                cells[(i, s + 1)] = x
        return self.array_of(cells, R)

    def read(self, v, R):
        """the cells of an array value, or None"""
        a = self.arrays(v)
        if len(a) != 1 or a[0].v.term is None:
            return None
        return [[select_term(a[0].v.term, (num(i), num(j))) for j in range(self.S + 1)] for i in range(R)]


def expect_cells(rep, rule, what, where, got, want):
    """compare cell by cell; want: list of rows (shorter: the rest is zero)"""
    if got is None:
        rep.undecided(rule, what, "state not followed")
        return
    bad, unk = [], []
    for i, row in enumerate(got):
        for j, x in enumerate(row):
            w = want[i][j] if i < len(want) else ZERO
            s = None if unknown_term(x) else T.same(x, w)
            if s is False and not opaque(x):
                bad.append("level %d, %s: %s, not %s" % (i, "volume" if j == 0 else "species %d" % j, str(x)[:120], str(w)[:120]))
            elif s is not True:
                unk.append("level %d column %d: %s" % (i, j, str(x)[:200]))
    if bad:
        rep.violation(rule, what, where, "; ".join(bad[:3]))
    elif unk:
        rep.undecided(rule, what, unk[0])
    else:
        rep.ok(rule, what, where)
