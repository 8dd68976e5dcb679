"""Expressions, attributes, calls."""
import ast
import math
from fractions import Fraction

import terms as T
from terms import (INF, ONE, ZERO, Term, add, app, atom, bounds, const, div, eq, fresh, ite, le, lt, mul, neg, not_,
                   num, of_atom, single_atom, sub, sym)
from values import *
from interp import (ARRND, ELEMWISE, NONET, Dead, Event, Interp, Out, State, aatom, arr_ndim, has_arr, is_slice,
                    join_unit, let, mk_slice, relet, select_term, store_term, uadd, umul)
import models
import tabular

FULL = mk_slice(None, None, None)


def amb(x, y, key=None):
    if x is y:
        return x
    a, b = sorted((x, y), key=lambda t: t.p)
    la, ha = T.bounds(a)
    lb, hb = T.bounds(b)
    r = of_atom(atom("amb", (a, b), min(la, lb), max(ha, hb), T.all_int(a) and T.all_int(b)))
    if has_arr(a) or has_arr(b):
        at = single_atom(r)
        ARRND.setdefault(at.id, arr_ndim(a) if has_arr(a) else arr_ndim(b))
    return r


def split_stmts(stmts, depth=0):
    for i, s in enumerate(stmts):
        if isinstance(s, ast.If) and depth < 12 and i + 1 < len(stmts):
            rest = list(stmts[i + 1:])
            n = ast.If(test=s.test, body=split_stmts(join_rest(s.body, rest), depth + 1),
                       orelse=split_stmts(join_rest(s.orelse, rest), depth + 1))
            ast.copy_location(n, s)
            return list(stmts[:i]) + [n]
        if isinstance(s, ast.If) and depth < 12:
            n = ast.If(test=s.test, body=split_stmts(s.body, depth + 1), orelse=split_stmts(s.orelse, depth + 1))
            ast.copy_location(n, s)
            return list(stmts[:i]) + [n]
    return list(stmts)


def join_rest(body, rest):
    if body and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return list(body)
    return list(body) + rest


def leaves(stmts):
    n = 1
    for s in stmts:
        if isinstance(s, ast.If):
            n += leaves(s.body) + leaves(s.orelse)
    return n


def one_class(v):
    """array classes by one name, however they are referred to"""
    if not any(isinstance(r, ExtRef) and r.name.endswith((".Frame", "numpy.ndarray", "np.ndarray")) for r in v.refs):
        return v
    return v.but(refs=frozenset(ExtRef("class:" + r.name.rsplit(".", 1)[-1]) if isinstance(r, ExtRef) and r.name.endswith((".Frame", ".ndarray")) else r for r in v.refs))


class AI(Interp):
    # ------------------------------------------------------------ names
    def late(self, v):
        if isinstance(v, tuple) and v[0] == "late":
            self.load_module(v[1])
            w = self.globals.get(v[1], {}).get(v[2])
            if w is None:
                return vref(ExtRef(v[1] + "." + v[2]))
            return self.late(w)
        return v

    def ev(self, e, st, mod, cls):
        if e is None:
            return VNONE
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.emit("unsupported", e, st, what=type(e).__name__)
            return top(type(e).__name__)
        return m(e, st, mod, cls)

    def e_Constant(self, e, st, mod, cls):
        v = e.value
        if v is None:
            return VNONE
        if isinstance(v, (bool, int, float)):
            return relet(vnum(v))
        if isinstance(v, str):
            return vstr(v)
        return V(const=None, term=sym("const:" + repr(v)))

    def e_JoinedStr(self, e, st, mod, cls):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, st, mod, cls)
        return V(term=fresh("fstr", False))

    def lookup(self, name, st, mod, cls, node=None):
        env = st.env
        if name in env:
            return env[name]
        # enclosing function environments
        el = env.get("__env__")
        while el is not None:
            o = st.heap.get(next(iter(el.refs))) if el.refs else None
            if not isinstance(o, Env):
                break
            if name in o.vars:
                return o.vars[name]
            el = o.vars.get("__env__")
        g = self.globals.get(mod.name, {})
        if name in g:
            return self.late(g[name])
        return None

    def e_Name(self, e, st, mod, cls):
        v = self.lookup(e.id, st, mod, cls, e)
        if v is None:
            if e.id in models.BUILTINS or hasattr(__import__("builtins"), e.id):
                return vref(ExtRef("builtins." + e.id))
            if e.id.startswith("__") and e.id.endswith("__"):
                if e.id == "__class__" and cls is not None:
                    return vref(ClassRef(cls))
                return vref(ExtRef("builtins." + e.id))
            self.emit("nameerror", e, st, name=e.id)
            return top("name:" + e.id)
        return relet(v)

    def e_NamedExpr(self, e, st, mod, cls):
        v = self.ev(e.value, st, mod, cls)
        self.assign(e.target, v, st, e, mod, cls)
        return v

    def e_Tuple(self, e, st, mod, cls, kind="tuple"):
        out = []
        exact = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, mod, cls)
                el = self.iter_exact(v, st)
                if el is None:
                    exact = False
                    ev = self.any_elem(v, st)
                    out.append(ev if ev is not None else top("star"))
                else:
                    out += el
            else:
                out.append(self.ev(x, st, mod, cls))
        if exact:
            return self.new_list(out, st, e, kind)
        el = None
        for x in out:
            el = self.join_v(el, x, amb)
        return vref(self.alloc(st, e, Lst(None, el, vterm(fresh("len", False), lo=0, isint=True), kind)))

    def e_List(self, e, st, mod, cls):
        return self.e_Tuple(e, st, mod, cls, "list")

    def e_Set(self, e, st, mod, cls):
        return self.e_Tuple(e, st, mod, cls, "set")

    def e_Dict(self, e, st, mod, cls):
        items, el = {}, None
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, mod, cls)
            if k is None:
                for l in vv.locs():
                    o = st.heap.get(l)
                    if isinstance(o, Dct):
                        items.update(o.items)
                        el = self.join_v(el, o.elem, amb)
                continue
            kv = self.ev(k, st, mod, cls)
            if kv.const is not None:
                items[kv.const] = vv
            else:
                el = self.join_v(el, vv, amb)
        return vref(self.alloc(st, e, Dct(items, el)))

    def new_list(self, elems, st, node, kind="list", tag=""):
        deps = EMPTY
        return vref(self.alloc(st, node, Lst(tuple(elems), None, vnum(len(elems)), kind), tag), deps=deps)

    def e_Starred(self, e, st, mod, cls):
        return self.ev(e.value, st, mod, cls)

    def e_Lambda(self, e, st, mod, cls):
        envloc = self.alloc(st, e, Env(dict(st.env)), "env")
        f = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)],
                            decorator_list=[], returns=None)
        if not hasattr(e, "_fd"):
            ast.copy_location(f, e)
            e._fd = f
        return self.def_function(e._fd, mod, cls, envloc, st)

    def e_IfExp(self, e, st, mod, cls):
        base_ctl, base_path = st.ctl, st.path
        t, f = self.branch(e.test, st.copy(), mod, cls)
        vals = []
        for s_, x in ((t, e.body), (f, e.orelse)):
            if s_ is None:
                continue
            try:
                v = self.ev(x, s_, mod, cls)
                s_.env["__ifexp__"] = v.with_deps(s_.ctl)
                vals.append(s_)
            except Dead:
                pass
        if not vals:
            raise Dead()
        m = self.merge(vals)
        v = m.env.pop("__ifexp__")
        if len(vals) == 2:
            m.path = base_path
        m.ctl = base_ctl
        st.become(m)
        return relet(v)

    def e_BoolOp(self, e, st, mod, cls):
        isand = isinstance(e.op, ast.And)
        base_ctl, base_path, base_facts = st.ctl, st.path, st.facts
        acc = None
        cur = st.copy()
        done = []
        vals = []
        bterm = None
        allbool = True
        deps = EMPTY
        for i, x in enumerate(e.values):
            v = self.ev(x, cur, mod, cls)
            vals.append(v)
            deps |= v.deps
            c, known = self.truth(v, cur)
            if not (v.isbool or (v.term is not None and T.is_bool(v.term) and not v.refs)):
                allbool = False
            bterm = c if bterm is None else (mul(bterm, c) if isand else T.or_(bterm, c))
            if known is not None and known != isand:
                # decides the result
                cur.path = base_path
                break
            cur.facts = cur.facts | {(c, isand)}
            cur.path = cur.path + ((c, isand, v.deps),)
            r = self.refine(x, isand, cur, mod, cls)
            if r is None:
                break
            cur = r
        # refinements hold only along the evaluated prefix: keep side effects but restore the refined places
        st.heap = {**cur.heap} if len(e.values) and not all(self.pure(x) for x in e.values) else st.heap
        st.path, st.facts, st.ctl = base_path, base_facts, base_ctl
        if allbool or all(not v.refs for v in vals):
            lo, hi = bounds(bterm)
            return relet(V(term=bterm, lo=max(0, lo), hi=min(1, hi), unit=DIMLESS, deps=deps, isint=True, isbool=True,
                           unk=any(v.unk for v in vals), const=(bool(const(bterm)) if const(bterm) is not None else None)))
        r = None
        for v in vals:
            r = self.join_v(r, v, amb)
        return r.with_deps(deps)

    def e_UnaryOp(self, e, st, mod, cls):
        v = self.ev(e.operand, st, mod, cls)
        if isinstance(e.op, ast.Not):
            c, known = self.truth(v, st)
            if known is not None:
                return relet(vnum(not known).but(deps=v.deps))
            t = not_(c)
            return relet(V(term=t, lo=0, hi=1, unit=DIMLESS, deps=v.deps, isint=True, isbool=True, unk=v.unk))
        if isinstance(e.op, ast.USub):
            if v.const is not None and not v.refs and isinstance(v.const, (int, float)) and not isinstance(v.const, bool):
                return relet(vnum(-v.const).but(deps=v.deps))
            return self.emap(lambda x: self.num_neg(x), [v], st, e)
        if isinstance(e.op, ast.Invert):
            return self.emap(lambda x: x.but(term=not_(x.term), lt=None) if x.term is not None and (x.isbool or T.is_bool(x.term))
                             else top("inv"), [v], st, e)
        return v

    def num_neg(self, x):
        if x.term is None:
            return top("neg", x.deps)
        if x.lo == x.hi == INF or x.lo == x.hi == -INF:
            return x.but(term=neg(x.term), lo=-x.hi, hi=-x.lo, const=None, lt=None)
        return x.but(term=neg(x.term), lo=-x.hi, hi=-x.lo, const=None, isbool=False,
                     lt=neg(x.lt) if x.lt is not None else None)

    def e_BinOp(self, e, st, mod, cls):
        a = self.ev(e.left, st, mod, cls)
        b = self.ev(e.right, st, mod, cls)
        return self.binop(e.op, a, b, st, e)

    def e_Compare(self, e, st, mod, cls):
        left = self.ev(e.left, st, mod, cls)
        acc = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, mod, cls)
            r = self.compare(op, left, right, st, e)
            if acc is None:
                acc = r
            elif acc.refs or r.refs:
                acc = top("cmpchain")
            else:
                t = mul(acc.term, r.term)
                lo, hi = bounds(t)
                acc = V(term=t, lo=max(lo, 0), hi=min(hi, 1), unit=DIMLESS, deps=acc.deps | r.deps, isint=True,
                        isbool=True, unk=acc.unk or r.unk)
            left = right
        return relet(acc) if acc.term is not None else acc

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return self.cmp_is(a, b, isinstance(op, ast.IsNot))
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.cmp_in(a, b, isinstance(op, ast.NotIn), st, node)
        if isinstance(op, (ast.Eq, ast.NotEq)) and (a.is_none or b.is_none):
            x = b if a.is_none else a
            if not any(isinstance(st.heap.get(l), Arr) for l in x.locs()):
                return self.cmp_is(a, b, isinstance(op, ast.NotEq))
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a.const, str) and isinstance(b.const, str):
            return vnum((a.const == b.const) == isinstance(op, ast.Eq))
        if isinstance(op, (ast.Eq, ast.NotEq)) and a.refs and b.refs and not a.unk and not b.unk and all(
                isinstance(r, (ExtRef, ClassRef)) for r in a.refs | b.refs):
            if len(a.refs) == 1 and a.refs == b.refs:
                return vnum(isinstance(op, ast.Eq))
            if not (a.refs & b.refs):
                return vnum(isinstance(op, ast.NotEq))
        if isinstance(op, (ast.Eq, ast.NotEq)) and not a.unk and not b.unk:
            for x, y in ((a, b), (b, a)):
                if x.const is not None and not x.refs and y.refs and y.term is None and all(isinstance(r, (ExtRef, ClassRef)) for r in y.refs):
                    return vnum(isinstance(op, ast.NotEq))
        return self.emap(lambda x, y: self.num_cmp(op, x, y, node, st), [a, b], st, node)

    def num_cmp(self, op, x, y, node, st):
        deps = x.deps | y.deps
        if x.term is None or y.term is None or x.refs or y.refs:
            tx = x.term if x.term is not None else sym("obj")
            ty = y.term if y.term is not None else sym("obj")
            t = of_atom(atom("objcmp", (type(op).__name__, tx, ty), 0, 1, True, True))
            return V(term=t, lo=0, hi=1, unit=DIMLESS, deps=deps, unk=x.unk or y.unk, isint=True, isbool=True)
        _, ok = uadd(x.unit, y.unit)
        if not ok:
            self.emit("unit", node, st, what="comparison", a=x.unit, b=y.unit)
        k = None
        xl, yl = x.lt if x.lt is not None else let(x), y.lt if y.lt is not None else let(y)
        dl, dh = bounds(sub(xl, yl))
        if x.lo not in (INF, -INF) or y.lo not in (INF, -INF) or x.hi not in (INF, -INF) or y.hi not in (INF, -INF):
            if x.hi not in (INF,) and y.lo not in (-INF,):
                dh = min(dh, x.hi - y.lo)
            if x.lo not in (-INF,) and y.hi not in (INF,):
                dl = max(dl, x.lo - y.hi)
        tx, ty = x.term, y.term
        pinf = lambda v: v.lo == v.hi and v.lo in (INF, -INF)
        if pinf(x) or pinf(y):
            if pinf(x) and pinf(y):
                dl = dh = (0 if x.lo == y.lo else (1 if x.lo > y.lo else -1))
            elif pinf(y) and not x.inf:
                dl, dh = (-INF, -1) if y.lo == INF else (1, INF)
            elif pinf(x) and not y.inf:
                dl, dh = (1, INF) if x.lo == INF else (-INF, -1)
        name = type(op).__name__
        if name == "Lt":
            t = lt(tx, ty)
            k = True if dh < 0 else (False if dl >= 0 else None)
        elif name == "LtE":
            t = le(tx, ty)
            k = True if dh <= 0 else (False if dl > 0 else None)
        elif name == "Gt":
            t = lt(ty, tx)
            k = True if dl > 0 else (False if dh <= 0 else None)
        elif name == "GtE":
            t = le(ty, tx)
            k = True if dl >= 0 else (False if dh < 0 else None)
        elif name == "Eq":
            t = eq(tx, ty)
            k = False if (dl > 0 or dh < 0) else (True if dl == dh == 0 else None)
        elif name == "NotEq":
            t = not_(eq(tx, ty))
            k = True if (dl > 0 or dh < 0) else (False if dl == dh == 0 else None)
        else:
            return top("cmp", deps)
        if x.nan or y.nan or x.unk or y.unk:
            k = None if not (x.nan or y.nan) or True else k
        if k is not None and not (x.unk or y.unk):
            t = ONE if k else ZERO
        c = const(t)
        return V(term=t, lo=c if c is not None else 0, hi=c if c is not None else 1, unit=DIMLESS, deps=deps,
                 unk=x.unk or y.unk, isint=True, isbool=True, const=bool(c) if c is not None else None)

    def cmp_is(self, a, b, negate):
        deps = a.deps | b.deps
        k = None
        a, b = one_class(a), one_class(b)
        if not a.unk and not b.unk:
            if a.is_none and b.is_none:
                k = True
            elif (a.is_none and NONE not in b.refs) or (b.is_none and NONE not in a.refs):
                k = False
            elif a.refs and b.refs and not (a.refs & b.refs):
                k = False
            elif (a.const is not None and not a.refs and b.refs and b.term is None) or (b.const is not None and not b.refs and a.refs and a.term is None):
                k = False
            elif a.refs and a.refs == b.refs and len(a.refs) == 1 and not isinstance(next(iter(a.refs)), Loc):
                k = True
            elif a.refs and a.refs == b.refs and len(a.refs) == 1 and isinstance(next(iter(a.refs)), Loc) and not next(
                    iter(a.refs)).summary:
                k = True
            elif isinstance(a.const, bool) and isinstance(b.const, bool):
                k = a.const is b.const
        if k is not None:
            return vnum(k != negate).but(deps=deps)
        ta = a.term if a.term is not None else sym("obj:" + ",".join(sorted(map(repr, a.refs))))
        tb = b.term if b.term is not None else sym("obj:" + ",".join(sorted(map(repr, b.refs))))
        x, y = sorted((ta, tb), key=lambda t: t.p)
        t = of_atom(atom("is?", (x, y), 0, 1, True, True))
        if a.isbool and b.const is True:
            t = a.term
        if a.isbool and b.const is False:
            t = not_(a.term)
        if negate:
            t = not_(t)
        return V(term=t, lo=0, hi=1, unit=DIMLESS, deps=deps, unk=a.unk or b.unk, isint=True, isbool=True)

    def cmp_in(self, a, b, negate, st, node):
        tb = b.term
        deps = a.deps | b.deps
        for l in b.locs():
            o = st.heap.get(l)
            if isinstance(o, Arr):
                ar = self.arr(l, st)
                tb = ar.v.term
                deps |= ar.v.deps
                ex = self.iter_exact(b, st) if self.opts.get("exact") and a.term is not None and not a.unk else None
                if ex:
                    t = ONE
                    for x in ex:
                        t = mul(t, not_(eq(a.term, x.term)))
                    return V(term=t if negate else not_(t), lo=0, hi=1, unit=DIMLESS, deps=deps, isint=True, isbool=True)
            elif isinstance(o, Lst):
                tb = o.term
                if o.elems is not None:
                    if a.const is not None and all(x.const is not None for x in o.elems):
                        return vnum((a.const in [x.const for x in o.elems]) != negate)
                    if not a.unk and all(not x.unk for x in o.elems) and not any(isinstance(st.heap.get(k), (Arr, Lst, Inst)) for x in (a,) + tuple(o.elems) for k in x.locs()):
                        rs = [self.compare(ast.Eq(), a, x, st, node).const for x in o.elems]
                        if None not in rs:
                            return vnum(any(rs) != negate)
                for x in (o.elems or (o.elem,)):
                    if x is not None:
                        deps |= x.deps
            elif isinstance(o, Dct) and a.const is not None and o.elem is None:
                return vnum((a.const in o.items) != negate)
        if a.term is not None and tb is not None:
            t = of_atom(atom("in?", (a.term, tb), 0, 1, True, True))
        else:
            t = fresh("in", False)
            t = of_atom(atom("truthy", (t,), 0, 1, True, True))
        if negate:
            t = not_(t)
        return V(term=t, lo=0, hi=1, unit=DIMLESS, deps=deps, unk=a.unk or b.unk, isint=True, isbool=True)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, st, node):
        la = [st.heap.get(l) for l in a.locs()]
        lb = [st.heap.get(l) for l in b.locs()]
        if any(isinstance(o, Lst) for o in la + lb) and not any(isinstance(o, Arr) for o in la + lb):
            return self.list_op(op, a, b, st, node)
        if isinstance(a.const, str) or isinstance(b.const, str):
            if isinstance(op, ast.Add) and isinstance(a.const, str) and isinstance(b.const, str):
                return vstr(a.const + b.const)
            return V(term=fresh("str", False))
        # operator methods of analysed classes
        for v, o, n in ((a, b, self.OPM.get(type(op).__name__)), ):
            for l in a.locs():
                ob = st.heap.get(l)
                if isinstance(ob, Inst) and isinstance(ob.cls, Class) and n and ob.cls.find(n)[0] is not None:
                    f = self.getattr(a, n, st, node, ob.cls.mod, ob.cls)
                    return self.call(f, [b], {}, st, node, ob.cls.mod, ob.cls)
        return self.emap(lambda x, y: self.num_op(op, x, y, node, st), [a, b], st, node)

    OPM = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}

    def list_op(self, op, a, b, st, node):
        deps = a.deps | b.deps
        if isinstance(op, ast.Add):
            ea, eb = self.iter_exact(a, st), self.iter_exact(b, st)
            if ea is not None and eb is not None:
                return self.new_list(list(ea) + list(eb), st, node)
            el = self.join_v(self.any_elem(a, st), self.any_elem(b, st), amb)
            la, lb = self.length(a, st), self.length(b, st)
            ln = self.num_op(ast.Add(), la, lb, node, st)
            return vref(self.alloc(st, node, Lst(None, el, ln)), deps=deps)
        if isinstance(op, ast.Mult):
            lst, k = (a, b) if any(isinstance(st.heap.get(l), Lst) for l in a.locs()) else (b, a)
            ex = self.iter_exact(lst, st)
            kc = k.const
            if kc is None and self.opts.get("tab") and k.term is not None and const(k.term) is not None and const(k.term).denominator == 1:
                kc = int(const(k.term))
            if ex is not None and isinstance(kc, int) and 0 <= kc * len(ex) <= (64 if self.opts.get("tab") else 16):
                return self.new_list(list(ex) * kc, st, node)
            el = self.any_elem(lst, st)
            ln = self.num_op(ast.Mult(), self.length(lst, st), k, node, st)
            t = None
            if el is not None and el.term is not None and ex is not None and len(ex) == 1:
                t = aatom("full", (el.term, ln.term if ln.term is not None else NONET), 1, *bounds(el.term))
            return vref(self.alloc(st, node, Lst(None, el, ln, term=t)), deps=deps)
        if isinstance(op, ast.Mod):
            return V(term=fresh("str", False))
        return top("listop", deps)

    def num_op(self, op, x, y, node, st):
        deps = x.deps | y.deps
        if x.unk or y.unk or x.term is None or y.term is None or (x.refs - {NONE}) or (y.refs - {NONE}):
            if x.term is not None and y.term is not None:
                n = type(op).__name__
                t = app("op" + n, x.term, y.term)
                if x.unk or y.unk:
                    a = single_atom(t)
                    a.unknown = True
                    t = fresh("?op")
                return V(term=t, deps=deps, unk=True)
            return top("op", deps)
        n = type(op).__name__
        xl, yl = x.lt if x.lt is not None else let(x), y.lt if y.lt is not None else let(y)
        tx, ty = x.term, y.term
        pinf = lambda v: v.lo == v.hi and v.lo in (INF, -INF)
        isint = x.isint and y.isint
        unit, inf, nan, lo, hi, l, t = None, x.inf or y.inf, x.nan or y.nan, -INF, INF, None, None
        if n in ("Add", "Sub"):
            ux, uy = x.unit, y.unit
            if n == "Sub" and ux is not None and uy is not None and ux != "any" and uy != "any" and ux[0] == "log" and uy[0] == "log":
                unit = DIMLESS if ux == uy else None
                if ux != uy:
                    self.emit("unit", node, st, what="difference of logarithms", a=ux, b=uy)
            else:
                unit, ok = uadd(ux, uy)
                if not ok:
                    if (ux[0] == "log") != (uy[0] == "log") and (ux == DIMLESS or uy == DIMLESS):
                        unit = ux if ux[0] == "log" else uy      # log(x) shifted by a number
                        unit = None
                    else:
                        self.emit("unit", node, st, what="sum" if n == "Add" else "difference", a=ux, b=uy)
            if pinf(x) or pinf(y):
                sx = (x.lo if pinf(x) else 0)
                sy = (y.lo if pinf(y) else 0) * (1 if n == "Add" else -1)
                tot = sx + sy
                if math.isnan(tot):
                    return V(term=T.NANT, nan=True, deps=deps, unit=unit)
                return V(term=num(float(tot)), lo=tot, hi=tot, inf=True, deps=deps, unit=unit, nan=nan)
            t = add(tx, ty) if n == "Add" else sub(tx, ty)
            l = add(xl, yl) if n == "Add" else sub(xl, yl)
            if n == "Add":
                lo, hi = x.lo + y.lo, x.hi + y.hi
            else:
                lo = x.lo - y.hi if not (x.lo == INF and y.hi == INF) and not (x.lo == -INF and y.hi == -INF) else -INF
                hi = x.hi - y.lo if not (x.hi == INF and y.lo == INF) and not (x.hi == -INF and y.lo == -INF) else INF
            if x.inf and y.inf and n == "Sub":
                nan = True
        elif n == "Mult":
            unit = umul(x.unit, y.unit)
            if x.unit == DIMLESS and y.unit is not None:
                unit = y.unit
            elif y.unit == DIMLESS and x.unit is not None:
                unit = x.unit
            if pinf(x) or pinf(y):
                o, w = (y, x) if pinf(x) else (x, y)
                if o.lo == 0 and o.hi == 0:
                    return V(term=T.NANT, nan=True, deps=deps, unit=unit)
                if o.lo > 0 or o.hi < 0:
                    s_ = (1 if o.lo > 0 else -1) * (1 if w.lo > 0 else -1)
                    return V(term=num(s_ * INF), lo=s_ * INF, hi=s_ * INF, inf=True, deps=deps, unit=unit)
                return V(term=app("infmul", o.term), lo=0 if (o.lo >= 0 and w.lo > 0) else -INF, inf=True, nan=True,
                         deps=deps, unit=unit)
            t, l = T.mul(tx, ty), T.mul(xl, yl)
            lo, hi = T._imul((x.lo, x.hi), (y.lo, y.hi))
            if (x.inf and y.lo <= 0 <= y.hi) or (y.inf and x.lo <= 0 <= x.hi):
                nan = True
        elif n == "Div":
            unit = umul(x.unit, y.unit, -1) if y.unit != "any" else ("any" if x.unit == "any" else None)
            if y.unit == DIMLESS and x.unit is not None:
                unit = x.unit
            isint = False
            if pinf(y):
                if pinf(x):
                    return V(term=T.NANT, nan=True, deps=deps, unit=unit)
                return V(term=ZERO, lo=0, hi=0, deps=deps, unit=unit if unit is not None else "any", nan=x.inf)
            if pinf(x):
                if y.lo >= 0 or y.hi <= 0:
                    s_ = 1 if (x.lo > 0) == (y.lo >= 0) else -1
                    return V(term=num(s_ * INF), lo=s_ * INF, hi=s_ * INF, inf=True, deps=deps, unit=unit)
            if y.lo == 0 and y.hi == 0:
                self.emit("divzero", node, st)
                if x.lo > 0:
                    return V(term=T.INFT, lo=INF, hi=INF, inf=True, deps=deps, unit=unit)
                return V(term=app("div0", tx), deps=deps, unit=unit, nan=True, inf=True)
            t, l = div(tx, ty), div(xl, yl)
            if x.inf and y.inf:
                nan = True
            if x.lo >= 0 and y.lo >= 0:
                lo = 0
        elif n == "FloorDiv":
            unit = umul(x.unit, y.unit, -1) if y.unit != "any" else None
            t = T.floordiv(tx, ty)
            l = t
            if x.lo >= 0 and y.lo >= 0:
                lo = 0
            isint = x.isint and y.isint
            if y.lo == y.hi and y.lo not in (0, INF, -INF):
                if x.lo not in (INF, -INF):
                    lo = max(lo, math.floor(x.lo / y.lo) if y.lo > 0 else lo)
                if x.hi not in (INF, -INF) and y.lo > 0:
                    hi = math.floor(x.hi / y.lo)
        elif n == "Mod":
            unit, ok = uadd(x.unit, y.unit)
            t = T.mod(tx, ty)
            l = t
            if y.lo >= 0:
                lo, hi = 0, (y.hi - 1 if isint else y.hi)
        elif n == "Pow":
            unit = None
            if x.unit == DIMLESS or x.unit == "any":
                unit = x.unit
            elif x.unit is not None and y.const is not None and x.unit[0] != "log" and isinstance(y.const, (int, float)):
                k = Fraction(repr(y.const)) if isinstance(y.const, float) else Fraction(y.const)
                unit = (x.unit[0] * k, x.unit[1] * k)
            elif x.unit is not None and x.unit[0] == "log":
                unit = None
            elif x.unit is not None and y.unit is not None and y.const is None:
                self.emit("unit", node, st, what="power with a variable exponent", a=x.unit, b=y.unit)
            if y.unit not in (None, "any", DIMLESS):
                self.emit("unit", node, st, what="exponent", a=y.unit, b=DIMLESS)
            t, l = T.pow_(tx, ty), T.pow_(xl, yl)
            if x.lo >= 0:
                lo = 0
                if x.hi <= 1 and y.lo >= 0:
                    hi = 1
            if y.const is not None and isinstance(y.const, (int, float)) and y.const == int(y.const) and int(y.const) % 2 == 0:
                lo = max(lo, 0)
            isint = isint and y.lo >= 0
        elif n in ("BitAnd", "BitOr", "BitXor") and (x.isbool and y.isbool):
            t = mul(tx, ty) if n == "BitAnd" else (T.or_(tx, ty) if n == "BitOr" else
                                                   sub(add(tx, ty), mul(num(2), mul(tx, ty))))
            return V(term=t, lo=max(0, bounds(t)[0]), hi=min(1, bounds(t)[1]), unit=DIMLESS, deps=deps, isint=True, isbool=True)
        else:
            return V(term=app("op" + n, tx, ty), deps=deps, isint=isint)
        bl, bh = bounds(t)
        ll, lh = bounds(l) if l is not None else (-INF, INF)
        lo, hi = max(lo, bl, ll), min(hi, bh, lh)
        if lo > hi:
            lo, hi = bl, bh
        c = const(t)
        r = V(term=t, lo=lo, hi=hi, unit=unit, deps=deps, inf=inf, nan=nan, lt=l, isint=isint)
        if c is not None:
            r.const = int(c) if (isint and c.denominator == 1) else float(c)
        return r

    # elementwise lifting over arrays
    def operand(self, v, st):
        """(v, col0, shape|(), isarr, dtype)"""
        arrs = []
        for l in v.locs():
            o = st.heap.get(l)
            if isinstance(o, Arr):
                arrs.append(self.arr(l, st))
            elif isinstance(o, Lst) or isinstance(o, Rng):
                arrs.append(self.to_arr(V(refs=frozenset([l]), deps=v.deps), st))
            elif isinstance(o, Opq):
                return V(term=o.term, deps=v.deps, unk=v.unk), None, (), False, None
        if not arrs:
            if any(isinstance(r, Loc) for r in v.refs):
                return v.but(refs=EMPTY, unk=True, term=fresh("?obj")), None, (), False, None
            return v, None, (), False, None
        a = arrs[0]
        if len(arrs) > 1:
            # contents are compared here, not which array they belong to
            arrs = [x.but(view=None) for x in arrs]
            a = arrs[0]
            for b in arrs[1:]:
                a = self.join_obj(a, b, amb, "operand")
        vv = a.v.with_deps(v.deps)
        if v.unk:
            vv = vv.but(unk=True)
        # arrays used as one variable in interval computations
        vv = relet(vv.but(lt=None))
        c0 = a.col0
        if c0 is not None:
            c0 = relet(c0.with_deps(v.deps).but(lt=None))
        return vv, c0, a.shape, True, a.dtype

    def emap(self, fn, vs, st, node, dtype=None):
        ops = [self.operand(v, st) for v in vs]
        if not any(o[3] for o in ops):
            return fn(*[o[0] for o in ops])
        v = fn(*[o[0] for o in ops])
        c0 = None
        if any(o[1] is not None for o in ops):
            mark = len(self.events)
            c0 = fn(*[(o[1] if o[1] is not None else o[0]) for o in ops])
            if c0.term is not v.term and v.term is not None:
                c0 = c0.but(term=v.term)
        shape = ()
        for o in ops:
            if o[3]:
                shape = self.bcast(shape, o[2])
        if v.refs:
            v = v.but(refs=EMPTY)
        a = Arr(v.but(lt=None, const=None), shape, c0, dtype)
        cl = [st.heap.get(l) for x in vs for l in x.locs()]
        fr = [o for o in cl if isinstance(o, Arr) and o.cls != "ndarray"]
        if fr:
            a.cls = fr[0].cls
        loc = self.alloc(st, node, a, "e")
        return vref(loc)

    def bcast(self, s1, s2):
        if s1 is None or s2 is None:
            return None
        if len(s1) < len(s2):
            s1, s2 = s2, s1
        out = list(s1)
        off = len(s1) - len(s2)
        for i, d in enumerate(s2):
            x = out[off + i]
            if x.const == 1:
                out[off + i] = d
        return tuple(out)

    # ------------------------------------------------------------ arrays
    def arr(self, l, st):
        """the array object with the facets resolved through views"""
        o = st.heap[l]
        if o.view is None:
            return o
        base = st.heap.get(o.view[0])
        if not isinstance(base, Arr):
            return o.but(view=None)
        b = self.arr(o.view[0], st)
        kind = o.view[1]
        if kind == "T":
            return o.but(v=b.v.but(term=self.T_term(b.v.term, b.ndim)), col0=None if b.ndim != 1 else b.col0,
                         shape=tuple(reversed(b.shape)) if b.shape is not None else None, dtype=b.dtype) if b.col0 is None else \
                o.but(v=self.join_v(b.v, b.col0, amb).but(term=self.T_term(b.v.term, b.ndim)), col0=None,
                      shape=tuple(reversed(b.shape)) if b.shape is not None else None, dtype=b.dtype)
        if isinstance(kind, str):
            return o.but(v=self.join_v(b.v, b.col0, amb).but(term=aatom(kind, (b.v.term,), o.ndim)) if b.v.term is not None else b.v,
                         col0=None, dtype=b.dtype)
        if kind is None:
            return o.but(v=self.join_v(b.v, b.col0, amb).but(term=fresh("view", False)), dtype=b.dtype)
        v, c0 = self.region_facets(b, kind)
        t = select_term(b.v.term, kind) if b.v.term is not None else None
        sh = o.shape
        return o.but(v=v.but(term=t, lt=None), col0=c0.but(term=t) if c0 is not None else None, dtype=b.dtype)

    def T_term(self, t, nd):
        if t is None:
            return None
        if nd == 1:
            return t
        a = single_atom(t)
        if a is not None and a.op == "T":
            return a.args[0]
        if a is not None and a.op == "ite":
            return self._reg(ite(a.args[0], self.T_term(a.args[1], nd), self.T_term(a.args[2], nd)), nd)
        if a is None:
            # polynomial: elementwise
            mapping = {}
            for m, _ in t.p:
                for i, e in m:
                    if i in ARRND and ARRND[i] == 2:
                        mapping[i] = self.T_term(of_atom(T._BYID[i]), 2)
            # operands of fewer dimensions are aligned with the last axis: not elementwise under a transposition
            if mapping and not any(i not in mapping and has_arr(of_atom(T._BYID[i])) for m, _ in t.p for i, e in m):
                return T.subst(t, mapping)
        return aatom("T", (t,), nd)

    def _reg(self, t, nd):
        self.reg(t, nd)
        return t

    def touches(self, comps, ndim):
        """(touches col 0, touches the rest) of a region, for 2-d arrays"""
        if ndim is None or ndim < 2 or len(comps) < ndim:
            return True, True
        last = comps[-1]
        if is_slice(last):
            s = single_atom(last).args[0]
            e = single_atom(last).args[1]
            if s is not NONET and bounds(s)[0] >= 1:
                return False, True
            if e is not NONET and const(e) == 1 and (s is NONET or const(s) == 0):
                return True, False
            return True, True
        c = const(last)
        if c is not None:
            return (True, False) if c == 0 else (False, True)
        if bounds(last)[0] >= 1:
            return False, True
        return True, True

    def region_facets(self, b, comps):
        c0t, rt = self.touches(comps, b.ndim)
        if b.col0 is None:
            v = b.v
            key = tuple(comps)
            return v, None
        last_is_slice = comps and is_slice(comps[-1]) and len(comps) == b.ndim
        if c0t and not rt:
            return b.col0, None
        if rt and not c0t:
            return b.v, None
        if (last_is_slice or len(comps) < (b.ndim or 0)) and (len(comps) < b.ndim or single_atom(comps[-1]).args[0] is NONET or const(
                single_atom(comps[-1]).args[0]) == 0):
            return b.v, b.col0
        return self.join_v(b.v, b.col0, amb), None

    def ev_index(self, sl, st, mod, cls):
        """index components: ('i', V) | ('s', a, b, c) | ('n',) | ('e',)"""
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for x in elts:
            if isinstance(x, ast.Slice):
                out.append(("s",) + tuple(self.ev(y, st, mod, cls) if y is not None else None
                                          for y in (x.lower, x.upper, x.step)))
            elif isinstance(x, ast.Constant) and x.value is Ellipsis:
                out.append(("e",))
            elif isinstance(x, ast.Constant) and x.value is None:
                out.append(("n",))
            else:
                v = self.ev(x, st, mod, cls)
                if any(isinstance(r, ExtRef) and r.name == "builtins.slice" for r in v.refs):
                    out.append(("s", None, None, None))
                    continue
                done = False
                for l in v.locs():
                    o = st.heap.get(l)
                    if isinstance(o, Opq) and o.cls == "slice":
                        out.append(("s",) + o.info)
                        done = True
                    elif isinstance(o, Lst) and o.kind == "tuple" and o.elems is not None and len(elts) == 1:
                        for y in o.elems:
                            out.append(("i", y))
                        done = True
                if not done:
                    out.append(("i", v))
        return out

    def norm_comps(self, ref, comps, st):
        """indices counted from the end of an array of known size, counted from its start (small states only)"""
        if not self.opts.get("exact"):
            return comps
        a = self.arr(ref, st)
        if a is None or a.shape is None or len(comps) > len(a.shape) or any(c[0] not in ("i", "s") for c in comps):
            return comps
        out = []
        for c, n in zip(comps, a.shape):
            k = const(n.term) if n.term is not None else None
            if k is None:
                out.append(c)
            elif c[0] == "i" and not c[1].refs and c[1].const is not None and c[1].const < 0:
                out.append(("i", vnum(c[1].const + k).with_deps(c[1].deps)))
            elif c[0] == "s" and any(x is not None and not x.is_none and not x.refs and x.const is not None and x.const < 0 for x in c[1:3]):
                out.append(("s",) + tuple(x if x is None or x.is_none or x.refs or x.const is None or x.const >= 0
                                          else vnum(max(0, x.const + k)).with_deps(x.deps) for x in c[1:3]) + tuple(c[3:]))
            else:
                out.append(c)
        return type(comps)(out)

    def comp_terms(self, comps, st, ndim):
        """value numbers of the components, padded to ndim; None when not expressible"""
        n = sum(1 for c in comps if c[0] in ("i", "s"))
        out = []
        for c in comps:
            if c[0] == "i":
                v = c[1]
                if v.refs or v.term is None:
                    a = None
                    for l in v.locs():
                        o = st.heap.get(l)
                        if isinstance(o, Arr):
                            a = self.arr(l, st)
                        elif isinstance(o, (Rng,)):
                            # array[range] selects that slice
                            if o.step.const == 1:
                                out.append(of_atom(atom("slice", (o.start.term, o.stop.term, NONET))))
                                a = "done"
                    if a == "done":
                        continue
                    if a is None or a.v.term is None:
                        return None
                    out.append(of_atom(atom("fancy", (a.v.term,))))
                else:
                    out.append(v.term)
            elif c[0] == "s":
                ts = []
                for x in c[1:]:
                    if x is None or x.is_none:
                        ts.append(None)
                    elif x.term is None:
                        return None
                    else:
                        ts.append(x.term)
                if ts[0] is not None and const(ts[0]) == 0:
                    ts[0] = None
                if ts[2] is not None and const(ts[2]) == 1:
                    ts[2] = None
                out.append(mk_slice(*ts))
            elif c[0] == "e":
                if ndim is None:
                    return None
                out += [FULL] * (ndim - n)
            else:
                return None
        if ndim is not None:
            while len(out) < ndim:
                out.append(FULL)
        return tuple(out)

    def mask_of(self, comps, st, a):
        """the boolean mask when the index is one boolean array"""
        if len(comps) == 1 and comps[0][0] == "i":
            v = comps[0][1]
            for l in v.locs():
                o = st.heap.get(l)
                if isinstance(o, Arr):
                    m = self.arr(l, st)
                    if m.v.isbool or m.dtype == "b":
                        return m
        return None

    def load_array(self, l, comps, st, node, deps=EMPTY):
        a = self.arr(l, st)
        nd = a.ndim
        m = self.mask_of(comps, st, a)
        if self.opts.get("tab") and (m is not None or any(c[0] == "i" and c[1].locs() for c in comps)):
            r = tabular.load(self, l, comps, st, node, deps)
            if r is not None:
                return r
        if m is not None:
            t = aatom("mask", (a.v.term, m.v.term), 1) if a.v.term is not None and m.v.term is not None else None
            v = self.join_v(a.v, a.col0, amb)
            return vref(self.alloc(st, node, Arr(v.but(term=t, deps=v.deps | m.v.deps, lt=None), None, dtype=a.dtype), "m"))
        ct = self.comp_terms(comps, st, nd)
        ideps = deps
        for c in comps:
            for x in c[1:]:
                if isinstance(x, V):
                    ideps |= x.deps
                    for ll in x.locs():
                        oo = st.heap.get(ll)
                        if isinstance(oo, Arr):
                            ideps |= self.arr(ll, st).v.deps
        ints = [c for c in comps if c[0] == "i" and not any(isinstance(st.heap.get(x), (Arr, Lst, Rng)) for x in c[1].locs())]
        if ct is not None and len(ints) == len(comps) and (nd is None or len(comps) == nd):
            # one cell
            key = tuple(ct)
            if key in a.cells:
                return relet(a.cells[key].with_deps(ideps))
            rl, rkey = self.cell_key(l, comps, st)
            ro = st.heap.get(rl) if rl is not None else None
            if rkey is not None and isinstance(ro, Arr) and rkey in ro.cells:
                return relet(ro.cells[rkey].with_deps(ideps))
            c0t, rt = True, True
            if nd is not None and nd >= 2:
                c0t, rt = self.touches(ct, nd)
            v = a.v
            if a.col0 is not None:
                v = a.col0 if not rt else (a.v if not c0t else self.join_v(a.v, a.col0, amb))
            t = select_term(a.v.term, ct) if a.v.term is not None else None
            lo, hi = bounds(t) if t is not None else (-INF, INF)
            r = v.but(term=t, deps=v.deps | ideps, lt=None, const=None, lo=max(lo, v.lo), hi=min(hi, v.hi))
            c = const(t) if t is not None else None
            if c is not None:
                r.const = int(c) if r.isint and c.denominator == 1 else float(c)
            if self.opts.get("declassify") and l in self.opts["declassify"](self, st):
                r = r.but(deps=ideps)
            return relet(r)
        # a view (basic indexing) or a copy (fancy indexing)
        fancy = any(c[0] == "i" and any(isinstance(st.heap.get(x), (Arr, Lst, Rng)) for x in c[1].locs()) for c in comps)
        shape = self.region_shape(a, comps, st)
        if ct is None:
            v = self.join_v(a.v, a.col0, amb)
            return vref(self.alloc(st, node, Arr(v.but(term=fresh("idx", False), deps=v.deps | ideps, lt=None), shape, dtype=a.dtype,
                                                 view=None if fancy else (l, None), cls=a.cls), "i"))
        if fancy:
            v, c0 = self.region_facets(a, ct)
            t = select_term(a.v.term, ct)
            self.reg(t, len(shape) if shape is not None else None)
            ns = sum(1 for x in ct if is_slice(x) or (single_atom(x) is not None and single_atom(x).op == "fancy"))
            for at in [single_atom(t)]:
                if at is not None and at.op == "select":
                    ARRND[at.id] = ns
            return vref(self.alloc(st, node, Arr(v.but(term=t, deps=v.deps | ideps, lt=None), shape, c0.but(term=t) if c0 is not None else None,
                                                 dtype=a.dtype), "f"))
        o = Arr(a.v, shape, None, a.dtype, view=(l, tuple(ct)), cls=a.cls)
        return vref(self.alloc(st, node, o, "v"), deps=ideps)

    def region_shape(self, a, comps, st):
        if a.shape is None:
            return None
        out, k = [], 0
        n = sum(1 for c in comps if c[0] in ("i", "s"))
        for c in comps:
            if c[0] == "n":
                out.append(vnum(1))
            elif c[0] == "e":
                for _ in range(len(a.shape) - n):
                    out.append(a.shape[k])
                    k += 1
            elif c[0] == "i":
                if k >= len(a.shape):
                    return None
                v = c[1]
                sq = [st.heap.get(x) for x in v.locs()]
                if any(isinstance(o, (Arr, Lst, Rng)) for o in sq):
                    out.append(self.length(v, st))
                k += 1
            else:
                if k >= len(a.shape):
                    return None
                out.append(self.slice_len(a.shape[k], c))
                k += 1
        out += list(a.shape[k:])
        return tuple(out)

    def slice_len(self, n, c):
        a, b, s = c[1:]
        if (a is None or a.is_none or a.const == 0) and (b is None or b.is_none) and (s is None or s.is_none or s.const in (1, -1)):
            return n
        if s is not None and not s.is_none and s.const != 1:
            return vterm(fresh("slen", False), lo=0, isint=True)
        # exact when the bounds are provably inside [0, n]
        def norm(x, default):
            if x is None or x.is_none:
                return default
            if x.hi < 0 and n.term is not None and x.term is not None:
                return add(n.term, x.term)      # negative: from the end
            if x.lo >= 0:
                return x.term
            if x.term is not None:
                lo, hi = bounds(x.term)
                if hi < 0:
                    return add(n.term, x.term)
            return None
        ta, tb = norm(a, ZERO), norm(b, n.term)
        if ta is None or tb is None or n.term is None:
            return vterm(fresh("slen", False), lo=0, isint=True)
        # assumed in range (min(stop, n) - start); recorded as such
        t = sub(tb, ta)
        exact = (b is None or b.is_none or b.hi < 0) or const(t) is not None
        if not exact and not T.provably_nonneg(sub(n.term, tb)):
            t = sub(T.min_(tb, n.term), ta)
        lo, hi = bounds(t)
        return V(term=t, lo=max(0, lo), hi=hi, unit=DIMLESS, isint=True, deps=n.deps)

    def cell_key(self, l, comps, st):
        """(base loc, key) of a single cell through views"""
        o = st.heap.get(l)
        if not isinstance(o, Arr):
            return None, None
        if o.view is not None:
            return None, None
        ct = self.comp_terms(comps, st, o.ndim)
        if ct is None or any(is_slice(t) or (single_atom(t) is not None and single_atom(t).op == "fancy") for t in ct):
            return l, None
        return l, tuple(ct)

    def compose(self, view, ct):
        """region ct of a view, in terms of the base"""
        out, k = [], 0
        for x in view:
            if is_slice(x):
                y = ct[k] if k < len(ct) else FULL
                k += 1
                s = single_atom(x).args
                if s[2] is not NONET:
                    return None
                if is_slice(y):
                    z = single_atom(y).args
                    if z[2] is not NONET:
                        return None
                    if z[0] is NONET and z[1] is NONET:
                        out.append(x)
                    elif s[0] is NONET and s[1] is NONET:
                        out.append(y)
                    elif z[1] is NONET and z[0] is not NONET and s[0] is not NONET:
                        out.append(mk_slice(add(s[0], z[0]), s[1] if s[1] is not NONET else None))
                    elif z[1] is NONET:
                        out.append(mk_slice(z[0], s[1] if s[1] is not NONET else None))
                    else:
                        b0 = s[0] if s[0] is not NONET else ZERO
                        out.append(mk_slice(add(b0, z[0]) if z[0] is not NONET else (s[0] if s[0] is not NONET else None), add(b0, z[1])))
                else:
                    out.append(y if s[0] is NONET else add(s[0], y))
            elif single_atom(x) is not None and single_atom(x).op == "fancy":
                return None
            else:
                out.append(x)
        return tuple(out)

    def write_array(self, st, l, comps, value, node, how="store"):
        """store `value` into region `comps` (None: everything) of the array at l, through views"""
        o = st.heap.get(l)
        if not isinstance(o, Arr):
            return
        mask = None
        a = self.arr(l, st)
        vv, vc0, vshape, isarr, vdt = self.operand(value, st)
        ideps = EMPTY
        if comps is None:
            ct = (FULL,) * a.ndim if a.ndim is not None else None
        else:
            mask = self.mask_of(comps, st, a)
            ct = None if mask is not None else self.comp_terms(comps, st, a.ndim)
            for c in comps:
                for x in c[1:]:
                    if isinstance(x, V):
                        ideps |= x.deps
                        for ll in x.locs():
                            if isinstance(st.heap.get(ll), Arr):
                                ideps |= self.arr(ll, st).v.deps
        # resolve to the base array
        base, cur = l, o
        region = ct
        flip = False
        while cur.view is not None:
            if isinstance(cur.view[1], tuple) and region is not None:
                region = self.compose(cur.view[1], region)
            elif cur.view[1] == "T" and region is not None and len(region) == 2:
                region = (region[1], region[0])
                flip = not flip
            else:
                region = None
            base = cur.view[0]
            cur = st.heap.get(base)
            if not isinstance(cur, Arr):
                return
        b = cur
        if flip and vv.term is not None and region is not None and all(is_slice(x) for x in region) and has_arr(vv.term):
            vv = vv.but(term=self.T_term(vv.term, 2))
        deps = vv.deps | ideps | st.ctl
        old = None
        if region is not None and not any(is_slice(t) for t in region):
            old = select_term(b.v.term, region) if b.v.term is not None else None
        self.emit("arrstore", node, st, loc=base, via=l, region=region, comps=comps, value=vv, col0=vc0, mask=mask,
                  old=old, vshape=vshape, how=how, isarr=isarr, bterm=b.v.term)
        summary = base.summary or l.summary
        if self.opts.get("tab") and base is l and comps is not None and not summary and b.v.term is not None and b.shape is not None:
            x = tabular.put(self, b, comps, value, st, node)
            if x is not None:
                r = tabular.arr_of(x, b.v.deps | deps)
                st.heap[base] = b.but(v=r.v.but(unit=b.v.unit), col0=None, cells={}, origin=None)
                return
        if mask is not None:
            mt = mask.v.term
            deps |= mask.v.deps
            av = self.join_v(b.v, b.col0, amb) if b.col0 is not None else b.v
            if base is l and mt is not None and av.term is not None and vv.term is not None:
                t = ite(mt, vv.term, b.v.term)
                self.reg(t, b.ndim)
                if const(mt) == 0:
                    return
                lo, hi = bounds(t)
                nv = self.join_v(av, vv, lambda x, y, k: t)
                nanfree = single_atom(mt) is not None and single_atom(mt).op == "isnan" and single_atom(mt).args[0] is b.v.term
                nv = nv.but(term=t, lo=max(nv.lo, lo), hi=min(nv.hi, hi), deps=nv.deps | deps, lt=None,
                            nan=False if nanfree and not vv.nan else nv.nan)
                # facet refinement: what the mask leaves untouched lies on the other side of the bound
                at = single_atom(mt)
                if at is not None and at.op == "neg?":
                    for sgn, u in ((1, sub(at.args[0], b.v.term)), (-1, add(at.args[0], b.v.term))):
                        if not has_arr(u):
                            if sgn == 1:       # mask: a + u < 0  -> kept a >= -u
                                bl = -bounds(u)[1]
                                nv.lo = max(nv.lo, min(bl, vv.lo))
                            else:              # mask: u - a < 0 -> kept a <= u
                                bh = bounds(u)[1]
                                nv.hi = min(nv.hi, max(bh, vv.hi))
            else:
                t = aatom("maskstore", (b.v.term if b.v.term is not None else NONET, mt if mt is not None else NONET,
                                        vv.term if vv.term is not None else NONET), b.ndim)
                nv = self.join_v(av, vv, lambda x, y, k: t).but(term=t)
                nv = nv.but(deps=nv.deps | deps, lt=None)
            st.heap[base] = b.but(v=nv, col0=None, cells={})
            return
        if region is None:
            t = aatom("storeany", (b.v.term if b.v.term is not None else NONET, fresh("w", False)), b.ndim)
            nv = self.join_v(self.join_v(b.v, b.col0, amb), vv, lambda x, y, k: t)
            nv = nv.but(term=t, deps=nv.deps | deps, lt=None)
            st.heap[base] = b.but(v=nv, col0=None, cells={})
            return
        full = all(x is FULL for x in region)
        if full and not summary:
            if vv.term is not None and not has_arr(vv.term) and (b.ndim or 0) >= 1:
                t = ZERO if const(vv.term) == 0 else vv.term
                if const(vv.term) == 0:
                    t = aatom("zeros", tuple(x.term for x in b.shape) if b.shape and all(x.term is not None for x in b.shape) else (NONET,),
                              b.ndim, 0, 0)
                else:
                    t = aatom("full", (vv.term,) + (tuple(x.term for x in b.shape) if b.shape and all(
                        x.term is not None for x in b.shape) else (NONET,)), b.ndim, *bounds(vv.term))
            else:
                t = vv.term
            nv = vv.but(term=t, deps=deps, lt=None, const=None, refs=EMPTY)
            st.heap[base] = b.but(v=nv, col0=vc0.but(term=t, deps=vc0.deps | deps) if vc0 is not None else None, cells={}, origin=None)
            return
        t = store_term(b.v.term, region, vv.term if vv.term is not None else NONET) if b.v.term is not None else None
        if summary and t is not None:
            t = aatom("weak", (t, b.v.term), b.ndim)
        c0t, rt = self.touches(region, b.ndim)
        tj = lambda x, y, k: t if t is not None else amb(x, y)
        nv, nc0 = b.v, b.col0
        if rt:
            nv = self.join_v(b.v, vv, tj)
            nv = nv.but(deps=nv.deps | deps)
        if b.ndim == 2 and (not (c0t and rt) or b.col0 is not None or vc0 is not None):
            old0 = b.col0 if b.col0 is not None else b.v
            if c0t:
                w = vc0 if vc0 is not None else vv
                nc0 = self.join_v(old0, w, tj)
                nc0 = nc0.but(deps=nc0.deps | deps)
            else:
                nc0 = old0
        nv = nv.but(term=t, lt=None, const=None, refs=EMPTY)
        if nc0 is not None:
            nc0 = nc0.but(term=t, lt=None, const=None, refs=EMPTY)
        cells = {}
        for k, cv in b.cells.items():
            from interp import idx_rel
            if len(k) == len(region) and any(idx_rel(x, y) == "disjoint" for x, y in zip(k, region)):
                cells[k] = cv
        if not any(is_slice(x) or (single_atom(x) is not None and single_atom(x).op == "fancy") for x in region) and not summary:
            cells[tuple(region)] = vv.with_deps(deps)
        st.heap[base] = b.but(v=nv, col0=nc0, cells=cells, origin=None)
        if self.opts.get("tab"):
            st.heap[base] = tabular.settle(st.heap[base])

    def to_arr(self, v, st, node=None, dtype=None):
        """Arr object (not allocated) for a list/number/array value"""
        ls = v.locs()
        if len(ls) > 1 and all(isinstance(st.heap.get(l), (Arr, Lst, Rng)) for l in ls):
            a = None
            for l in ls:
                b = self.to_arr(V(refs=frozenset([l]), deps=v.deps), st, node, dtype)
                a = b if a is None else self.join_obj(a, b, amb, "to_arr")
            return a
        for l in ls:
            o = st.heap.get(l)
            if isinstance(o, Arr):
                return self.arr(l, st).but(view=None)
            if isinstance(o, Rng):
                e, ln = self.rng_elem(o, sym("beta0", 0, INF, True)), self.rng_len(o)
                t = aatom("range", (o.start.term, o.stop.term, o.step.term), 1, e.lo, e.hi, True)
                return Arr(V(term=t, lo=e.lo, hi=e.hi, unit=e.unit, deps=e.deps, isint=True), (ln,), None, dtype or "i")
            if isinstance(o, Lst):
                ex = o.elems
                if ex is not None and len(ex) and all(any(isinstance(st.heap.get(x), (Lst, Arr)) for x in e.locs()) for e in ex):
                    subs = [self.to_arr(e, st) for e in ex]
                    a = subs[0]
                    for s_ in subs[1:]:
                        a = self.join_obj(a, s_, amb, "stack")
                    sh = (vnum(len(ex)),) + a.shape if a.shape is not None else None
                    if len(subs) == 1 and a.v.term is not None:
                        t = aatom("stack1", (a.v.term,), (a.ndim or 0) + 1)
                    else:
                        t = aatom("stack", tuple(s_.v.term if s_.v.term is not None else NONET for s_ in subs), (a.ndim or 0) + 1)
                    return Arr(a.v.but(term=t, lt=None), sh, None, dtype)
                el = self.lst_elem(o)
                if el is None:
                    return Arr(V(term=aatom("vec", ((),), 1)), (vnum(0),), None, dtype)
                if any(isinstance(st.heap.get(x), (Lst, Arr)) for x in el.locs()):
                    s_ = self.to_arr(el, st)
                    t = aatom("stackn", (s_.v.term if s_.v.term is not None else NONET,), (s_.ndim or 0) + 1)
                    return Arr(s_.v.but(term=t, lt=None), (o.length,) + s_.shape if s_.shape is not None else None, None, dtype)
                if o.term is not None:
                    t = o.term
                elif ex is not None and all(e.term is not None for e in ex):
                    t = ex[0].term if len(ex) == 1 and has_arr(ex[0].term) else aatom("vec", (tuple(e.term for e in ex),), 1, el.lo, el.hi, el.isint)
                elif el.term is not None and has_arr(el.term):
                    t = el.term
                else:
                    t = aatom("lst", (el.term if el.term is not None else fresh("l", False),), 1, el.lo, el.hi, el.isint)
                return Arr(el.but(term=t, lt=None, const=None), (o.length,), None, dtype)
        if v.refs - {NONE}:
            return Arr(top("arr", v.deps), None)
        return Arr(v.but(lt=None), (), None, dtype)

    # ------------------------------------------------------------ sequences
    def lst_elem(self, o):
        if o.elems is None:
            return o.elem
        e = None
        for x in o.elems:
            e = self.join_v(e, x, amb)
        return e

    def any_elem(self, v, st):
        r = None
        for l in v.locs():
            o = st.heap.get(l)
            if isinstance(o, Lst):
                r = self.join_v(r, self.lst_elem(o), amb)
            elif isinstance(o, Dct):
                for x in list(o.items.values()) + ([o.elem] if o.elem is not None else []):
                    r = self.join_v(r, x, amb)
            elif isinstance(o, Arr):
                a = self.arr(l, st)
                r = self.join_v(r, self.join_v(a.v, a.col0, amb), amb)
            elif isinstance(o, Rng):
                r = self.join_v(r, self.rng_elem(o, fresh("ri", False)), amb)
            elif isinstance(o, Inst) and "data" in o.attrs:
                r = self.join_v(r, self.any_elem(o.attrs["data"], st), amb)
        return r

    def rng_len(self, o):
        if o.length is not None:
            return o.length
        if o.step.const == 1:
            t = sub(o.stop.term, o.start.term)
            return V(term=t, lo=max(0, bounds(t)[0]), hi=bounds(t)[1], unit=DIMLESS, deps=o.start.deps | o.stop.deps, isint=True)
        if o.step.const == -1:
            t = sub(o.start.term, o.stop.term)
            return V(term=t, lo=max(0, bounds(t)[0]), hi=bounds(t)[1], unit=DIMLESS, deps=o.start.deps | o.stop.deps, isint=True)
        if all(isinstance(x.const, int) for x in (o.start, o.stop, o.step)) and o.step.const:
            return vnum(len(range(o.start.const, o.stop.const, o.step.const))).but(deps=o.start.deps | o.stop.deps)
        t = of_atom(atom("rlen", (o.start.term, o.stop.term, o.step.term), 0, INF, True))
        return vterm(t, lo=0, isint=True, unit=DIMLESS, deps=o.start.deps | o.stop.deps | o.step.deps)

    def rng_elem(self, o, idxt):
        deps = o.start.deps | o.stop.deps | o.step.deps
        t = add(o.start.term, mul(idxt, o.step.term))
        if o.step.lo > 0:
            lo, hi = o.start.lo, (o.stop.hi - 1)
        elif o.step.hi < 0:
            lo, hi = o.stop.lo + 1, o.start.hi
        else:
            lo, hi = min(o.start.lo, o.stop.lo), max(o.start.hi, o.stop.hi)
        bl, bh = bounds(t)
        if lo > hi:
            lo, hi = bl, bh
        return V(term=t, lo=max(lo, bl), hi=min(hi, bh), unit=DIMLESS, deps=deps, isint=True)

    def length(self, v, st):
        r = None
        for l in v.locs():
            o = st.heap.get(l)
            n = None
            if isinstance(o, Lst):
                n = o.length
            elif isinstance(o, Arr):
                a = self.arr(l, st)
                n = a.shape[0] if a.shape else vterm(fresh("len", False), lo=0, isint=True, unit=DIMLESS)
            elif isinstance(o, Rng):
                n = self.rng_len(o)
            elif isinstance(o, Dct):
                n = vnum(len(o.items)) if o.elem is None else vterm(fresh("len", False), lo=0, isint=True, unit=DIMLESS)
            elif isinstance(o, Inst) and "data" in o.attrs:
                n = self.length(o.attrs["data"], st)
            elif isinstance(o, Opq):
                n = vterm(app("len", o.term), isint=True, unit=DIMLESS)
            elif isinstance(o, Zip):
                for p in o.parts:
                    if isinstance(p, V):
                        n = self.length(p, st)
                        break
            if n is None:
                n = vterm(fresh("len", False), lo=0, isint=True, unit=DIMLESS)
            r = self.join_v(r, n.with_deps(v.deps), amb)
        if r is None:
            if isinstance(v.const, str):
                return vnum(len(v.const))
            return vterm(app("len", v.term) if v.term is not None and not v.unk else fresh("len"), lo=0, isint=True, unit=DIMLESS, deps=v.deps, unk=v.unk)
        return r

    def iter_exact(self, v, st):
        ls = v.locs()
        if len(ls) == 1 and len(v.refs) == 1 and not v.unk:
            o = st.heap.get(ls[0])
            if isinstance(o, Lst) and o.elems is not None and not ls[0].summary:
                return list(o.elems)
            if isinstance(o, Inst) and "data" in o.attrs and not ls[0].summary and self.userlist(o):
                return self.iter_exact(o.attrs["data"], st)
            if isinstance(o, Rng) and not ls[0].summary:
                c = [T.const(x.term) if x is not None and x.term is not None else None for x in (o.start, o.stop, o.step)]
                if o.step is None:
                    c[2] = 1
                if None not in c and c[2] != 0:
                    r = range(int(c[0]), int(c[1]), int(c[2]))
                    if len(r) <= (64 if self.opts.get("tab") else max(8, self.opts.get("unroll", 0))):
                        return [vnum(i) for i in r]
            if isinstance(o, Arr) and self.opts.get("exact") and not ls[0].summary:
                o = self.arr(ls[0], st)
                n = const(o.shape[0].term) if o.shape is not None and len(o.shape) == 1 and o.shape[0].term is not None and o.v.term is not None else None
                if n is not None and 0 <= n <= (64 if self.opts.get("tab") else 8) and not o.cells:
                    out = [select_term(o.v.term, (num(i),)) for i in range(int(n))]
                    if not any(has_arr(x) and arr_ndim(x) for x in out):
                        return [relet(o.v.but(term=x, const=None, lt=None)) for x in out]
                return None
            if isinstance(o, Zip):
                cols = []
                n = None
                for p in o.parts:
                    if isinstance(p, V):
                        e = self.iter_exact(p, st)
                        if e is None:
                            return None
                        n = len(e) if n is None else min(n, len(e))
                        cols.append(e)
                    else:
                        cols.append(p)
                if n is None:
                    return None
                out = []
                for i in range(n):
                    row = []
                    for c in cols:
                        if isinstance(c, tuple):
                            row.append(self.num_op(ast.Add(), c[1], vnum(i), None, st))
                        else:
                            row.append(c[i])
                    loc = self.alloc(st, None, Lst(tuple(row), kind="tuple"), ("zip", i, ls[0]))
                    out.append(vref(loc))
                return out
        return None

    def userlist(self, o):
        return isinstance(o.cls, Class) and any("UserList" in str(b) for b in o.cls.ext_bases())

    def iter_elem(self, itv, idxt, st, node):
        """(element value at iteration idxt, length, nonempty)"""
        r, ln = None, None
        for ref in itv.refs:
            e = n = None
            o = st.heap.get(ref) if isinstance(ref, Loc) else None
            if isinstance(o, Rng):
                e, n = self.rng_elem(o, idxt), self.rng_len(o)
                if o.elem is not None:
                    e = o.elem
            elif isinstance(o, Lst):
                e = self.lst_elem(o)
                n = o.length
                if e is None:
                    continue
                if o.term is not None and e.term is not None and not e.refs:
                    t = select_term(o.term, (idxt,))
                    e = e.but(term=t, lt=None, const=None)
                elif o.elems is not None and len(o.elems) > 1 and e.term is not None and not e.refs:
                    e = e.but(term=select_term(aatom("vec", (tuple(x.term for x in o.elems),), 1, e.lo, e.hi), (idxt,)), const=None, lt=None)
            elif isinstance(o, Arr):
                v = self.load_array(ref, [("i", vterm(idxt, isint=True, unit=DIMLESS))], st, node)
                e = v
                a = self.arr(ref, st)
                n = a.shape[0] if a.shape else None
            elif isinstance(o, Dct):
                e = V(term=fresh("key", False))
                n = self.length(vref(ref), st)
            elif isinstance(o, Zip):
                row = []
                for p in o.parts:
                    if isinstance(p, V):
                        x, m, _ = self.iter_elem(p, idxt, st, node)
                        if x is None:
                            return None, None, False
                        row.append(x)
                        if n is None or (m is not None and n is None):
                            n = m
                    else:
                        row.append(self.num_op(ast.Add(), p[1], vterm(idxt, isint=True, unit=DIMLESS), node, st))
                e = vref(self.alloc(st, node, Lst(tuple(row), kind="tuple"), "zip"))
            elif isinstance(o, Inst) and "data" in o.attrs and self.userlist(o):
                e, n, _ = self.iter_elem(o.attrs["data"], idxt, st, node)
                if e is None:
                    continue
            elif isinstance(o, Opq):
                e = self.opaque(app("item", o.term, idxt), st, node, itv.deps)
                n = vterm(app("len", o.term), isint=True, unit=DIMLESS, deps=itv.deps)
            elif ref is NONE:
                continue
            else:
                e = top("iter", itv.deps)
            if e is not None:
                r = self.join_v(r, e, amb)
                if n is not None:
                    ln = n if ln is None else self.join_v(ln, n, amb)
        if r is None:
            if itv.refs and all((isinstance(st.heap.get(l), Lst) and self.lst_elem(st.heap[l]) is None) for l in itv.locs()) and itv.locs():
                return None, None, False
            if not itv.refs:
                r = top("iter", itv.deps) if not isinstance(itv.const, str) else V(term=fresh("chr", False))
            else:
                return None, None, False
        r = r.with_deps(itv.deps)
        return relet(r), ln, False

    def opaque(self, term, st, node, deps=EMPTY, cls=None):
        return V(term=term, deps=deps)

    # ------------------------------------------------------------ lists
    def list_append(self, st, l, v, node, how="append"):
        o = st.heap.get(l)
        self.emit("mutate", node, st, loc=l, how=how, value=v)
        if not isinstance(o, Lst):
            return
        v = v.with_deps(st.ctl)
        if o.elems is not None and not l.summary and how == "append" and not self.in_loop(st, l) and len(o.elems) < 24:
            st.heap[l] = o.but(elems=o.elems + (v,), length=vnum(len(o.elems) + 1), term=None)
        else:
            e = self.join_v(self.lst_elem(o), v, amb)
            ln = self.num_op(ast.Add(), o.length, vnum(1), node, st)
            st.heap[l] = o.but(elems=None, elem=e, length=ln, term=None)

    def in_loop(self, st, l):
        """appends inside a loop would never stabilise an exact list"""
        return bool(self.loopstack)

    def list_extend(self, st, l, v, node):
        o = st.heap.get(l)
        ex = self.iter_exact(v, st)
        if isinstance(o, Lst) and o.elems is not None and ex is not None and not l.summary and not self.loopstack:
            self.emit("mutate", node, st, loc=l, how="extend", value=v)
            st.heap[l] = o.but(elems=o.elems + tuple(ex), length=vnum(len(o.elems) + len(ex)), term=None)
            return
        self.emit("mutate", node, st, loc=l, how="extend", value=v)
        if isinstance(o, Lst):
            e = self.join_v(self.lst_elem(o), self.any_elem(v, st), amb)
            ln = self.num_op(ast.Add(), o.length, self.length(v, st), node, st)
            st.heap[l] = o.but(elems=None, elem=e, length=ln, term=None)

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, elt, st, mod, cls, kind):
        st.frames.append(dict(st.env))
        res = {"filtered": False}
        try:
            return self._comp(e, elt, st, mod, cls, kind)
        finally:
            st.frames.pop()

    def _comp(self, e, elt, st, mod, cls, kind):
        gens = e.generators
        # exact, small sequences
        itv = self.ev(gens[0].iter, st, mod, cls)
        out = []
        saved = self.ctx

        def each(gi, iv):
            ex = self.iter_exact(iv, st)
            if ex is None or len(ex) > 6 or (gens[gi].ifs and not self.opts.get("exact")):
                return False
            here = self.ctx
            for k, x in enumerate(ex):
                self.ctx = here + (("comp", id(e), gi, k) if gi else ("comp", id(e), k),)
                self.assign(gens[gi].target, x, st, e, mod, cls)
                keep = True
                for c in gens[gi].ifs:
                    keep = self.truth(self.ev(c, st, mod, cls), st)[1]
                    if not keep:
                        break
                if keep is None:
                    return False
                if not keep:
                    continue
                if gi + 1 == len(gens):
                    out.append(self.ev(elt, st, mod, cls))
                elif not each(gi + 1, self.ev(gens[gi + 1].iter, st, mod, cls)):
                    return False
            self.ctx = here
            return True
        done = each(0, itv)
        self.ctx = saved
        if done:
            return self.new_list(out, st, e, kind)
        # summary: a loop whose body evaluates the element
        ln, filtered, deps = None, False, EMPTY
        idxs = []
        cur = st
        keys = []
        lid = (self.ctxkey(), id(e))
        for gi, g in enumerate(gens):
            iv = itv if (gi == 0 and itv is not None) else self.ev(g.iter, st, mod, cls)
            uid = self.loops.setdefault((lid, gi), len(self.loops))
            ia = atom("idx", (uid,), 0, INF, True)
            idxs.append(ia)
            keys.append(self.iter_key(iv, st))
            ev_, n, _ = self.iter_elem(iv, of_atom(ia), st, e)
            if ev_ is None:
                return self.new_list([], st, e, kind)
            if n is not None and n.term is not None:
                T.SYMBOUNDS[ia.id] = (ZERO, sub(n.term, ONE))
            deps |= iv.deps
            if n is not None:
                ln = n if ln is None else self.num_op(ast.Mult(), ln, n, e, st)
                deps |= n.deps
            self.loopstack.append(uid)
            self.assign(g.target, ev_, st, e, mod, cls)
            for c in g.ifs:
                filtered = True
                t, f = self.branch(c, st, mod, cls)
                if t is None:
                    for _ in range(gi + 1):
                        self.loopstack.pop()
                    return self.new_list([], st, e, kind)
                tp = st.path
                path, facts, ctl = st.path, st.facts, st.ctl
                st.become(t)
        base = (st.path, st.facts, st.ctl)
        v = self.ev(elt, st, mod, cls)
        for _ in gens:
            self.loopstack.pop()
        t = None
        if v.term is not None and not v.refs and len(gens) == 1:
            k, body = self.abstract_idx(v.term, idxs[0])
            dep_idx = body is not v.term
            if not filtered and not dep_idx and has_arr(v.term):
                t = v.term
            elif keys[0] is not None:
                t = aatom("filter" if filtered else "map", (keys[0], body, "beta%d" % k), 1, v.lo, v.hi, v.isint)
        # restore control state
        st.path = st.path[: len(st.path)]
        if filtered or ln is None:
            ln = vterm(fresh("flen", False) if t is None else app("len", t), lo=0, isint=True, unit=DIMLESS, deps=deps | v.deps)
        v = v.with_deps(deps).but(lt=None)
        return vref(self.alloc(st, e, Lst(None, v, ln.with_deps(deps), kind, t)), deps=EMPTY)

    def e_ListComp(self, e, st, mod, cls):
        p, f, c = st.path, st.facts, st.ctl
        r = self.comp(e, e.elt, st, mod, cls, "list")
        st.path, st.facts, st.ctl = p, f, c
        return r

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st, mod, cls):
        p, f, c = st.path, st.facts, st.ctl
        r = self.comp(e, e.value, st, mod, cls, "list")
        st.path, st.facts, st.ctl = p, f, c
        el = self.any_elem(r, st)
        return vref(self.alloc(st, e, Dct({}, el), "dict"))

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e, st, mod, cls):
        b = self.ev(e.value, st, mod, cls)
        return relet(self.getattr(b, e.attr, st, e, mod, cls))

    def getattr(self, b, name, st, node, mod, cls):
        r = None
        refs = list(b.refs)
        if not refs:
            if b.unk:
                return top("attr", b.deps)
            if isinstance(b.const, str) or (b.term is not None and b.lo == -INF and b.hi == INF and not b.isint and b.unit is None):
                # string or opaque object
                if isinstance(b.const, str):
                    return vref(BoundRef(name, b))
                return V(refs=frozenset([BoundRef(name, b)]), term=app("attr", b.term, name), deps=b.deps)
            return vref(BoundRef(name, b))       # numeric scalar
        live = 0
        for ref in refs:
            if ref is NONE:
                if len(refs) == 1:
                    self.emit("attrerror", node, st, cls="None", name=name)
                    raise Dead()
                continue
            try:
                v = self.getattr1(ref, name, b, st, node, mod, cls)
            except Dead:
                continue
            live += 1
            r = v if r is None else self.join_v(r, v, amb)
        if r is None:
            raise Dead()
        if b.unk:
            r = r.but(unk=True)
        return r.with_deps(b.deps) if r.refs or r.term is not None else r

    def getattr1(self, ref, name, b, st, node, mod, cls):
        if isinstance(ref, Loc):
            o = st.heap.get(ref)
            sv = V(refs=frozenset([ref]), deps=b.deps)
            if isinstance(o, Inst):
                mem = None
                if isinstance(o.cls, Class):
                    mem, owner = o.cls.find(name)
                    if mem is not None and mem[0] == "property":
                        if mem[1] is None:
                            self.emit("attrerror", node, st, cls=o.cls.name, name=name)
                            raise Dead()
                        return self.call_fn(mem[1], [sv], {}, st, node)
                if name in o.attrs:
                    return o.attrs[name]
                if name == "__class__":
                    return vref(ClassRef(o.cls)) if isinstance(o.cls, Class) else top("cls")
                if name == "__dict__":
                    return top("__dict__", b.deps)
                if mem is not None:
                    if mem[0] in ("method", "decorated"):
                        return vref(BoundRef(mem[1], sv))
                    if mem[0] == "classmethod":
                        return vref(BoundRef(mem[1], vref(ClassRef(o.cls))))
                    if mem[0] == "staticmethod":
                        return vref(mem[1])
                    if mem[0] == "attr":
                        return mem[1]
                if isinstance(o.cls, Class):
                    ga, _ = o.cls.find("__getattr__")
                    if ga is not None:
                        return top("__getattr__", b.deps)
                    ext = [x for x in o.cls.ext_bases() if x not in ("builtins.object", "object", "abc.ABC", "builtins.Exception")]
                    if not ext and not o.open and not name.startswith("__"):
                        self.emit("attrerror", node, st, cls=o.cls.name, name=name)
                        raise Dead()
                    if ext and self.userlist(o):
                        return vref(BoundRef("list." + name, sv))
                return V(term=app("attr", fresh("inst", False), name), deps=b.deps) if o.open else top("attr:" + name, b.deps)
            if isinstance(o, Arr):
                return models.arr_attr(self, ref, o, name, sv, st, node)
            if isinstance(o, Rng):
                if name in ("start", "stop", "step"):
                    return getattr(o, name)
                return vref(BoundRef(name, sv))
            if isinstance(o, Opq):
                return V(refs=frozenset([BoundRef(name, sv)]), term=app("attr", o.term, name), deps=b.deps)
            return vref(BoundRef(name, sv))
        if isinstance(ref, ModRef):
            g = self.globals.get(ref.mod.name, {})
            if name in g:
                return self.late(g[name])
            full = ref.mod.name + "." + name
            if full in self.mods:
                return self.resolve_module(full)
            self.emit("attrerror", node, st, cls="module " + ref.mod.name, name=name)
            raise Dead()
        if isinstance(ref, ExtRef):
            return models.ext_attr(self, ref, name)
        if isinstance(ref, ClassRef):
            if name == "__name__":
                return vstr(ref.cls.name)
            mem, owner = ref.cls.find(name)
            if mem is None:
                if name == "__new__" or name.startswith("__"):
                    return vref(ExtRef("builtins.object." + name))
                if ref.cls.ext_bases() and any(x not in ("builtins.object", "object") for x in ref.cls.ext_bases()):
                    return top("clsattr")
                self.emit("attrerror", node, st, cls=ref.cls.name, name=name)
                raise Dead()
            if mem[0] in ("method", "decorated", "staticmethod"):
                return vref(mem[1])
            if mem[0] == "classmethod":
                return vref(BoundRef(mem[1], vref(ref)))
            if mem[0] == "attr":
                return mem[1]
            return top("property")
        if isinstance(ref, SuperRef):
            sl = ref.selfv
            for l in sl.refs:
                o = st.heap.get(l) if isinstance(l, Loc) else None
                c = o.cls if isinstance(o, Inst) else (l.cls if isinstance(l, ClassRef) else None)
                if isinstance(c, Class):
                    mem, owner = c.find(name, after=ref.cls)
                    if mem is None:
                        if any(x not in ("builtins.object", "object") for x in c.ext_bases()) or name.startswith("__"):
                            return vref(ExtRef("super." + name))
                        self.emit("attrerror", node, st, cls="super of " + ref.cls.name, name=name)
                        raise Dead()
                    if mem[0] == "property":
                        return self.call_fn(mem[1], [sl], {}, st, node)
                    if mem[0] == "attr":
                        return mem[1]
                    if mem[0] == "staticmethod":
                        return vref(mem[1])
                    return vref(BoundRef(mem[1], sl))
            return top("super")
        if isinstance(ref, FuncRef):
            if name in ("__name__", "__qualname__", "__doc__"):
                return vstr(ref.name)
            return top("fnattr")
        if isinstance(ref, BoundRef):
            if isinstance(ref.func, str):
                t = b.term
                return V(refs=frozenset([BoundRef(ref.func + "." + name, ref.selfv)]),
                         term=app("attr", t, name) if t is not None else None, deps=b.deps)
            return top("boundattr")
        return top("attr")

    def setattr(self, b, name, v, st, node, mod, cls):
        locs = [r for r in b.refs]
        if not locs:
            self.emit("attrstore", node, st, loc=None, attr=name, value=v)
            return
        strong = len(locs) == 1 and isinstance(locs[0], Loc) and not locs[0].summary
        for ref in locs:
            if isinstance(ref, Loc):
                o = st.heap.get(ref)
                if isinstance(o, Inst):
                    if isinstance(o.cls, Class):
                        mem, owner = o.cls.find(name)
                        if mem is not None and mem[0] == "property":
                            if mem[2] is None:
                                self.emit("attrerror", node, st, cls=o.cls.name, name=name + " (read-only)")
                                raise Dead()
                            self.call_fn(mem[2], [V(refs=frozenset([ref]), deps=b.deps), v], {}, st, node)
                            continue
                    self.emit("attrstore", node, st, loc=ref, attr=name, value=v, old=o.attrs.get(name))
                    o = st.heap.get(ref)
                    nv = v.with_deps(st.ctl | b.deps)
                    if not strong and name in o.attrs:
                        nv = self.join_v(o.attrs[name], nv, amb)
                    n = dict(o.attrs)
                    n[name] = relet(nv)
                    st.heap[ref] = o.but(attrs=n)
                elif isinstance(o, Arr):
                    self.emit("attrstore", node, st, loc=ref, attr=name, value=v, old=None)
                    if name == "shape":
                        st.heap[ref] = o.but(shape=None)
                else:
                    self.emit("attrstore", node, st, loc=ref, attr=name, value=v, old=None)
            elif isinstance(ref, ClassRef):
                self.emit("globalstore", node, st, what="class attribute %s.%s" % (ref.cls.name, name), value=v)
            elif isinstance(ref, ModRef):
                self.emit("globalstore", node, st, what="module attribute %s.%s" % (ref.mod.name, name), value=v)
            elif isinstance(ref, (ExtRef, FuncRef, BoundRef)):
                self.emit("globalstore", node, st, what="attribute %s of %r" % (name, ref), value=v)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node, mod, cls):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, node, mod)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node, mod, cls)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, mod, cls)
            self.setattr(b, t.attr, v, st, node, mod, cls)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, mod, cls)
            idx = self.ev_index(t.slice, st, mod, cls)
            self.store_subscript(b, idx, v, st, node, mod, cls)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node, mod, cls)

    def assign_name(self, name, v, st, node, mod):
        if ("__global__:" + name) in st.env:
            self.emit("globalstore", node, st, what="global %s.%s" % (mod.name, name), value=v)
            return
        if ("__nonlocal__:" + name) in st.env:
            self.emit("nonlocalstore", node, st, name=name, value=v)
            el = st.env.get("__env__")
            if el is not None:
                for l in el.refs:
                    o = st.heap.get(l)
                    if isinstance(o, Env):
                        n = dict(o.vars)
                        n[name] = self.join_v(n.get(name), v, amb)
                        st.heap[l] = Env(n)
            return
        types = st.env.get("__types__")
        if types is not None and name in types.const:
            v = self.coerce(v, types.const[name], st, node)
        st.env[name] = relet(v.with_deps(st.ctl))

    def coerce(self, v, ct, st, node):
        """assignment to a declared C variable"""
        if ct is not None and ct.ptr and not ct.ndim:
            from frontend import sizeof
            z = sizeof(ct.base)
            for l in v.locs():
                o = st.heap.get(l)
                if z and isinstance(o, Arr) and o.origin == "bytes":
                    b = o.shape[0].term
                    st.heap[l] = o.but(shape=(vterm(T.mul(b, T.num(Fraction(1, z))), unit=DIMLESS, isint=True),), origin=None)
        if ct is None or ct.ptr:
            return v
        if ct.ndim:
            # memoryview: shares memory with an array
            return v
        if v.refs or v.term is None:
            return v
        if ct.is_int and not v.isint and not v.isbool:
            if v.unk:
                return v
            return V(term=app("trunc", v.term), lo=math.floor(v.lo) if v.lo not in (INF, -INF) else v.lo,
                     hi=math.ceil(v.hi) if v.hi not in (INF, -INF) else v.hi, unit=v.unit, deps=v.deps, isint=True)
        if ct.is_float:
            if "32" in (ct.base or "") or ct.base == "float":
                return v.but(term=app("f32", v.term), isint=False, isbool=False, lt=None)
            if v.isint or v.isbool:
                return v.but(isint=False, isbool=False, const=float(v.const) if isinstance(v.const, (int, bool)) else v.const)
        if ct.is_int and ("8" in ct.base or ct.base == "char") and (v.hi > 255 or v.lo < -128):
            return V(term=app("wrap8", v.term), lo=-128, hi=255, unit=v.unit, deps=v.deps, isint=True)
        return v

    def unpack(self, t, v, st, node, mod, cls):
        n = len(t.elts)
        ex = self.iter_exact(v, st)
        if ex is not None and len(ex) == n and not any(isinstance(x, ast.Starred) for x in t.elts):
            for x, y in zip(t.elts, ex):
                self.assign(x, y.with_deps(v.deps), st, node, mod, cls)
            return
        if ex is not None and not any(isinstance(x, ast.Starred) for x in t.elts):
            self.emit("arity", node, st, what="unpacking %d values into %d names" % (len(ex), n))
            raise Dead()
        # shape tuples of several lists
        ls = v.locs()
        exs = [self.iter_exact(V(refs=frozenset([l])), st) for l in ls]
        if ls and all(x is not None and len(x) == n for x in exs) and len(ls) == len(v.refs):
            for i, x in enumerate(t.elts):
                r = None
                for e in exs:
                    r = self.join_v(r, e[i], amb)
                self.assign(x, r, st, node, mod, cls)
            return
        for i, x in enumerate(t.elts):
            if isinstance(x, ast.Starred):
                self.assign(x.value, top("star", v.deps), st, node, mod, cls)
                continue
            e = None
            if v.locs():
                try:
                    e = self.subscript(v, [("i", vnum(i))], st, node, mod, cls)
                except Dead:
                    e = None
            if e is None:
                e = V(term=app("item", v.term, num(i)), deps=v.deps, unk=v.unk) if v.term is not None and not v.unk else top("unpack", v.deps)
            self.assign(x, e, st, node, mod, cls)

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, e, st, mod, cls):
        b = self.ev(e.value, st, mod, cls)
        idx = self.ev_index(e.slice, st, mod, cls)
        return relet(self.subscript(b, idx, st, e, mod, cls))

    def subscript(self, b, comps, st, node, mod, cls):
        if self.opts.get("on_index"):
            self.opts["on_index"](self, b, comps, st, node, "load")
        r = None
        if not b.refs:
            if b.unk or b.term is None:
                return top("sub", b.deps)
            ct = self.comp_terms(comps, st, None)
            if ct is None:
                return top("sub", b.deps)
            d = b.deps
            for c in comps:
                for x in c[1:]:
                    if isinstance(x, V):
                        d |= x.deps
            return V(term=app("item", b.term, *ct), deps=d)
        alts = sorted(b.refs, key=lambda x: (str(x), id(x))) if len(b.refs) > 1 else b.refs
        for k, ref in enumerate(alts):
            v = None
            if isinstance(ref, Loc):
                o = st.heap.get(ref)
                if isinstance(o, Arr):
                    outer, self.altk = self.altk, self.altk + ("|%d" % k if k else "")
                    v = self.load_array(ref, self.norm_comps(ref, comps, st), st, node, b.deps)
                    self.altk = outer
                elif isinstance(o, Lst):
                    v = self.load_list(ref, o, comps, st, node)
                elif isinstance(o, Dct):
                    k = comps[0][1] if comps and comps[0][0] == "i" else None
                    if k is not None and k.const is not None and k.const in o.items:
                        v = o.items[k.const]
                    else:
                        for x in list(o.items.values()) + ([o.elem] if o.elem is not None else []):
                            v = self.join_v(v, x, amb)
                        if v is None:
                            v = top("dict")
                elif isinstance(o, Rng):
                    v = self.load_rng(o, comps, st, node)
                elif isinstance(o, Inst):
                    mem = o.cls.find("__getitem__")[0] if isinstance(o.cls, Class) else None
                    if mem is not None:
                        v = self.call_fn(mem[1], [V(refs=frozenset([ref])), self.idx_value(comps, st, node)], {}, st, node)
                    elif "data" in o.attrs and self.userlist(o):
                        v = self.subscript(o.attrs["data"], comps, st, node, mod, cls)
                    else:
                        v = top("getitem", b.deps)
                elif isinstance(o, Opq):
                    ct = self.comp_terms(comps, st, None)
                    v = V(term=app("item", o.term, *ct), deps=b.deps) if ct is not None else top("item", b.deps)
            elif isinstance(ref, BoundRef) and b.term is not None:
                ct = self.comp_terms(comps, st, None)
                v = V(term=app("item", b.term, *ct), deps=b.deps) if ct is not None else top("item", b.deps)
            if v is None:
                if ref is NONE:
                    continue
                v = top("sub", b.deps)
            r = v if r is None else self.join_v(r, v, amb)
        if r is None:
            raise Dead()
        d = b.deps
        for c in comps:
            for x in c[1:]:
                if isinstance(x, V):
                    d |= x.deps
        return r.with_deps(d)

    def idx_value(self, comps, st, node):
        if len(comps) == 1 and comps[0][0] == "i":
            return comps[0][1]
        return top("idx")

    def slice_rng(self, o, c, st, node):
        parts = list(c[1:4]) + [None] * 3
        if c[0] == "s" and o.step.const == 1:
            a, b, k = [None if x is None or x.is_none else x for x in parts[:3]]
            if (k is None or k.const == 1) and all(x is None or (x.const is not None and not x.refs) for x in (a, b)):
                def move(e, x):
                    return self.num_op(ast.Add(), e, x, node, st)
                s, e = o.start, o.stop
                if a is not None and a.const:
                    s = move(o.start, a) if a.const > 0 else self.pick("max", o.start, move(o.stop, a))
                if b is not None:
                    e = move(o.stop, b) if b.const < 0 else self.pick("min", o.stop, move(o.start, b))
                return Rng(s, e, o.step)
        if c[0] == "s" and all(x is None or x.is_none for x in parts[:3]):
            return o
        u = [V(term=fresh("?rsl"), isint=True, unit=o.start.unit, deps=o.start.deps) for _ in range(2)]
        return Rng(u[0], u[1], o.step)

    def pick(self, op, x, y):
        t = T.max_(x.term, y.term) if op == "max" else T.min_(x.term, y.term)
        lo, hi = bounds(t)
        return V(term=t, lo=lo, hi=hi, isint=True, unit=x.unit, deps=x.deps | y.deps)

    def load_rng(self, o, comps, st, node):
        c = comps[0]
        if c[0] != "i":
            return vref(self.alloc(st, node, self.slice_rng(o, c, st, node)))
        i = c[1]
        if i.refs:
            return top("ridx")
        deps = o.start.deps | o.stop.deps | i.deps
        if i.const == -1 and o.step.const == 1:
            r = self.num_op(ast.Sub(), o.stop, vnum(1), node, st)
            return r.with_deps(deps)
        if i.lo < 0 and i.const is not None and o.step.const == 1:
            return self.num_op(ast.Add(), o.stop, i, node, st).with_deps(deps)
        if isinstance(i.const, int) and all(isinstance(x.const, int) for x in (o.start, o.stop, o.step)) and o.step.const:
            r = range(o.start.const, o.stop.const, o.step.const)
            if not -len(r) <= i.const < len(r):
                self.emit("indexerror", node, st, what="range of %d indexed by %d" % (len(r), i.const))
                raise Dead()
            return vnum(r[i.const]).with_deps(deps)
        if i.hi < 0 and i.term is not None:
            i = self.num_op(ast.Add(), i, self.rng_len(o), node, st)
        if i.term is None:
            return top("ridx", deps)
        e = self.rng_elem(o, i.term)
        return e.with_deps(deps)

    def load_list(self, ref, o, comps, st, node):
        c = comps[0] if comps else None
        if c is None:
            return top("lidx")
        if c[0] == "i":
            i = c[1]
            if o.elems is not None and isinstance(i.const, int) and not ref.summary:
                if -len(o.elems) <= i.const < len(o.elems):
                    v = o.elems[i.const]
                    if len(comps) > 1:
                        return self.subscript(v, comps[1:], st, node, None, None)
                    return v
                self.emit("indexerror", node, st, what="list of %d indexed by %s" % (len(o.elems), i.const))
                raise Dead()
            e = self.lst_elem(o)
            if e is None:
                self.emit("indexerror", node, st, what="empty list indexed")
                raise Dead()
            if e.term is not None and not e.refs and i.term is not None:
                if o.term is not None:
                    t = select_term(o.term, (i.term,))
                    e = e.but(term=t, lt=None, const=None)
                elif o.elems is not None and len(o.elems) > 1:
                    e = e.but(term=select_term(aatom("vec", (tuple(x.term for x in o.elems),), 1, e.lo, e.hi), (i.term,)), lt=None, const=None)
            e = e.with_deps(i.deps)
            if len(comps) > 1:
                return self.subscript(e, comps[1:], st, node, None, None)
            return e
        if c[0] == "s":
            if o.elems is not None and all(x is None or x.is_none or isinstance(x.const, int) for x in c[1:]):
                k = [None if x is None or x.is_none else x.const for x in c[1:]]
                return self.new_list(list(o.elems[slice(*k)]), st, node, o.kind)
            return vref(self.alloc(st, node, Lst(None, self.lst_elem(o), vterm(fresh("len", False), lo=0, isint=True, unit=DIMLESS), o.kind)))
        return top("lidx")

    def store_subscript(self, b, comps, v, st, node, mod, cls):
        if self.opts.get("on_index"):
            self.opts["on_index"](self, b, comps, st, node, "store")
        if not b.refs:
            self.emit("unkstore", node, st, target=b, value=v)
        for ref in b.refs:
            if not isinstance(ref, Loc):
                continue
            o = st.heap.get(ref)
            if isinstance(o, Arr):
                self.write_array(st, ref, self.norm_comps(ref, comps, st), v, node)
            elif isinstance(o, Lst):
                self.emit("mutate", node, st, loc=ref, how="setitem", value=v)
                i = comps[0][1] if comps and comps[0][0] == "i" else None
                if o.elems is not None and i is not None and isinstance(i.const, int) and not ref.summary and len(b.refs) == 1 and \
                        -len(o.elems) <= i.const < len(o.elems):
                    n = list(o.elems)
                    n[i.const] = v.with_deps(st.ctl)
                    st.heap[ref] = o.but(elems=tuple(n), term=None)
                elif i is None:
                    e = self.join_v(self.lst_elem(o), self.any_elem(v, st), amb)
                    st.heap[ref] = o.but(elems=None, elem=e, term=None)
                else:
                    e = self.join_v(self.lst_elem(o), v.with_deps(st.ctl | i.deps), amb)
                    st.heap[ref] = o.but(elems=None, elem=e, term=None)
            elif isinstance(o, Dct):
                self.emit("mutate", node, st, loc=ref, how="setitem", value=v)
                k = comps[0][1] if comps and comps[0][0] == "i" else None
                if k is not None and k.const is not None and not ref.summary and len(b.refs) == 1:
                    n = dict(o.items)
                    n[k.const] = v.with_deps(st.ctl)
                    st.heap[ref] = o.but(items=n)
                else:
                    st.heap[ref] = o.but(elem=self.join_v(o.elem, v.with_deps(st.ctl), amb))
            elif isinstance(o, Inst):
                mem = o.cls.find("__setitem__")[0] if isinstance(o.cls, Class) else None
                if mem is not None:
                    self.call_fn(mem[1], [V(refs=frozenset([ref])), self.idx_value(comps, st, node), v], {}, st, node)
                elif "data" in o.attrs and self.userlist(o):
                    self.store_subscript(o.attrs["data"], comps, v, st, node, mod, cls)
            else:
                self.emit("mutate", node, st, loc=ref, how="setitem", value=v)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, mod, cls):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super":
            if not e.args:
                selfv = None
                for n in ("self", "cls"):
                    selfv = st.env.get(n)
                    if selfv is not None:
                        break
                if selfv is None:
                    return top("super")
                return vref(SuperRef(cls, selfv))
            c = self.ev(e.args[0], st, mod, cls)
            s_ = self.ev(e.args[1], st, mod, cls) if len(e.args) > 1 else top("super")
            for r in c.refs:
                if isinstance(r, ClassRef):
                    return vref(SuperRef(r.cls, s_))
            return top("super")
        if isinstance(f, ast.Name) and f.id in ("__unknown_expr__", "__unknown_stmt__"):
            return top("cython")
        if isinstance(f, ast.Name) and f.id == "__cast__":
            v = self.ev(e.args[0], st, mod, cls)
            ct = getattr(e, "_ctype", None)
            return self.coerce(v, ct, st, e) if ct is not None else v
        if isinstance(f, ast.Name) and f.id == "__sizeof__":
            if getattr(e, "_size", None):
                return vnum(e._size)
            return vterm(sym("sizeof", 1, 64, True), unit=DIMLESS, isint=True)
        fv = self.ev(f, st, mod, cls)
        args, kwargs, unkn = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, mod, cls)
                ex = self.iter_exact(v, st)
                if ex is None:
                    unkn = True
                    args.append(("star", v))
                else:
                    args += ex
            else:
                args.append(self.ev(a, st, mod, cls))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st, mod, cls)
                ok = False
                for l in v.locs():
                    o = st.heap.get(l)
                    if isinstance(o, Dct) and o.elem is None and all(isinstance(x, str) for x in o.items):
                        for kk, vv in o.items.items():
                            kwargs[kk] = vv
                        ok = True
                if not ok:
                    unkn = True
            else:
                kwargs[k.arg] = self.ev(k.value, st, mod, cls)
        if unkn:
            args = [a for a in args if isinstance(a, V)]
            kwargs["**"] = top("kwargs")
        return self.call(fv, args, kwargs, st, e, mod, cls)

    def call(self, fv, args, kwargs, st, node, mod, cls):
        refs = [r for r in fv.refs if r is not NONE]
        if not refs:
            d = EMPTY
            for a in list(args) + list(kwargs.values()):
                d |= a.deps
            if fv.term is not None and not fv.unk:
                return self.opaque_call(fv, args, kwargs, st, node)
            self.unknown_calls["?"] = self.unknown_calls.get("?", 0) + 1
            return top("call", d | fv.deps)
        if len(refs) == 1:
            return relet(self.call1(refs[0], fv, args, kwargs, st, node, mod, cls))
        res = []
        for i, r in enumerate(refs):
            s2 = st.copy()
            saved = self.ctx
            try:
                v = self.call1(r, fv, args, kwargs, s2, node, mod, cls)
                s2.env["__poly__"] = v
                s2.path = st.path + ((of_atom(atom("truthy", (sym("dispatch:%s:%d" % (id(node), i)),), 0, 1, True, True)), True, EMPTY),)
                res.append(s2)
            except Dead:
                pass
            self.ctx = saved
        if not res:
            raise Dead()
        m = self.merge(res)
        v = m.env.pop("__poly__")
        m.path = st.path
        st.become(m)
        return relet(v)

    def opaque_call(self, fv, args, kwargs, st, node):
        d = fv.deps
        ts = []
        for a in list(args) + [kwargs[k] for k in sorted(kwargs)]:
            d |= a.deps
            if a.locs():
                o = st.heap.get(a.locs()[0])
                if isinstance(o, Arr):
                    ar = self.arr(a.locs()[0], st)
                    d |= ar.v.deps
                    ts.append(ar.v.term if ar.v.term is not None else NONET)
                    continue
            ts.append(a.term if a.term is not None else NONET)
        self.emit("opaquecall", node, st, fn=fv.term, args=args, kwargs=kwargs)
        return V(term=app("call", fv.term, *ts), deps=d)

    def call1(self, r, fv, args, kwargs, st, node, mod, cls):
        if isinstance(r, FuncRef):
            return self.call_fn(r, args, kwargs, st, node)
        if isinstance(r, BoundRef):
            if isinstance(r.func, FuncRef):
                return self.call_fn(r.func, [r.selfv] + list(args), kwargs, st, node)
            return models.method(self, r, fv, args, kwargs, st, node)
        if isinstance(r, ClassRef):
            return self.construct(r.cls, args, kwargs, st, node)
        if isinstance(r, ExtRef):
            return models.ext_call(self, r.name, args, kwargs, st, node, mod, cls)
        if isinstance(r, Loc):
            o = st.heap.get(r)
            if isinstance(o, Inst) and isinstance(o.cls, Class):
                mem, _ = o.cls.find("__call__")
                if mem is not None:
                    return self.call_fn(mem[1], [V(refs=frozenset([r]))] + list(args), kwargs, st, node)
            if isinstance(o, Opq):
                return self.opaque_call(V(term=o.term, deps=fv.deps), args, kwargs, st, node)
            self.emit("attrerror", node, st, cls=type(o).__name__, name="__call__ (object is not callable)")
            return top("call")
        d = EMPTY
        for a in list(args) + list(kwargs.values()):
            d |= a.deps
        return top("call", d)

    def construct(self, c, args, kwargs, st, node):
        loc = self.alloc(st, node, Inst(c, {}), "new:" + c.name)
        self.emit("new", node, st, cls=c, loc=loc)
        init, owner = c.find("__init__")
        sv = vref(loc)
        if init is not None:
            self.call_fn(init[1], [sv] + list(args), kwargs, st, node)
        elif any("UserList" in str(b) for b in c.ext_bases()):
            o = st.heap[loc]
            st.heap[loc] = o.but(attrs={"data": args[0] if args else self.new_list([], st, node)})
        elif any("Exception" in str(b) or "Error" in str(b) for b in c.ext_bases()):
            pass
        elif args or kwargs:
            if not any(x not in ("builtins.object", "object") for x in c.ext_bases()):
                self.emit("arity", node, st, what="%s() takes no arguments" % c.name)
        return sv

    def bind(self, f, args, kwargs, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ds, kd = f.node._defaults.get(f.env) or next(iter(f.node._defaults.values()), ([], []))
        env = {}
        unknown = kwargs.pop("**", None) if "**" in kwargs else None
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if extra:
            if a.vararg is None:
                self.emit("arity", node, st, what="%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)), fn=f.qual)
                raise Dead()
        if a.vararg is not None:
            env[a.vararg.arg] = self.new_list(list(extra), st, f.node, "tuple", "varargs")
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    self.emit("arity", node, st, what="%s() got multiple values for argument '%s'" % (f.name, k), fn=f.qual)
                    raise Dead()
                env[k] = v
            else:
                rest[k] = v
        if rest:
            if a.kwarg is None:
                self.emit("arity", node, st, what="%s() got an unexpected keyword argument '%s'" % (f.name, sorted(rest)[0]), fn=f.qual)
                raise Dead()
        if a.kwarg is not None:
            env[a.kwarg.arg] = vref(self.alloc(st, f.node, Dct(rest, unknown), "kwargs"))
        nd = len(ds)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[n] = ds[j]
                elif unknown is not None:
                    env[n] = top("kwarg")
                else:
                    self.emit("arity", node, st, what="%s() missing a required argument: '%s'" % (f.name, n), fn=f.qual)
                    raise Dead()
            elif unknown is not None and False:
                pass
        for x, d in zip(a.kwonlyargs, kd):
            if x.arg not in env:
                if d is not None:
                    env[x.arg] = d
                else:
                    self.emit("arity", node, st, what="%s() missing a required keyword argument: '%s'" % (f.name, x.arg), fn=f.qual)
                    raise Dead()
        return env

    def call_fn(self, f, args, kwargs, st, node):
        self.nfun.add((f.mod.path, f.qual))
        self.calls_resolved += 1
        if len(self.stack) > 50 or sum(1 for s in self.callnodes if s is f.node) >= 2:
            self.emit("recursion", node, st, fn=f.qual)
            return top("rec")
        env = self.bind(f, args, kwargs, st, node)
        cut = self.cuts.get(f.name) or self.cuts.get(f.qual)
        self.emit("call", node, st, fn=f, args=env)
        if cut is not None:
            r = cut(self, f, env, st, node)
            if r is not NotImplemented:
                self.emit("callret", node, st, fn=f, args=env, result=r)
                return r
        cy = getattr(f.node, "_cy", None)
        fr = {}
        for k, v in env.items():
            if cy and k in cy["types"]:
                v = self.coerce(v, cy["types"][k], st, node)
            fr[k] = relet(v.with_deps(st.ctl)) if not v.refs else v
        if cy and cy["types"]:
            fr["__types__"] = V(const=cy["types"])
        if f.env is not None:
            fr["__env__"] = V(refs=frozenset([f.env]))
        st.frames.append(fr)
        saved_ctx, ctl0, path0 = self.ctx, st.ctl, st.path
        self.ctx = self.ctx + (id(node) if node is not None else 0, f.name)
        self.stack.append((f.mod.path, f.qual))
        self.callnodes.append(f.node)
        depth = len(st.frames)
        savedloops = self.loopstack
        try:
            out = self.block(self.fn_body(f), st, f.mod, f.cls)
        finally:
            self.stack.pop()
            self.callnodes.pop()
            self.ctx = saved_ctx
        ends = []
        for s_, n in out.ret:
            ends.append(s_)
        if out.normal is not None:
            out.normal.env["__ret__"] = VNONE
            ends.append(out.normal)
        for s_ in ends:
            s_.frames = s_.frames[:depth]
            # only the result survives of the callee's frame
            s_.frames[-1] = {"__ret__": s_.frames[-1].get("__ret__", VNONE)}
        self.last_returns = [(s_.copy() if s_ is st or len(ends) == 1 else s_, n) for s_, n in zip(ends, [n for _, n in out.ret] + [None])]
        if not ends:
            st.frames = st.frames[: depth - 1]
            raise Dead()
        m = ends[0] if len(ends) == 1 else self.merge(ends)
        v = m.frames[-1]["__ret__"]
        m.frames = m.frames[: depth - 1]
        m.ctl = ctl0
        if len(ends) > 1:
            m.path = m.path if len(m.path) >= len(path0) else path0
        if cy and cy.get("ret") is not None and not v.is_none:
            v = self.coerce(v, cy["ret"], m, node)
        st.become(m)
        self.emit("callret", node, st, fn=f, args=env, result=v)
        return relet(v)

    # ------------------------------------------------------------ path splitting
    def fn_body(self, f):
        """body of a function; for the functions named in opts["split"] the statements after a branch are analysed
        once per branch (path-sensitive) instead of after a join"""
        if f.name not in self.opts.get("split", ()):
            return f.node.body
        b = getattr(f.node, "_split", None)
        if b is None:
            b = split_stmts(f.node.body)
            if leaves(b) > 64:
                b = f.node.body
            f.node._split = b
        return b

    # ------------------------------------------------------------ misc
    def isinstance_ref(self, r, c, st):
        """True/False/None: is the object at r an instance of (one of) the classes in c"""
        cs = []
        for x in c.refs:
            if isinstance(x, Loc) and isinstance(st.heap.get(x), Lst):
                for y in st.heap[x].elems or ():
                    cs += list(y.refs)
            else:
                cs.append(x)
        if not cs or c.unk:
            return None
        o = st.heap.get(r) if isinstance(r, Loc) else None
        res = False
        for k in cs:
            if isinstance(k, ClassRef):
                if isinstance(o, Inst) and isinstance(o.cls, Class):
                    if o.cls.is_sub(k.cls):
                        return True
                elif isinstance(o, Opq):
                    res = None
            elif isinstance(k, ExtRef):
                n = k.name
                if n in ("builtins.list", "builtins.tuple", "builtins.set"):
                    if isinstance(o, Lst) and o.kind == n.split(".")[1]:
                        return True
                    if isinstance(o, Opq):
                        res = None
                elif n == "builtins.dict":
                    if isinstance(o, Dct):
                        return True
                elif n == "builtins.range":
                    if isinstance(o, Rng):
                        return True
                elif n.endswith("ndarray"):
                    if isinstance(o, Arr):
                        return True
                elif n.endswith("Frame") or n.endswith("frames.Frame"):
                    if isinstance(o, Arr) and o.cls in ("Frame", "SubFrame"):
                        return True
                elif n.endswith("UserList"):
                    if isinstance(o, Inst) and self.userlist(o):
                        return True
                elif n in ("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "numbers.Number",
                           "numbers.Integral", "numpy.integer", "numpy.floating"):
                    if isinstance(o, Opq):
                        res = None
                elif n == "builtins.object":
                    return True
                else:
                    res = None
            else:
                res = None
        return res
