"""Compiled code stays inside its arrays, and releases what it allocates exactly once."""
from tm import *
import whole as Wh
from whole import whole, here

WK = "the clocking kernel"


def run(mods, rep):
    rep.level = "other"
    jobs = [(allocation, (mods,))]
    for name, kw in configs(rep.tier == "thorough"):
        jobs.append((kernel, (mods, name, kw)))
    top = 4 if rep.tier == "thorough" else 3
    for cls, kind in MANAGERS:
        for S in (1, 2):
            for K in range(0, top):
                for spare in (1, 2, 3, 4):
                    for step in ("n_electrons_released_and_captured", "n_electrons_released", "n_electrons_captured"):
                        if K + spare < 2 or cls == "TrapManager" and (S > 1 or K > 1 or spare > 3):
                            continue
                        if step != "n_electrons_released_and_captured" and (cls == "TrapManager" or S > 1):
                            continue
                        jobs.append((manager, (mods, cls, kind, S, K, K + spare, step)))
    for R in range(1, top + 3):
        for S in (1, 2):
            jobs.append((helpers, (mods, R, S)))
    rep.parallel(jobs)


# ---------------------------------------------------------------- the kernel, on images of a few pixels
def configs(thorough):
    out = []

    def c(**kw):
        out.append((", ".join("%s %s" % (k, v) for k, v in kw.items()) or "plain", kw))
    for rows in (1, 2, 4):
        c(rows=rows)
    for steps, phases in ((1, 1), (2, 2), (3, 3), (4, 4)):
        for away in (False, True):
            c(rows=3, steps=steps, phases=phases, away=away, dtype="float")
    for win in ((0, 1), (1, 3), (2, 4), (3, 4), (0, 4)):
        c(rows=4, window=win, steps=3, phases=3)
        c(rows=4, window=win, columns=(1, 2), serial=True, express=1, offset=2)
    for ex in (1, 2, 3):
        for off in (0, 1, 3):
            for first in (False, True):
                c(rows=4, express=ex, offset=off, first=first, dtype="int" if ex != 2 else "float")
    for t in ((0, 2), (1, 3), (0, 6), (5, 6)):
        c(rows=4, time=t, express=2, offset=1)
    for tr in (None, 3, 7):
        for act in (None, 2):
            c(kind="ROEChargeInjection", rows=3, transfers=tr, active=act, express=2)
            c(kind="ROEChargeInjection", rows=4, transfers=tr, active=act, window=(1, 3))
    for p in (1, 2, 5):
        c(kind="ROETrapPumping", rows=4, window=(2, 3), pumps=p)
        c(kind="ROETrapPumping", rows=1, pumps=p, express=2, first=True)
    c(rows=3, columns=(0, 1))
    c(rows=3, dwell=(1, 0, 1), steps=3, phases=3)
    if thorough:
        for rows in (5, 6, 8):
            for steps in (1, 3, 5):
                for ex in (0, 2, 4):
                    for first in (False, True):
                        c(rows=rows, steps=steps, phases=steps, express=ex, offset=2, first=first)
    return out


def kernel(rep, mods, name, kw):
    try:
        w = whole(mods, **kw)
    except (Missing, Dead, KeyError, TypeError) as e:
        rep.undecided("kernel", name, repr(e))
        return
    rep.covered(w.h.ip)
    n = 0
    bad = unk = None
    for e in w.events:
        if e.kind == "indexerror" and ".pyx" in e.where:
            bad = bad or (e.where, e.data["what"])
    for mode, l, k, i, ext, path, where, d, refs in w.access:
        n += 1
        x, m = number(i), number(ext)
        if x is None and not isinstance(i.const, int) and i.locs():
            continue
        if x is None or m is None:
            unk = unk or (where, "%s of %s" % (i.term, ext.term))
            continue
        low = -m if d.get("wraparound", True) else 0
        if not low <= x < m and refs == 1 and not undetermined(path):
            bad = bad or (where, "%s index %s of an extent of %s, axis %d" % (mode, x, m, k))
        elif not low <= x < m:
            unk = unk or (where, "index %s of an extent of %s" % (x, m))
        elif x < 0 and k == 0 and mode == "store" and not undetermined(path):
            # moved past the first row: only the rows added to the image may take it
            real = w.rows_in
            if l in w.padded and x < -(m - real):
                bad = bad or (where, "row %s of %s rows with %s rows added lies in the image" % (x, m, m - real))
    if bad:
        rep.violation("kernel", "every access lies inside its array: " + name, bad[0], bad[1])
    elif unk:
        rep.undecided("kernel", name, "%s: %s" % unk)
    elif w.died is not None or not n:
        rep.undecided("kernel", name, "the run does not end normally (%s)" % w.died if w.died is not None else "no access seen")
    else:
        rep.ok("kernel", "every access lies inside its array: %s (%d accesses)" % (name, n), WK)


def number(v):
    if isinstance(v.const, bool):
        return int(v.const)
    c = T.const(v.term) if v.term is not None else None
    return int(c) if c is not None and c == int(c) else None


def undetermined(path):
    return any(T.const(c[0]) is None for c in path)


# ---------------------------------------------------------------- the managers' compiled helpers
def watch(acc):
    def on_index(ip, b, comps, st, node, mode):
        cy = getattr(ip.callnodes[-1], "_cy", None) if ip.callnodes else None
        if cy is None:
            return
        for l in b.locs():
            o = st.heap.get(l)
            if isinstance(o, Arr):
                a = ip.arr(l, st)
                for k, (c, n) in enumerate(zip(comps, a.shape or ())):
                    if c[0] == "i":
                        acc.append((mode, k, c[1], n, st.path, here(ip, node), cy["directives"], len(b.refs)))
    return on_index


def settle(rep, rule, what, where, acc, definite=True):
    """every access in bounds, from what is known where it happens"""
    bad = unk = None
    n = 0
    for mode, k, i, ext, path, wh, d, refs in acc:
        n += 1
        x, m = number(i), number(ext)
        wrap = d.get("wraparound", True)
        if x is not None and m is not None:
            if -m <= x < m if wrap else 0 <= x < m:
                continue
            if not undetermined(path) and refs == 1:
                bad = bad or (wh, "%s index %s of an extent of %s" % (mode, x, m))
                continue
        if i.term is None or ext.term is None or i.unk:
            unk = unk or (wh, "index not followed")
            continue
        s = Wh.span(i.term)
        if s is None:
            unk = unk or (wh, "index %s" % i.term)
            continue
        low = T.neg(ext.term) if wrap else ZERO
        if inside(path, s[0], s[1], low, ext.term):
            continue
        v = escape(s, low, ext.term, path) if refs == 1 else None
        if v is not None and definite:
            bad = bad or (wh, "%s index %s of an extent of %s" % ((mode,) + v))
        else:
            unk = unk or (wh, "index %s, extent %s" % (str(i.term)[:150], ext.term))
    if bad:
        rep.violation(rule, what, bad[0], bad[1])
    elif unk:
        rep.undecided(rule, what, "%s: %s" % unk)
    else:
        rep.ok(rule, "%s (%d accesses)" % (what, n), where)


def inside(path, a, b, low, ext):
    """low <= a and b < ext wherever the path conditions hold: by ranges, otherwise case by case over the comparisons that the index
    and the path depend on, leaving out the cases that cannot be"""
    goals = [sub(a, low), sub(sub(ext, b), ONE)]
    goals = [t for t in goals if T.bounds(t)[0] < 0]
    if not goals:
        return True
    budget = [1500]
    return all(holds([(c[0], bool(c[1])) for c in path], g, {}, budget) for g in goals)


def booleans(t):
    return [x for x in T.atoms_of(t) if x.op in ("neg?", "zero?", "isnan") or x.isbool and x.op == "sym"]


def holds(path, goal, facts, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return False
    rest = []
    for c, pol in path:
        k = T.const(c)
        if k is None:
            rest.append((c, pol))
        elif (k != 0) != pol:
            return True             # the case is excluded
    if facts and impossible(facts):
        return True
    if T.bounds(goal)[0] >= 0:
        return True
    # innermost comparison first, those of the path before those of the index
    for t in [c for c, _ in rest] + [goal]:
        bs = booleans(t)
        inner = [x for x in bs if not any(y.id != x.id for z in x.args if isinstance(z, T.Term) for y in booleans(z))]
        if inner:
            x = inner[0]
            break
    else:
        return False
    for bit in (0, 1):
        mp = {x.id: num(bit)}
        f = {k: v for k, v in facts.items()}
        f[x.id] = bit
        if not holds([(T.subst(c, mp), pol) for c, pol in rest], T.subst(goal, mp), f, budget):
            return False
    return True


def impossible(s):
    neg, pos, zero, nonzero = [], [], [], []
    for i, b in s.items():
        a = T._BYID[i]
        if a.op == "neg?":
            (neg if b else pos).append(a.args[0])
        elif a.op == "zero?" and b:
            zero.append(a.args[0])
        elif a.op == "zero?":
            nonzero.append(a.args[0])
    # d < 0 although d >= 0 everywhere; d >= 0 although d < 0 everywhere
    if any(T.bounds(d)[0] >= 0 or T.provably_nonneg(d) for d in neg) or any(T.bounds(d)[1] < 0 for d in pos):
        return True
    for z in zero:
        lo, hi = T.bounds(z)
        if lo > 0 or hi < 0:
            return True
    if any(T.bounds(z) == (0, 0) for z in nonzero):
        return True
    # d < 0 and e >= 0 with d - e >= 0 everywhere
    for d in neg:
        for e in pos + zero + [T.neg(z) for z in zero]:
            x = sub(d, e)
            if T.bounds(x)[0] >= 0 or T.provably_nonneg(x):
                return True
        for e in neg:
            x = add(d, e)
            if T.bounds(x)[0] >= 0 or T.provably_nonneg(x):
                return True
    return False


def escape(s, low, ext, path, n=150):
    """numbers for which the path is taken and the index lies outside"""
    if any(opaque(t) for t in (s[0], s[1], ext)) or any(opaque(c[0]) for c in path):
        return None
    for k in range(n):
        v = T.Valuation(k)
        try:
            if any((v.term(c[0]) >= 0.5) != c[1] for c in path):
                continue
            a, b, l, e = v.term(s[0]), v.term(s[1]), v.term(low), v.term(ext)
        except (RecursionError, ArithmeticError):
            return None
        if any(isinstance(x, complex) or math.isnan(x) for x in (a, b, l, e)) or b < a:
            continue
        if b >= e - 1e-7:
            return "%g" % b, "%g" % e
        if a < l - 1e-7:
            return "%g" % a, "%g" % e
    return None


def manager(rep, mods, cls, kind, S, K, R, step):
    what = "%s.%s, %d species, %d levels, room for %d" % (cls, step, S, K, R)
    where = "arcticpy/trap_managers.py: %s.%s" % (cls, step)
    acc = []
    try:
        m = Small(mods, cls, kind, S)
        h = m.h
        h.ip.opts["on_index"] = watch(acc)
        h.set(m.tm, "watermarks", m.put_levels(m.levels(K), R))
        law(h, m)
        kw = {}
        if step != "n_electrons_captured":
            kw["dwell_time"] = h.sym("dwell", 0, unit=TIME)
        if step != "n_electrons_released":
            kw["n_free_electrons"] = h.sym("n_free", 0, unit=CHARGE)
            kw["ccd_filling_function"] = filling(h, mk_ccd(h))
            kw["express_multiplier"] = vnum(1)
        h.meth(m.tm, step, **kw)
    except (Missing, Dead, KeyError, TypeError, RecursionError) as e:
        rep.undecided("managers", what, repr(e))
        return
    rep.covered(h.ip)
    if not acc:
        rep.undecided("managers", what, "no access seen")
        return
    settle(rep, "managers", what, where, acc)


def law(h, m):
    if not m.track:
        return
    mk = lambda tag, lo, hi: lambda ip, f, env, st, node: V(term=T.of_atom(T.atom("sym", ("%s at %s" % (tag, list(env.values())[1].term),), lo, hi)), lo=lo, hi=hi)
    h.ip.cuts["fill_fraction_from_time_elapsed"] = mk("occupation", 0, 1)
    h.ip.cuts["time_elapsed_from_fill_fraction"] = mk("time", 0, INF)


HELPERS = {
    "cy_value_in_cumsum": lambda m, R, S: [[m.h.sym("value", 0, 1), vec(m, R)]],
    "cy_n_trapped_electrons_from_watermarks": lambda m, R, S: [[st(m, R), vec(m, S)]],
    "cy_watermark_index_above_cloud_from_cloud_fractional_volume": lambda m, R, S: [[m.h.sym("fraction", 0, 1), st(m, R), vnum(k)] for k in range(-1, R)],
    "cy_update_watermark_volumes_for_cloud_below_highest": lambda m, R, S: [[st(m, R), m.h.sym("fraction", 0, 1), vnum(k)] for k in range(0, R - 1)],
}


def vec(m, n):
    t = aatom("asym", ("vector%d_" % n,), 1, 0, 1)
    return m.h.put(Arr(V(term=t, lo=0, hi=1), (vnum(n),), None, "f"))


def st(m, R):
    return m.put_levels(m.levels(R), R)


def helpers(rep, mods, R, S):
    """each compiled helper of the managers, for every state size and every level it may be asked about"""
    for name, args in HELPERS.items():
        what = "%s, %d levels, %d species" % (name, R, S)
        try:
            m = Small(mods, "TrapManager", "Trap", S)
            if m.h.fn(name) is None:
                continue
            acc = []
            m.h.ip.opts["on_index"] = watch(acc)
            for a in args(m, R, S):
                m.h.call(name, *a)
        except (Missing, Dead, KeyError, TypeError, RecursionError) as e:
            rep.undecided("helpers", what, repr(e))
            continue
        rep.covered(m.h.ip)
        if acc:
            settle(rep, "helpers", what, "arcticpy/trap_managers_utils.pyx: %s" % name, acc)


# ---------------------------------------------------------------- allocation
ALLOC = {"malloc", "calloc"}


def is_call(e, names):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in names


def strip(e):
    while is_call(e, {"__cast__"}):
        e = e.args[0]
    return e


class Escapes(Exception):
    pass


def allocation(rep, mods):
    """typestate of every allocation in the compiled modules: allocated, then released once, on every way out, and not used afterwards"""
    n = 0
    for mod in mods.values():
        if not mod.cython:
            continue
        for f in ast.walk(mod.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            vs = {t.id for a in ast.walk(f) if isinstance(a, ast.Assign) and is_call(strip(a.value), ALLOC) for t in a.targets if isinstance(t, ast.Name)}
            loose = [a for a in ast.walk(f) if isinstance(a, (ast.Return, ast.Expr)) and a.value is not None and any(is_call(x, ALLOC) for x in ast.walk(a.value))]
            where = "%s:%s in %s" % (mod.path, f.lineno, f.name)
            for v in sorted(vs):
                n += 1
                problems = []
                try:
                    out = flow(f.body, v, {"none"}, problems)
                    if "live" in out["fall"] | out["exit"]:
                        problems.append((f.lineno, "is not released on some way out of the function"))
                except Escapes:
                    rep.undecided("allocation", "%s of %s" % (v, f.name), "the pointer is handed on")
                    continue
                if problems:
                    rep.violation("allocation", "the memory of %s in %s is released once, on every way out, and not used afterwards" % (v, f.name),
                                  "%s:%s in %s" % (mod.path, problems[0][0], f.name), problems[0][1])
                else:
                    rep.ok("allocation", "the memory of %s in %s is released once, on every way out, and not used afterwards" % (v, f.name), where)
            for a in loose:
                rep.undecided("allocation", "memory allocated in %s" % f.name, "not held in a variable")
    if not n:
        rep.ok("allocation", "no memory is allocated by hand", "compiled modules")


def uses(e, v):
    return any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(e))


def null_test(e, v):
    """+1: the test holds when v is NULL; -1: when it is not; 0: not such a test"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return -null_test(e.operand, v)
    if isinstance(e, ast.Name) and e.id == v:
        return -1
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = e.left, e.comparators[0]
        if uses(b, v):
            a, b = b, a
        if isinstance(a, ast.Name) and a.id == v and (isinstance(b, ast.Name) and b.id == "NULL" or isinstance(b, ast.Constant) and b.value in (None, 0) or "NULL" in ast.dump(b)):
            return 1 if isinstance(e.ops[0], (ast.Eq, ast.Is)) else -1
    return 0


def flow(body, v, state, problems):
    """states on falling through, on leaving the function, on break/continue"""
    res = {"fall": set(state), "exit": set(), "jump": set()}
    for s in body:
        cur = res["fall"]
        if not cur:
            break
        if isinstance(s, ast.Assign) and is_call(strip(s.value), ALLOC) and any(isinstance(t, ast.Name) and t.id == v for t in s.targets):
            if "live" in cur:
                problems.append((s.lineno, "is allocated again before it is released"))
            res["fall"] = {"live"}
        elif isinstance(s, ast.Expr) and is_call(s.value, {"free"}) and s.value.args and uses(s.value.args[0], v):
            if "freed" in cur:
                problems.append((s.lineno, "is released twice on some path"))
            res["fall"] = {"freed" if x in ("live", "freed") else x for x in cur}
        elif isinstance(s, ast.If):
            nt = null_test(s.test, v)
            if not nt:
                check(s.test, v, cur, s, problems)
            a = {("null" if x == "live" else x) for x in cur} if nt == 1 else cur
            b = {("null" if x == "live" else x) for x in cur} if nt == -1 else cur
            x, y = flow(s.body, v, a, problems), flow(s.orelse, v, b, problems)
            res["fall"] = x["fall"] | y["fall"]
            for k in ("exit", "jump"):
                res[k] |= x[k] | y[k]
        elif isinstance(s, (ast.For, ast.While)):
            check(s.iter if isinstance(s, ast.For) else s.test, v, cur, s, problems)
            c = set(cur)
            for _ in range(4):
                mute = []
                x = flow(s.body, v, c, mute)
                n = c | x["fall"] | x["jump"]
                if n == c:
                    break
                c = n
            x = flow(s.body, v, c, problems)
            res["exit"] |= x["exit"]
            y = flow(s.orelse, v, c, problems)
            res["fall"] = y["fall"] | x["jump"]
            res["exit"] |= y["exit"]
        elif isinstance(s, ast.With):
            x = flow(s.body, v, cur, problems)
            res["fall"] = x["fall"]
            for k in ("exit", "jump"):
                res[k] |= x[k]
        elif isinstance(s, ast.Try):
            x = flow(s.body, v, cur, problems)
            fall, ex, ju = set(x["fall"]), set(x["exit"]), set(x["jump"])
            inner = cur | x["fall"] | x["exit"]
            for hd in s.handlers:
                y = flow(hd.body, v, inner, problems)
                fall |= y["fall"]
                ex |= y["exit"]
                ju |= y["jump"]
            if s.orelse:
                y = flow(s.orelse, v, fall, problems)
                fall, ex, ju = y["fall"], ex | y["exit"], ju | y["jump"]
            if s.finalbody:
                f = lambda z: flow(s.finalbody, v, z, problems)["fall"] if z else set()
                fall, ex, ju = f(fall), f(ex), f(ju)
            res["fall"] = fall
            res["exit"] |= ex
            res["jump"] |= ju
        elif isinstance(s, (ast.Return, ast.Raise)):
            if isinstance(s, ast.Return) and s.value is not None:
                if isinstance(strip(s.value), ast.Name) and strip(s.value).id == v:
                    raise Escapes()
                check(s.value, v, cur, s, problems)
            res["exit"] |= cur
            res["fall"] = set()
        elif isinstance(s, (ast.Break, ast.Continue)):
            res["jump"] |= cur
            res["fall"] = set()
        else:
            check(s, v, cur, s, problems)
    return res


def check(e, v, cur, s, problems):
    if not uses(e, v):
        return
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == v for a in map(strip, x.args)) and not is_call(x, {"__cast__", "free"}):
            raise Escapes()
        if isinstance(x, ast.Assign) and isinstance(strip(x.value), ast.Name) and strip(x.value).id == v:
            raise Escapes()
    if "freed" in cur:
        problems.append((s.lineno, "is used after it was released"))
