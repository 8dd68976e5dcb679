"""Columns and express passes start from the right trap state; a saved state is a true snapshot."""
from mats import *
from replay import each_small, judge_order
from graph import *
import tabular


def run(mods, rep):
    jobs = []
    for name, kw in CONFIGS:
        for b in (False, True):
            jobs.append((kernel, (mods, name, kw, b)))
    for names in (("Trap",), ("TrapInstantCapture",), ("TrapLogNormalLifetimeContinuum",), ("Trap", "TrapInstantCapture", "TrapLogNormalLifetimeContinuum")):
        jobs += [(snapshot, (mods, names)), (emptied, (mods, names))]
    for v in VARIANTS:
        jobs.append((savematrix, (mods, v)))
        if v[0] == "ROE" and not v[1]:
            jobs.append((handover, (mods, v)))
    rep.parallel(jobs + each_small(mods, "replay", judge_order, tier=rep.tier))


# ---------------------------------------------------------------- the order of operations in the kernel
def kernel(rep, mods, name, kw, between):
    name = "%s, traps %semptied between columns" % (name, "" if between else "not ")
    try:
        k = kernel_run(mods, between=between, **kw)
    except (Missing, Dead) as e:
        rep.undecided("order", name, repr(e))
        return
    rep.covered(k.h.ip)
    evs = [e for e in k.events if e.kind in ("step", "trapop")]
    steps = [e for e in evs if e.kind == "step"]
    if not steps:
        rep.undecided("order", name, "no step of the trap managers found")
        return
    where = steps[0].where
    all_inst = [l for l in k.h.st.heap if isinstance(k.h.st.heap[l], Inst) and k.h.st.heap[l].cls is not None and k.h.st.heap[l].cls.name == ALL]
    for e in k.events:
        if e.kind == "attrstore" and e.data.get("loc") in all_inst:
            rep.undecided("order", name, "the kernel sets attributes of the set of managers itself at %s" % e.where)
            return
    lp = steps[0].data["loops"]
    if len(lp) != 3 or any(e.data["loops"] != lp for e in steps):
        rep.undecided("order", name, "loops around the steps not recognised as columns, passes, rows")
        return
    # state of the traps, followed through the program: what they hold, what is saved
    first, last = evs.index(steps[0]), evs.index(steps[-1])
    ps = [e for e in evs if e.kind == "trapop" and e.data["loops"] == lp[:2]]
    pre = [e for e in ps if evs.index(e) < first]
    post = [e for e in ps if evs.index(e) > last]
    inrow = [e for e in evs if e.kind == "trapop" and e.data["loops"] == lp]
    col = [e for e in evs if e.kind == "trapop" and e.data["loops"] == lp[:1]]
    colpre = [e for e in col if evs.index(e) < first]
    colpost = [e for e in col if evs.index(e) > last]
    outside = [e for e in evs if e.kind == "trapop" and not e.data["loops"]]
    other = [e for e in evs if e.kind == "trapop" and e not in pre + post + inrow + col + outside]
    if other:
        rep.undecided("order", name, "operations on the traps in other loops: %s" % ["%s at %s" % (e.data["what"], e.where) for e in other])
        return
    # conditions that are not decided: every combination is followed
    conds = []
    for e in ps + col:
        for c in e.path:
            if isinstance(c[0], Term) and c[0] not in conds:
                conds.append(c[0])
    if len(conds) > 5:
        rep.undecided("order", name, "too many conditions")
        return
    ip = [a for e in steps for a in T.atoms_of(pixel_of_last(k, e)[0] if pixel_of_last(k, e) else T.ZERO) if a.op == "idx"]
    ipass = ip[0] if ip else None
    icol = [a for a in T.atoms_of(pixel_of_last(k, steps[-1])[3]) if a.op == "idx"] if pixel_of_last(k, steps[-1]) else []

    def decided(c, later):
        """whether the condition holds on the first pass of a column / on later ones; None when that is not known"""
        if ipass is not None and any(a is ipass for a in T.atoms_of(c)):
            c = T.subst(c, {ipass.id: T.ONE if later else ZERO})
            x = T.const(c)
            return None if x is None else x != 0
        return "free"

    def play(state, es, choice, later):
        data, saved = state
        for e in es:
            go = True
            for c in e.path:
                if not isinstance(c[0], Term):
                    return None
                d = decided(c[0], later)
                if d is None:
                    return None
                if d == "free":
                    d = choice[c[0]]
                if d != c[1]:
                    go = False
            if not go:
                continue
            w = e.data["what"]
            if w == "restore":
                data = saved
            elif w == "save":
                saved = data
            elif w == "empty":
                data = "empty"
        return data, saved
    import itertools
    free = [c for c in conds if decided(c, False) == "free"]
    vague_ = any(a in icol for c in conds for a in T.atoms_of(c)) or any(not known(c) for c in conds)
    words = {"S": "the state saved before the end of the previous column", "D": "the state left by the previous column", "fresh": "the state left by the previous pass", "empty": "empty traps"}
    bad_pass, bad_col, unknown = [], [], vague_
    want = "empty" if between else "D"
    for ch in itertools.product((False, True), repeat=len(free)):
        choice = dict(zip(free, ch))
        txt = ", ".join("%s%s" % ("" if b else "not ", str(c)[:100]) for c, b in choice.items())
        s0 = play(("fresh", "S"), pre, choice, True)
        if s0 is None:
            unknown = True
        elif s0[0] != "S":
            bad_pass.append("what the traps hold when a later pass starts: %s %s" % (words[s0[0]], txt and "when " + txt))
        st = ("D", "S")
        for es, later in ((post, True), (colpost, False), (colpre, False), (pre, False)):
            st = play(st, es, choice, later) if st is not None else None
        if st is None:
            unknown = True
        elif st[0] != want:
            bad_col.append("%s %s" % (words[st[0]], txt and "when " + txt))
    for rule, what, bad in (("pass-start", "each express pass starts from the saved state", bad_pass),
                            ("column-start", "each column starts from %s" % ("empty traps" if between else "the state left by the previous column"), bad_col)):
        if unknown and (bad or vague_):
            rep.undecided(rule, "%s: %s" % (name, what), "conditions not decided: %s" % [str(c)[:200] for c in conds])
        else:
            rep.expect(not bad, rule, "%s: %s" % (name, what), where, "; ".join(bad[:3]))
    # while the rows of a pass are run, the state is only saved where the clock sequence asks for it
    rows_before = [e for e in inrow if evs.index(e) < last]
    for e in inrow:
        if e.data["what"] != "save" or e in rows_before:
            rep.violation("pass-start", "%s: the state of the traps is changed while a pass is running" % name, e.where, e.data["what"])
        elif any("SAVE" in str(c[0]) and c[1] for c in e.path):
            rep.ok("save-when-asked", "%s: saved after the row that the clock sequence names" % name, e.where)
            px = pixel_of_last(k, steps[-1])
            good = None
            for c in e.path:
                a = single_atom(c[0]) if isinstance(c[0], Term) else None
                if a is not None and a.op == "select" and "SAVE" in str(a.args[0]) and px is not None:
                    good = T.same(a.args[1][0], px[0]) is True and T.same(a.args[1][1], px[1]) is True if len(a.args[1]) == 2 else None
            rep.expect(good, "save-when-asked", "%s: the row asked for is the row just run" % name, e.where, str([str(c[0])[:200] for c in e.path]))
        elif not e.path:
            rep.violation("save-when-asked", "%s: the state is saved after every row, not when the clock sequence asks for it" % name, e.where)
        else:
            rep.undecided("save-when-asked", name, "condition %s" % [str(c[0])[:200] for c in e.path])
    if not inrow and not post:
        rep.violation("save-when-asked", "%s: the state is never saved for the next express pass" % name, where)


def pixel_of_last(k, ev):
    bs = blocks(k)
    px = pixel(k, bs[-1]) if bs else None
    return px


# ---------------------------------------------------------------- saved states
def managers(mods, names):
    h = H(mods, {"exact": True, "unroll": 8}, {"n_trapped_electrons_from_watermarks": cut_trapped})
    traps = h.put(Lst([mk_traps(h, n, "_%d" % i, n=vnum(1)) for i, n in enumerate(names)], None, None, "list"))
    ccd = h.new("CCD", h.put(Lst([vnum(0.25), vnum(0.75)], None, None, "list")), h.sym("well", 0, unit=CHARGE), vnum(0), h.sym("power", 0, unit=ONEU))
    a = h.new(ALL, traps, h.sym("max_n_transfers", 1, INF, isint=True), ccd)
    return h, a


def data_of(h, a):
    """the lists of managers that the set hands out"""
    v = h.get(a, "data")
    if not v.locs():
        raise Missing("data")
    return v


def insts(h, st, v):
    out = []
    for l in sorted(reach(h.ip, st, [v]), key=str):
        o = st.heap[l]
        if isinstance(o, Inst) and o.cls is not None and "watermarks" in o.attrs:
            out.append(l)
    return out


def scribble(h, v, tag):
    """steps of the managers: every array of every manager gets another content, in place"""
    n = 0
    for l in insts(h, h.st, v):
        w = h.st.heap[l].attrs["watermarks"]
        for al in w.locs():
            o = h.st.heap[al]
            if not isinstance(o, Arr) or o.view is not None:
                return 0
            h.st.heap[al] = o.but(v=o.v.but(term=aatom("asym", ("%s%d" % (tag, n),), 2)))
            n += 1
    return n


def snapshot(rep, mods, names):
    what = " + ".join(names)
    try:
        h, a = managers(mods, names)
        if not scribble(h, data_of(h, a), "A"):
            raise Missing("state of the managers")
        h.meth(a, "save")
        then, then_v = h.st.copy(), data_of(h, a)
        rep.covered(h.ip)
        # steps after saving
        scribble(h, data_of(h, a), "B")
        h.meth(a, "restore")
        d, n = differences(h, then, then_v, h.st, data_of(h, a))
        judge(rep, "snapshot", "%s: restoring gives the state at the time of saving, whatever happened in between" % what, d, n, a)
        # steps after restoring, then another restore
        scribble(h, data_of(h, a), "C")
        h.meth(a, "restore")
        d, n = differences(h, then, then_v, h.st, data_of(h, a))
        judge(rep, "snapshot", "%s: a saved state can be restored again after further steps" % what, d, n, a)
        # saving again replaces the first
        scribble(h, data_of(h, a), "D")
        h.meth(a, "save")
        then, then_v = h.st.copy(), data_of(h, a)
        scribble(h, data_of(h, a), "E")
        h.meth(a, "restore")
        d, n = differences(h, then, then_v, h.st, data_of(h, a))
        judge(rep, "snapshot", "%s: saving again replaces the state saved before" % what, d, n, a)
    except (Missing, Dead) as e:
        rep.undecided("snapshot", what, repr(e))


def emptied(rep, mods, names):
    what = " + ".join(names)
    try:
        h, a = managers(mods, names)
        new, new_v = h.st.copy(), data_of(h, a)
        rep.covered(h.ip)
        scribble(h, data_of(h, a), "A")
        h.meth(a, "restore")
        d, n = differences(h, new, new_v, h.st, data_of(h, a))
        judge(rep, "emptied", "%s: with nothing saved, the traps start empty" % what, d, n, a)
        scribble(h, data_of(h, a), "B")
        h.meth(a, "empty_all_traps")
        d, n = differences(h, new, new_v, h.st, data_of(h, a))
        judge(rep, "emptied", "%s: emptying leaves the state of newly made managers" % what, d, n, a)
        h.meth(a, "save")
        scribble(h, data_of(h, a), "C")
        h.meth(a, "restore")
        d, n = differences(h, new, new_v, h.st, data_of(h, a))
        judge(rep, "emptied", "%s: an emptied state that was saved is restored as empty" % what, d, n, a)
    except (Missing, Dead) as e:
        rep.undecided("emptied", what, repr(e))


def judge(rep, rule, what, diffs, n, a):
    where = "arcticpy/trap_managers.py: %s" % ALL
    bad = [x for x in diffs if x[1] is False]
    if bad:
        rep.violation(rule, what, where, "; ".join("%s: %s" % (x[0], x[2]) for x in bad[:6]))
    elif diffs:
        rep.undecided(rule, what, "; ".join("%s: %s" % (x[0], x[2]) for x in diffs[:6]))
    elif n:
        rep.ok(rule, what, where)
    else:
        rep.undecided(rule, what, "nothing compared")


# ---------------------------------------------------------------- which states are saved
def savematrix(rep, mods, v):
    kind, first, dt, time = v
    name = vname(v)
    try:
        m = mats(mods, *v)
        h = m.h
        s = h.meth(m.roe, SAVE, m.vM)
    except (Missing, Dead) as e:
        rep.undecided("saved-states", name, repr(e))
        return
    rep.covered(h.ip)
    S = merged(h, s)
    if S is None:
        rep.undecided("saved-states", name, "save matrix not followed")
        return
    for i, n in enumerate(("row for each pass", "column for each pixel")):
        a = S.shape[i] if S.shape and len(S.shape) == 2 else None
        b = m.M.shape[i] if m.M.shape and len(m.M.shape) == 2 else None
        if a is None or b is None or a.term is None or b.term is None or a.term is not b.term and (unknown_term(a.term) or unknown_term(b.term)):
            rep.undecided("saved-states", "%s: one %s" % (name, n), "extent not followed")
        else:
            rep.expect(T.same(a.term, b.term), "saved-states", "%s: one %s" % (name, n), m.where, "%s / %s" % (a.term, b.term))
    if kind == "ROETrapPumping":
        # each pixel is pumped separately: judged by its own clock sequence
        return
    if kind != "ROE" or first:
        # every pass starts from empty traps
        t = S.v.term
        a = single_atom(t) if t is not None else None
        if t is ZERO or a is not None and a.op == "zeros" or (S.v.lo == 0 and S.v.hi == 0):
            rep.ok("saved-states", "%s: no state is carried to another express pass" % name, m.where)
        else:
            rep.undecided("saved-states", "%s: no state is carried to another express pass" % name, str(t)[:300])
    else:
        rep.expect(False if single_atom(S.v.term) is not None and single_atom(S.v.term).op == "zeros" else None if S.v.term is None else True, "saved-states",
                   "%s: the state at the end of a pass is kept for the next one" % name, m.where, "nothing is ever saved")


def handover(rep, mods, v):
    """the state kept for the next pass is the one after the row just below the first that takes part in it"""
    kind, first, dt, time = v
    for n in range(2, 8 if rep.tier == "thorough" else 6):
        for express in sorted({0, 1, 2, 3, n - 1}):
            for offset in (0, 2):
                kw = dict(express=express, offset=offset, pixels=(0, n))
                name = "%s, %d rows, express %d%s" % (vname(v), n, express, ", offset %d" % offset if offset else "")
                try:
                    m = mats(mods, kind, first, dt, (1, max(2, n - 1)) if time else False, unroll=80, **kw)
                    S = merged(m.h, m.h.meth(m.roe, SAVE, m.vM))
                    if S is None:
                        raise Missing("save matrix")
                    M, S = [tabular.sized(x.v, x.v.term, x.shape).astype(bool) for x in (m.M, S)]
                except (Missing, Dead, tabular.No) as e:
                    rep.undecided("handover", name, repr(e))
                    continue
                rep.covered(m.h.ip)
                if M.shape != S.shape:
                    rep.violation("handover", "%s: a row for each pass and a column for each pixel" % name, m.where, "%s / %s" % (M.shape, S.shape))
                    continue
                for e in range(len(M) - 1):
                    on = [j for j in range(n) if M[e + 1][j]]
                    if not on or on[0] == 0:
                        continue
                    at = [j for j in range(n) if S[e][j]]
                    rep.expect(at == [on[0] - 1], "handover", "%s: after pass %d, which goes on from row %d" % (name, e, on[0]), m.where,
                               "the state is kept after %s" % (["row %d" % j for j in at] or "no row"))
