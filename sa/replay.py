"""What adding trails to an image of a few pixels has to do, step by step, given the tables and phases of the clock sequence: the sequence of
the managers' steps with what each is given, of saving, restoring and emptying the traps, and the resulting image."""
import re

from tabular import No, of_value
from whole import *
from shape import *


NET = re.compile(r"net\d+_$")


class Expected:
    pass


def table(h, v, st):
    import numpy as np
    return np.asarray(of_value(h.ip, v, st))


def reference(w):
    """Expected(steps, ops, cells, touched) of the run w"""
    h, q = w.h, w.cfg
    st = h.st
    R = lambda x: h.put(Rng(vnum(x[0]), vnum(x[1]), vnum(x[2] if len(x) > 2 else 1)))
    some = lambda x, n: (0, n) if x is None else (x, x + 1) if isinstance(x, int) else x
    win = some(q["window"], w.rows_in)
    cols = some(q["columns"], w.cols_in)
    win_rows = list(range(*win))
    kk = {"pixels": R(win), "express": vnum(q["express"]), "offset": vnum(q["offset"])}
    if q["time"] is not None and not q["serial"]:
        kk["time_window_range"] = R(q["time"])
    elif q["time"] is None:
        kk["time_window_range"] = R((0, w.rows_in + q["offset"]))
    else:
        raise Missing("time window of the serial direction")
    r = h.meth(w.roe, EXPR, **kk)
    vE, vM = h.ip.iter_exact(r, st)
    E, M = table(h, vE, st), table(h, vM, st)
    S = table(h, h.meth(w.roe, SAVE, express_matrix=vM), st)
    seq = [h.ip.iter_exact(x, st) for x in h.ip.iter_exact(h.get(w.roe, "clock_sequence"), st)]
    ph = [[dict(high=of_value(h.ip, h.get(p, "is_high"), st), cap=int(of_value(h.ip, h.get(p, "capture_from_which_pixel"), st)),
                to=[int(x) for x in of_value(h.ip, h.get(p, "release_to_which_pixels"), st)],
                share=[Fraction(float(x)).limit_denominator(10**6) for x in of_value(h.ip, h.get(p, "release_fraction_to_pixel"), st)]) for p in row] for row in seq]
    dwell = [Fraction(x) for x in of_value(h.ip, h.get(w.roe, "dwell_times"), st)]
    between = of_value(h.ip, h.get(w.roe, "empty_traps_between_columns"), st)
    x = Expected()
    x.steps, x.ops, x.order = [], [], []
    cell = {(i, j): T.select(w.image_term, (num(i), num(j)) if not q["serial"] else (num(j), num(i))) for i in range(w.rows_in) for j in range(w.cols_in)}
    x.touched = set()
    k = 0
    for c in range(*cols):
        for e in range(M.shape[0]):
            x.order.append("restore")
            for r_ in range(M.shape[1]):
                if not M[e, r_]:
                    continue
                mult = Fraction(float(E[e, r_])).limit_denominator(10**6)
                row = win_rows[r_]
                for s, d in enumerate(dwell):
                    if d <= 0:
                        continue
                    for p in range(len(ph[s])):
                        y = ph[s][p]
                        free = mul(cell.get((row + y["cap"], c), ZERO), num(1 if y["high"] else 0))
                        net = ZERO
                        for g in range(w.groups):
                            x.steps.append((c, e, row, s, p, g, free, d, mult))
                            x.order.append("step")
                            k += 1
                            net = add(net, sym("net%d_" % k))
                        if mult == 0:
                            continue
                        for to, sh in zip(y["to"], y["share"]):
                            z = (row + to, c)
                            old = cell.get(z, ZERO)
                            cell[z] = T.max_(ZERO, add(old, mul(net, num(sh * mult))))
                            x.touched.add(z)
                if S[e, r_]:
                    x.order.append("save")
        if between:
            x.order.append("empty")
        x.order.append("save")
    x.cell = cell
    return x


def run_small(mods, kw):
    w = whole(mods, **kw)
    if w.died is not None:
        raise Missing("the run does not end normally")
    if any(e.kind == "indexerror" for e in w.events):
        raise Missing("index outside an array")
    return w


def judge_steps(rep, rule, name, w, x, where):
    """every manager's step, in order, with its arguments"""
    ev = [e for e in w.events if e.kind == "step"]
    what = "%s: " % name
    if any(e.data["who"] is None for e in ev):
        rep.undecided(rule, what + "steps", "the managers could not be told apart")
        return
    for e in ev:
        for c in e.path:
            # conditions on nothing but what other groups of traps exchanged
            for a in T.atoms_of(c[0]):
                if T.const(c[0]) is None and a.op in ("zero?", "neg?"):
                    xs = [b for b in T.atoms_of(a.args[0])]
                    if xs and all(b.op == "sym" and NET.match(b.args[0]) for b in xs):
                        rep.violation(rule, what + "each group of traps acts once per phase, step, transfer and pixel", e.where,
                                      "a group acts or not depending on what other groups exchanged (%s)" % str(a.args[0])[:200])
                        return
    if any(undet(e.path) for e in ev):
        rep.undecided(rule, what + "steps", "whether a step is made depends on pixel values")
        return
    if len(ev) != len(x.steps):
        rep.violation(rule, what + "each group of traps acts once per phase, step, transfer and pixel", where, "%d steps, not %d" % (len(ev), len(x.steps)))
        return
    for i, (e, s) in enumerate(zip(ev, x.steps)):
        c, ps, row, st_, p, g, free, d, mult = s
        at = "column %d, pass %d, row %d, step %d, phase %d" % (c, ps, row, st_, p)
        if e.data["who"][0] != p or w.groups == 1 and e.data["who"][1] != g:
            rep.violation(rule, what + "the managers act in the order of the phases", e.where, "%s: phase %d acts" % (at, e.data["who"][0]))
            return
        env = e.data["env"]
        for n, want in (("n_free_electrons", free), ("dwell_time", num(d)), ("express_multiplier", num(mult)), ("ccd_filling_function", app("FILL", num(p)))):
            v = env.get(n)
            if v is None or v.term is None:
                rep.undecided(rule, what + n, "not given by this name")
                return
            r = T.same(v.term, want) if not unknown_term(v.term) else None
            if r is False and not opaque_but(v.term):
                rep.violation(rule, what + "each step is given the charge, dwell time, multiplicity and filling of its pixel and phase", e.where,
                              "%s: %s is %s, not %s" % (at, n, str(v.term)[:150], str(want)[:150]))
                return
            if r is not True:
                rep.undecided(rule, what + n, str(v.term)[:200])
                return
    rep.ok(rule, what + "every step of every manager, in order, with its arguments (%d steps)" % len(ev), where)


def undet(path):
    return any(T.const(c[0]) is None for c in path)


def opaque_but(t):
    return unknown_term(t) or any(a.op in ("phi", "loop", "amb", "opq", "asel") for a in T.atoms_of(t))


def judge_order(rep, rule, name, w, x, where):
    """the trap state each step finds: which of the earlier steps made it"""
    ev = [e for e in w.events if e.kind in ("step", "trapop")]
    what = "%s: every step starts from the trap state it should" % name
    if any(undet(e.path) for e in ev) or any(e.kind == "trapop" and e.data["what"] == "other" for e in ev):
        rep.undecided(rule, what, "not followed")
        return
    got = states(["step" if e.kind == "step" else e.data["what"] for e in ev])
    want = states(x.order)
    if len(got) != len(want):
        rep.undecided(rule, what, "%d steps, not %d" % (len(got), len(want)))
        return
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            c, ps, row, st_, p, g = x.steps[i][:6]
            rep.violation(rule, what, [e for e in ev if e.kind == "step"][i].where,
                          "column %d, pass %d, row %d, step %d, phase %d: finds the traps as %s left them, not as %s" % (c, ps, row, st_, p, by(a, x), by(b, x)))
            return
    rep.ok(rule, "%s (%d steps)" % (what, len(got)), where)


def by(s, x):
    if not s:
        return "nothing (empty)"
    c, ps, row, st_, p, g = x.steps[s[-1]][:6]
    return "%d steps up to (column %d, pass %d, row %d, step %d, phase %d)" % (len(s), c, ps, row, st_, p)


def states(ops):
    """the state before each step, as the steps that went into it; nothing kept yet is empty"""
    cur, kept, k, out = (), (), 0, []
    for o in ops:
        if o == "step":
            out.append(cur)
            cur = cur + (k,)
            k += 1
        elif o == "save":
            kept = cur
        elif o == "restore":
            cur = kept
        else:
            cur = ()
    return out


def result_cells(w):
    h = w.h
    ls = [l for l in w.result.locs() if isinstance(h.st.heap.get(l), Arr)]
    if len(ls) != 1:
        return None
    a = h.ip.arr(ls[0], h.st)
    sh = [T.const(s.term) if s.term is not None else None for s in a.shape or ()]
    if a.v.term is None or len(sh) != 2 or None in sh:
        return None
    q = w.cfg
    n = (w.rows_in, w.cols_in) if not q["serial"] else (w.cols_in, w.rows_in)
    if tuple(int(s) for s in sh) != n:
        return "shape %s, not %s" % (tuple(int(s) for s in sh), n)
    return {(i, j): select_term(a.v.term, (num(i), num(j)) if not q["serial"] else (num(j), num(i))) for i in range(w.rows_in) for j in range(w.cols_in)}


def judge_cells(rep, rule, name, w, x, where, only=None, label="the image is what the steps, in order, make of it"):
    cells = result_cells(w)
    what = "%s: %s" % (name, label)
    if cells is None:
        rep.undecided(rule, what, "result not followed")
        return
    if isinstance(cells, str):
        rep.violation(rule, what, where, cells)
        return
    n = 0
    for z, t in cells.items():
        if only is not None and z not in only:
            continue
        n += 1
        want = x.cell[z]
        r = T.same(t, want) if not unknown_term(t) else None
        if r is False and not opaque_but(t):
            rep.violation(rule, what, where, "row %d, column %d: %s, not %s" % (z + (str(t)[:200], str(want)[:200])))
            return
        if r is not True:
            rep.undecided(rule, what, "row %d, column %d: %s" % (z + (str(t)[:200],)))
            return
    rep.ok(rule, "%s (%d pixels)" % (what, n), where)


def configs(thorough=False):
    out = []

    def c(**kw):
        out.append((", ".join("%s %s" % (k, v) for k, v in kw.items()) or "plain", kw))
    c(rows=3, groups=2)
    c(rows=3, columns=(0, 1), between=True)
    c(rows=3, cols=3, columns=(1, 3), between=True, express=1)
    for away in (False, True):
        c(rows=2, cols=1, steps=3, phases=3, away=away, dtype="float")
        c(rows=2, cols=1, steps=2, phases=2, away=away, groups=2)
    c(rows=3, cols=1, steps=3, phases=3, express=1, window=(1, 3))
    c(rows=3, cols=1, steps=3, phases=3, express=1, window=(0, 1))
    c(rows=2, cols=1, steps=4, phases=4, express=1)
    c(rows=2, cols=1, steps=3, phases=3, dwell=(1, 0, 2))
    c(rows=4, cols=1, window=(1, 3))
    c(rows=4, cols=3, window=(2, 4), columns=(1, 2), express=2)
    c(rows=3, cols=2, window=1, columns=1)
    c(rows=3, cols=2, window=2, express=1)
    c(rows=2, cols=3, columns=2)
    c(rows=2, cols=3, serial=True, window=1, columns=1, offset=1)
    c(rows=4, cols=3, window=(0, 4, 2), columns=(0, 3, 2))
    c(rows=4, cols=1, window=(1, 4, 2), express=1)
    c(rows=3, cols=3, serial=True, window=(0, 3, 2), columns=(0, 3, 2))
    c(rows=3, cols=2, serial=True)
    c(rows=3, cols=2, serial=True, window=(1, 2), columns=(0, 1), offset=1, express=1)
    for ex in (1, 2):
        for first in (False, True):
            c(rows=4, cols=1, express=ex, offset=2, first=first, dtype="int" if ex != 2 else "float")
    c(rows=2, cols=3, serial=True, steps=2, phases=2, between=True)
    c(rows=3, cols=3, serial=True, window=(0, 2), columns=(1, 3), express=2, groups=2)
    c(rows=3, cols=1, first=True)
    c(rows=3, cols=2, first=True, express=1, between=True)
    for t in ((0, 2), (1, 3), (3, 4)):
        c(rows=3, cols=1, time=t, offset=1)
        c(rows=3, cols=1, time=t, express=1, offset=1)
    c(kind="ROEChargeInjection", rows=3, cols=2, transfers=3, express=1)
    c(kind="ROEChargeInjection", rows=3, cols=1, transfers=3, active=3, between=True, window=(1, 3))
    c(kind="ROETrapPumping", rows=3, cols=1, window=(1, 2), pumps=2)
    c(kind="ROETrapPumping", rows=1, cols=2, pumps=3, express=2, first=True)
    if thorough:
        for rows in (4, 5):
            for steps in (1, 2, 3):
                for ex in (0, 1, 3):
                    for between in (False, True):
                        c(rows=rows, cols=2, steps=steps, phases=steps, express=ex, offset=1, between=between, first=not between)
    return out


def small(rep, mods, rule, name, kw, fn):
    where = "arcticpy/main.py: add_cti"
    try:
        w = run_small(mods, kw)
        x = reference(w)
    except (Missing, Dead, No, KeyError, TypeError, IndexError, ValueError, RecursionError, AttributeError) as e:
        rep.undecided(rule, name, repr(e)[:200])
        return
    rep.covered(w.h.ip)
    fn(rep, rule, name, w, x, where)


def each_small(mods, rule, fn, pick=None, tier="quick"):
    return [(small, (mods, rule, n, kw, fn)) for n, kw in configs(tier == "thorough") if pick is None or pick(kw)]
