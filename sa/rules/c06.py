"""Only pixels in the row window (or destinations of released charge) of columns in the column window change; no padding is left."""
from mats import *
from replay import each_small, judge_cells

ONE = num(1)


def run(mods, rep):
    each(rep, mods, "window", check)
    rep.parallel([(matrices, (mods, v)) for v in VARIANTS] + each_small(mods, "replay", replayed, lambda kw: kw.get("window") or kw.get("columns") or kw.get("offset"), rep.tier))


def replayed(rep, rule, name, w, x, where):
    rest = set(x.cell) - x.touched
    if rest:
        judge_cells(rep, rule, name, w, x, where, only=rest, label="the pixels no charge is released into are as they were")


def check(rep, k, name, bs):
    serial = bool(k.kw.get("serial_traps"))
    whole = k.kw.get("parallel_window_range") is None and k.kw.get("serial_window_range") is None
    h = k.h
    img = h.ip.arr(k.image.locs()[0], k.before)
    # ---- the result as it is before any transfer: the input, in the input's shape
    where = "arcticpy/main_utils.pyx: cy_clock_charge_in_one_direction"
    rs = [h.ip.arr(l, h.st) for l in k.result.locs() if isinstance(h.st.heap.get(l), Arr)]
    if len(rs) != 1 or k.result.unk or rs[0].v.term is None:
        rep.undecided("base", name, "result not followed")
    else:
        r = rs[0]
        if len(r.shape or ()) != 2:
            rep.undecided("shape", name, "shape of the result")
        else:
            for i, (a, b) in enumerate(zip(r.shape, img.shape)):
                ok = None if a.term is None or unknown_term(a.term) else T.same(a.term, b.term)
                rep.expect(ok, "shape", "%s: extent %d of the result is that of the input" % (name, i), where, "%s instead of %s" % (a, b))
        rr = sym("some_row", 0, INF, True)
        cc = sym("some_col", 0, INF, True)
        T.SYMBOUNDS[single_atom(rr).id] = (ZERO, sub(img.shape[0].term, ONE))
        T.SYMBOUNDS[single_atom(cc).id] = (ZERO, sub(img.shape[1].term, ONE))
        base = no_iterations(r.v.term)
        want = select_term(img.v.term, (rr, cc))
        got = lookup(base, (rr, cc), img) if base is not None else None
        ok = None if got is None or unknown_term(got) else T.same(got, want)
        if ok is False and not all(a.op in ("select", "asym", "sym", "T", "slice", "concat", "zeros", "max", "min", "abs", "ite", "neg?", "zero?") for a in T.atoms_of(got)):
            ok = None
        rep.expect(ok, "base", "%s: a pixel that no transfer changes is returned as it was" % name, where, "pixel [row, col] of the result is %s" % str(got)[:600])
    # ---- the columns visited
    cols = sym("columns_start") if not whole else ZERO
    last = sub(sym("columns_len"), ONE) if not whole else sub(img.shape[0 if serial else 1].term, ONE)
    for b in bs:
        ev = b.events[0]
        what = "%s: phase %d" % (name, b.p)
        px = pixel(k, b)
        if px is None or b.before is None or b.after is None:
            rep.undecided("window", what, "the pixel acted on was not identified")
            continue
        j, r, row, col = px
        if whole:
            row = r
        bd = span(col)
        if bd is None or not known(bd[0]) or not known(bd[1]):
            rep.undecided("columns", what + ": the columns visited are those of the column window", "column %s" % col)
        else:
            ok = T.same(bd[0], cols) is True and T.same(bd[1], add(cols, last)) is True
            rep.expect(ok, "columns", what + ": the columns visited are those of the column window", ev.where, "columns from %s to %s" % bd)
        # ---- the rows written
        env = ev.data["env"]
        rr = sym("other_row", 0, INF, True)
        cc = sym("other_col", 0, INF, True)
        b0, b1 = select_term(b.before, (rr, cc)), select_term(b.after, (rr, cc))
        inside = T.ZERO
        for d in sorted(set(x for s in range(k.S) for x in k.phases[s, b.p]["to"])):
            inside = T.or_(inside, T.and_(eq(rr, add(row, num(d))), eq(cc, col)))
        x0, x1 = ite(inside, ZERO, b0), ite(inside, ZERO, b1)
        ok = None if unknown_term(x1) else T.same(x0, x1)
        rep.expect(ok, "window", what + ": only the pixels that the phase releases to change", ev.where, "any other pixel becomes %s" % str(b1)[:600])
    for e in accounted(k, bs)[1]:
        old, v = e.data.get("old"), e.data.get("value")
        if old is None or not any(a.op == "phi" for a in T.atoms_of(old)):
            continue
        rep.undecided("window", "%s: store outside the steps at %s" % (name, e.where), str(e.data.get("region")))


def extent(t, ax, img):
    a = single_atom(t)
    if a is None:
        return None
    if t is img.v.term:
        return img.shape[ax].term
    if a.op == "T":
        return extent(a.args[0], 1 - ax, img)
    if a.op == "zeros" and len(a.args) == 2:
        return a.args[ax]
    if a.op in ("max", "min", "abs", "ite"):
        for x in a.args:
            for b in T.atoms_of(x) if isinstance(x, T.Term) else ():
                e = extent(T.of_atom(b), ax, img)
                if e is not None:
                    return e
    return None


def lookup(t, idx, img):
    """the cell of a rearrangement of the image at idx (whose first two symbols are known to lie inside the image)"""
    parts = []
    for _ in range(12):
        a = single_atom(t)
        if a is None:
            break
        if a.op == "T":
            t, idx = a.args[0], idx[::-1]
        elif a.op == "select" and all(is_slice(x) for x in a.args[1]) and len(a.args[1]) == 2:
            new = []
            for x, i in zip(a.args[1], idx):
                lo, hi, st = single_atom(x).args
                lo = ZERO if str(lo) == "None" else lo
                if str(st) not in ("None", "1") or not isinstance(lo, T.Term) or (T.const(lo) is not None and T.const(lo) < 0):
                    return None
                new.append(add(i, lo))
            t, idx = a.args[0], tuple(new)
        elif a.op == "concat" and len(a.args) > 2 and a.args[0] in (("ax", 0), ("ax", 1)):
            ax = a.args[0][1]
            for n, q in enumerate(a.args[1:]):
                if not isinstance(q, T.Term):
                    return None
                if n == len(a.args) - 2:
                    t = q
                    break
                e = extent(q, ax, img)
                if e is None:
                    return None
                d = sub(idx[ax], e)
                lo, hi = ext(d)
                if T.bounds(hi)[1] <= -1:
                    t = q
                    break
                if T.bounds(lo)[0] < 0:
                    # depends on the pixel
                    parts.append((T.lt(idx[ax], e), q, idx))
                idx = tuple(d if k == ax else x for k, x in enumerate(idx))
        else:
            break
    r = select_term(t, idx)
    for c, q, i in reversed(parts):
        x = lookup(q, i, img)
        if x is None:
            return None
        r = ite(c, x, r)
    return r


def ext(d):
    """smallest and largest value over the pixels of the image"""
    out = []
    for k in (0, 1):
        t = d
        for n in ("some_row", "some_col"):
            a = single_atom(sym(n, 0, INF, True))
            if any(x is a for x in T.atoms_of(t)):
                t = T.subst(t, {a.id: T.SYMBOUNDS[a.id][k]})
        out.append(t)
    return out


def matrices(rep, mods, v):
    """one column of the matrices for each pixel of the window"""
    name = vname(v)
    try:
        m = mats(mods, *v)
    except (Missing, Dead) as e:
        rep.undecided("matrices", name, repr(e))
        return
    rep.covered(m.h.ip)
    for n, a in (("multiplicity", m.E), ("monitoring", m.M)):
        if a.shape is None or len(a.shape) != 2 or a.shape[1] is None or a.shape[1].term is None or unknown_term(a.shape[1].term):
            rep.undecided("matrices", "%s: %s matrix" % (name, n), "extent not followed")
        else:
            rep.expect(T.same(a.shape[1].term, sym("window_len")), "matrices", "%s: the %s matrix has one column for each pixel of the window" % (name, n), m.where,
                       "%s columns" % a.shape[1].term)
