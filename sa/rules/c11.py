"""Levels of the trap state: there is always room for the ones a transfer adds; splitting and merging keep the volume and leave nothing stale."""
from tm import *

W = "arcticpy/trap_managers.py: %s.%s"


def run(mods, rep):
    jobs = []
    for c, k in MANAGERS:
        jobs += [(room, (mods, c, k)), (split, (mods, c, k, 1)), (split, (mods, c, k, 2)), (merge, (mods, c, k, 1)), (merge, (mods, c, k, 2)), (order, (mods, c, k)), (emptied, (mods, c, k))]
    rep.parallel(jobs)


def row(lv):
    return [lv[0]] + list(lv[1])


def total(lv):
    r = ZERO
    for v, o in lv:
        r = add(r, v)
    return r


def split(rep, mods, cls, kind, S):
    R = 6
    for K in (1, 2, 3, 4):
        for idx in range(K):
            name = "%s: %d species, a cloud that ends within level %d of %d" % (cls, S, idx + 1, K)
            try:
                m = Small(mods, cls, kind, S)
                h = m.h
                lv = m.levels(K)
                arr = m.put_levels(lv, R)
                below = total(lv[:idx])
                cloud = h.sym("cloud", 0, 1)
                r = h.meth(m.tm, "update_watermark_volumes_for_cloud_below_highest", arr, cloud, vnum(idx))
                got = m.read(r, R)
            except (Missing, Dead) as e:
                rep.undecided("split", name, repr(e))
                return
            rep.covered(h.ip)
            want = [row(x) for x in lv[:idx]] + [[sub(cloud.term, below)] + lv[idx][1], [sub(add(below, lv[idx][0]), cloud.term)] + lv[idx][1]] + [row(x) for x in lv[idx + 1:]]
            expect_cells(rep, "split", name, W % (cls, "update_watermark_volumes_for_cloud_below_highest"), got, want)


def merge(rep, mods, cls, kind, S):
    R = 6
    where = W % (cls, "collapse_redundant_watermarks")
    for K in (1, 2, 3, 4):
        for ks in ([(k,) for k in range(K)] if S == 1 else [(a, b) for a in range(K) for b in range(K) if abs(a - b) < 2]):
            for copy in (True, False):
                filled = [(i, s) for s in range(S) for i in range(ks[s])]
                n = min(ks)
                name = "%s: %d levels, the lowest %s full%s" % (cls, K, "/".join(map(str, ks)), ", with the state to go back to" if copy else "")
                try:
                    m = Small(mods, cls, kind, S)
                    h = m.h
                    lv = m.levels(K, "", filled)
                    old = [(lv[i][0], o) for i, (v, o) in enumerate(m.levels(K, "b"))]
                    a = m.put_levels(lv, R)
                    b = m.put_levels(old, R)
                    r = h.meth(m.tm, "collapse_redundant_watermarks", *([a, b] if copy else [a]))
                    parts = h.ip.iter_exact(r, h.st) if copy else [r]
                except (Missing, Dead) as e:
                    rep.undecided("merge", name, repr(e))
                    return
                rep.covered(h.ip)
                if parts is None or len(parts) != (2 if copy else 1):
                    rep.undecided("merge", name, "result not followed")
                    continue
                got = [m.read(p, R) for p in parts]
                vol = total(lv[:n])
                one = lambda l, o: [row(x) for x in l] if n <= 1 else [[vol] + o] + [row(x) for x in l[n:]]
                expect_cells(rep, "merge", name, where, got[0], one(lv, [m.full] * S))
                if copy:
                    mean = []
                    for s in range(S):
                        x = ZERO
                        for i in range(n):
                            x = add(x, mul(old[i][0], old[i][1][s]))
                        mean.append(T.div(x, vol) if n else x)
                    expect_cells(rep, "merge", "%s: it keeps its volumes and averages" % name, where, got[1], one(old, mean))


def room(rep, mods, cls, kind):
    """after making room, there are empty levels for all that one operation may add, and one more to mark the end"""
    name = "%s: room for the levels one operation adds" % cls
    where = W % (cls, "extend_watermarks_if_almost_full")
    # how many levels an operation can add: splits of the manager's own state, or one on top
    adds = []
    try:
        m = Man(mods, cls, kind, OTHERS)
        h = m.h
        plain = m._update_watermark_volumes_for_cloud_below_highest

        def cut(ip, f, env, st, node):
            own = set(h.ip.getattr(m.tm, "watermarks", st, node, h.mod, None).locs())
            v = list(env.values())[1]
            if own & set(v.locs()):
                adds.append((id(node), st.path))
            return plain(ip, f, env, st, node)
        h.ip.cuts["update_watermark_volumes_for_cloud_below_highest"] = cut
        h.meth(m.tm, "n_electrons_released_and_captured", h.sym("free", 0, unit=CHARGE), m.fill, h.sym("dwell", Fraction(1, 1000), unit=TIME), vnum(1))
    except (Missing, Dead) as e:
        rep.undecided("room", name, repr(e))
        return
    need = max(1, len(set(a for a, p in adds))) + 1
    try:
        m = Man(mods, cls, kind)
        h = m.h
        h.meth(m.tm, "extend_watermarks_if_almost_full")
    except (Missing, Dead) as e:
        rep.undecided("room", name, repr(e))
        return
    rep.covered(h.ip)
    # small states, cell by cell
    for R in (4, 5, 7):
        for K in range(R):
            what = "%s: %d levels in use of %d" % (cls, K, R)
            try:
                s = Small(mods, cls, kind, 1)
                lv = s.levels(K)
                arr = s.put_levels(lv, R)
                s.h.set(s.tm, "watermarks", arr)
                s.h.meth(s.tm, "extend_watermarks_if_almost_full")
                w = s.h.get(s.tm, "watermarks")
                a = s.arrays(w)
            except (Missing, Dead) as e:
                rep.undecided("room", what, repr(e))
                continue
            rep.covered(s.h.ip)
            n = T.const(a[0].shape[0].term) if len(a) == 1 and a[0].shape is not None and a[0].shape[0].term is not None else None
            if n is None:
                rep.undecided("room", what, "size not followed")
                continue
            rep.expect(n - K >= need, "room", "%s: room for the %d levels one operation may add and the one that marks the end" % (what, need - 1), where, "only %d free" % (n - K))
            expect_cells(rep, "room", "%s: the state is kept and what is added is empty" % what, where, s.read(w, int(n)), [row(x) for x in lv])


def order(rep, mods, cls, kind):
    """room is made before anything is added"""
    try:
        seen = []
        m = Man(mods, cls, kind, OTHERS)
        h = m.h

        def cut(ip, f, env, st, node):
            seen.append((len(h.ip.events), st.path))
            return vref(NONE)
        h.ip.cuts["extend_watermarks_if_almost_full"] = cut
        h.meth(m.tm, "n_electrons_released_and_captured", h.sym("free", 0, unit=CHARGE), m.fill, h.sym("dwell", Fraction(1, 1000), unit=TIME), vnum(1))
    except (Missing, Dead) as e:
        rep.undecided("order", cls, repr(e))
        return
    rep.covered(h.ip)
    w = W % (cls, "n_electrons_released_and_captured")
    grown = [e for e in h.ip.events[m.mark:] if e.kind in ("new", "attrstore") and e.data.get("attr") == "watermarks"]
    vols = [(i, e) for i, e in enumerate(h.ip.events) if i >= m.mark and e.kind == "arrstore" and column(e) == 0]
    for i, e in vols:
        what = "%s: a level is added after room was made" % cls
        if any(k <= i and all(c in e.path for c in p) for k, p in seen):
            rep.ok("order", what, e.where)
        elif not seen and not any(a.op == "concat" for v in [h.get(m.tm, "watermarks")] for l in m.arrays(v) if l.v.term is not None for a in T.atoms_of(l.v.term)):
            rep.violation("order", what, e.where, "no room is made in this operation")
        elif seen and all(k > i for k, p in seen):
            rep.violation("order", what, e.where, "room is made only afterwards")
        else:
            rep.undecided("order", what, "at %s" % e.where)


def emptied(rep, mods, cls, kind):
    name = "%s: no level is left after emptying" % cls
    try:
        m = Small(mods, cls, kind, 2)
        m.h.set(m.tm, "watermarks", m.put_levels(m.levels(3), 5))
        m.h.meth(m.tm, "empty_all_traps")
        w = m.h.get(m.tm, "watermarks")
        a = m.arrays(w)
    except (Missing, Dead) as e:
        rep.undecided("emptied", name, repr(e))
        return
    rep.covered(m.h.ip)
    got = m.read(w, 5) if len(a) == 1 else None
    # the number of levels in use is what counts: volumes
    expect_cells(rep, "emptied", name, W % (cls, "empty_all_traps"), [[r[0]] for r in got] if got else None, [])
