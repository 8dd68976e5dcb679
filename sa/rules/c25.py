"""Consecutive time windows share out the transfers of every pixel; without a time window every transfer is recorded."""
from mats import *
from drv import *
from graph import *
import tabular

np = tabular.np


def run(mods, rep):
    rep.level = "other"
    jobs = []
    for kind, first, dt, time in VARIANTS:
        if time and kind != "ROETrapPumping":
            for part in range(4):
                jobs.append((windows, (mods, kind, first, dt, part, 6 if rep.tier == "thorough" else 4)))
    for d in ("parallel", "serial"):
        for kind in ("ROE", "ROEChargeInjection", "ROETrapPumping"):
            jobs.append((default, (mods, d, kind)))
    rep.parallel(jobs)


def recorded(mods, kind, first, dt, time, kw):
    m = mats(mods, kind, first, dt, time, unroll=80, **kw)
    return m, tabular.sized(m.E.v, m.E.v.term, m.E.shape)


def windows(rep, mods, kind, first, dt, part, top):
    i = 0
    for n in range(1, top + 2):
        for express in sorted({0, 1, 2, 3, max(n - 1, 1), n}):
            for offset in (0, 2):
                for tr in (None,) if kind == "ROE" else (None, 2 * n + 1):
                    i += 1
                    if i % 4 == part:
                        case(rep, mods, kind, first, dt, dict(express=express, offset=offset, pixels=(0, n), transfers=tr))
    if part == 0:
        for offset in (0, 2):
            case(rep, mods, kind, first, dt, dict(express=2, offset=offset, pixels=(1, 4), transfers=None))


def case(rep, mods, kind, first, dt, kw):
    lo, hi = kw["pixels"]
    name = "%s, %s%s, rows %d to %d, express %d%s%s" % (
        kind, dt, ", empty traps first" if first else "", lo, hi - 1, kw["express"], ", offset %d" % kw["offset"] if kw["offset"] else "",
        ", %d transfers" % kw["transfers"] if kw.get("transfers") else "")
    total = kw["transfers"] or hi + kw["offset"]
    try:
        m, E = recorded(mods, kind, first, dt, False, kw)
    except (Missing, Dead, tabular.No) as e:
        rep.undecided("shared-out", name, repr(e))
        return
    own = E.sum(axis=0)
    for k in sorted({1, total // 2, total - 1} & set(range(1, total))):
        parts = []
        for a, b in ((0, k), (k, total)):
            w = "%s, time window %d to %d" % (name, a, b - 1)
            try:
                m, P = recorded(mods, kind, first, dt, (a, b), kw)
            except (Missing, Dead, tabular.No) as e:
                bad = [e for e in LAST[0].h.ip.events if e.kind == "indexerror" and not e.path]
                if isinstance(e, Dead) and bad:
                    rep.violation("shared-out", "%s: the multiplicities can be computed" % w, bad[0].where, bad[0].data.get("what"))
                else:
                    rep.undecided("shared-out", w, repr(e))
                break
            rep.covered(m.h.ip)
            if P.shape != E.shape:
                rep.violation("shared-out", "%s: the passes are those of the whole readout" % w, m.where, "%s instead of %s" % (P.shape, E.shape))
                break
            rep.expect(bool((P >= -1e-9).all() and (P <= E + 1e-9).all()), "recorded-part", "%s: at most the whole of each transfer is recorded" % w, m.where,
                       "%s of %s" % (P.tolist(), E.tolist()))
            want = np.clip(own, a, b) - a
            rep.expect(bool(np.allclose(P.sum(axis=0), want)), "recorded-part", "%s: the recorded transfers of each pixel are those in the window" % w, m.where,
                       "%s instead of %s" % (P.sum(axis=0).tolist(), want.tolist()))
            parts.append(P)
        if len(parts) == 2:
            rep.expect(bool(np.allclose(parts[0] + parts[1], E)), "shared-out", "%s: the windows before and from transfer %d add up to the whole" % (name, k), m.where,
                       "%s + %s instead of %s" % (parts[0].tolist(), parts[1].tolist(), E.tolist()))


# ---------------------------------------------------------------- no window given
def default(rep, mods, d, kind):
    name = "%s clocking, %s, no time window" % (d, kind)
    where = "arcticpy/main.py: add_cti"
    k = kernel_name(mods)
    log = []
    try:
        if k is None:
            raise Missing("clocking kernel")
        s = scenario(mods, cuts={k: cut_kernel(log)}, direction=d, roe=kind, window=None)
        h = s.h
        if kind == "ROEChargeInjection":
            tr = h.sym("n_pixel_transfers", 1, isint=True)
            h.ip.setattr(s.kw[d + "_roe"], "n_pixel_transfers", tr, h.st, NODE, h.mod, None)
            log.clear()
            s.result = h.call("add_cti", s.image, **s.kw)
    except (Missing, Dead) as e:
        rep.undecided("default-window", name, repr(e))
        return
    rep.covered(h.ip)
    if len(log) != 1:
        rep.undecided("default-window", name, "%d passes recognised" % len(log))
        return
    names = [n for n in log[0]["env"] if "time" in n]
    if len(names) != 1:
        rep.undecided("default-window", name, "argument not recognised among %s" % list(log[0]["env"]))
        return
    v = log[0]["env"][names[0]]
    w = "%s: every transfer is recorded" % name
    if v.is_none:
        rep.ok("default-window", w, where)
        return
    ls = v.locs()
    o = h.st.heap.get(ls[0]) if len(ls) == 1 else None
    if not isinstance(o, Rng) or o.start.term is None or o.stop.term is None or unknown_term(o.start.term) or unknown_term(o.stop.term):
        rep.undecided("default-window", w, str(v))
        return
    n = h.ip.arr(s.image.locs()[0], s.before).shape[0 if d == "parallel" else 1].term
    if kind == "ROETrapPumping":
        rep.ok("default-window", w + " (windows play no part)", where)
        return
    need = tr.term if kind == "ROEChargeInjection" else add(n, s.kw[d + "_offset"].term)
    ok = bounds(sub(o.stop.term, need))[0] >= 0 and bounds(o.start.term)[1] <= 0
    if not ok:
        # independent of each other: the number of transfers may be larger
        free = [a for a in T.atoms_of(o.stop.term) if a.op == "sym"]
        if kind != "ROEChargeInjection" or not any(a is single_atom(need) for a in free):
            rep.violation("default-window", "%s: every transfer is recorded, not only those from %s to %s" % (name, o.start.term, o.stop.term), where,
                          "of %s transfers" % need)
            return
    rep.expect(True if ok else None, "default-window", w, where, "%s .. %s of %s" % (o.start.term, o.stop.term, need))
