"""Clock sequences route charge to the nearest clouds in shares that sum to one; every transfer of a pixel is counted once over the express passes."""
from mats import *
from graph import *
import tabular

ATTRS = ("is_high", "capture_from_which_pixel", "release_to_which_pixels", "release_fraction_to_pixel")


def run(mods, rep):
    rep.level = "other"
    top = 12 if rep.tier == "thorough" else 9
    jobs = []
    for n in range(1, top + 1):
        for kind in ("ROE", "ROEChargeInjection", "ROETrapPumping"):
            for away in (False, True):
                if kind != "ROETrapPumping" or not away:
                    jobs.append((sequence, (mods, kind, n, away)))
    for kind, first, dt, time in VARIANTS:
        if not time:
            for part in range(4):
                jobs.append((multiplicities, (mods, kind, first, dt, part, 7 if rep.tier == "thorough" else 5)))
    rep.parallel(jobs)


# ---------------------------------------------------------------- the table of phases
def table(h, seq):
    """[[attributes of a phase as constant arrays]] or None"""
    rows = h.ip.iter_exact(seq, h.st)
    if rows is None:
        return None
    out = []
    for row in rows:
        phases = h.ip.iter_exact(row, h.st)
        if phases is None:
            return None
        out.append([{a: tabular.np.atleast_1d(tabular.of_value(h.ip, h.get(p, a), h.st)) for a in ATTRS} for p in phases])
    return out


def nearest(s, p, n):
    """the clouds closest to phase p once the clouds have moved by s: cloud j is at s - n j"""
    d = {j: abs(s - n * j - p) for j in range(-3, 4)}
    return [j for j in sorted(d) if d[j] == min(d.values())]


def sequence(rep, mods, kind, n, away):
    steps = 2 * n if kind == "ROETrapPumping" else n
    name = "%s, %d phase%s%s" % (kind, n, "s" if n > 1 else "", ", release away from readout" if away else "")
    try:
        h = H(mods, {"exact": True, "unroll": 3 * n + 6, "tab": True}, {})
        kw = {} if kind == "ROETrapPumping" else {"force_release_away_from_readout": vnum(away)}
        roe = mk_roe(h, kind, "", None, dwell_times=h.put(Lst([vnum(1)] * steps, None, None, "list")), **kw)
        t = table(h, h.get(roe, "clock_sequence"))
        seen = tabular.of_value(h.ip, h.get(roe, "pixels_accessed_during_clocking"), h.st)
    except (Missing, Dead, tabular.No) as e:
        rep.undecided("sequence", name, repr(e))
        return
    rep.covered(h.ip)
    where = "arcticpy/roe.py: %s" % kind
    if t is None:
        rep.undecided("sequence", name, "table not followed")
        return
    rep.expect(len(t) == steps and all(len(r) == n for r in t), "sequence", "%s: every phase at each of %d steps" % (name, steps), where, "%s" % [len(r) for r in t])
    if len(t) != steps or any(len(r) != n for r in t):
        return
    used = {0}
    for s, row in enumerate(t):
        # trap pumping moves the clouds forward and back again
        moved = s if kind != "ROETrapPumping" else abs((s + n) % (2 * n) - n)
        at = "%s, step %d" % (name, s)
        high = [p for p in range(n) if row[p]["is_high"][0]]
        rep.expect(high == [moved % n], "held-once", "%s: the charge is held under one phase, %d" % (at, moved % n), where, "held under %s" % high)
        for p, ph in enumerate(row):
            to, share, cap = [float(x) for x in ph["release_to_which_pixels"]], [float(x) for x in ph["release_fraction_to_pixel"]], float(ph["capture_from_which_pixel"][0])
            used |= set(to)
            ap = "%s, phase %d" % (at, p)
            rep.expect(len(to) == len(share) and len(to) > 0, "shares", "%s: a share for each destination" % ap, where, "%s / %s" % (to, share))
            rep.expect(min(share) >= 0 and abs(sum(share) - 1) < 1e-9, "shares", "%s: shares are not negative and sum to one" % ap, where, "%s" % share)
            want = nearest(moved, p, n)
            if away and high and p > high[0]:
                # never on the readout side of the cloud
                want = [j + 1 for j in want]
            rep.expect(sorted(set(to)) == want and len(set(to)) == len(to), "routing", "%s: released to the nearest cloud%s" % (ap, "s" if len(want) > 1 else ""), where,
                       "released to %s instead of %s" % (to, want))
            if len(share) == len(want):
                rep.expect(max(share) - min(share) < 1e-9, "shares", "%s: clouds at the same distance get the same share" % ap, where, "%s" % share)
            if away:
                rep.expect(min(to) >= 0, "routing", "%s: nothing is released towards readout" % ap, where, "released to %s" % to)
            if p in high:
                used.add(cap)
                src = [j for j in range(-3, 4) if moved - n * j == p]
                rep.expect([cap] == src, "held-once", "%s: charge is captured from the cloud that is there" % ap, where, "captured from %s instead of %s" % (cap, src))
    seen_ = sorted(set(float(x) for x in tabular.np.ravel(seen)))
    rep.expect(used <= set(seen_), "reach", "%s: every pixel charge is taken from or released to is known to be accessed" % name, where, "%s, but uses %s" % (seen_, sorted(used)))


# ---------------------------------------------------------------- express multiplicities
def multiplicities(rep, mods, kind, first, dt, part, top):
    cases_ = []
    if kind == "ROETrapPumping":
        for pumps in range(1, 2 * top + 3):
            for express in range(0, pumps + 2):
                cases_.append(dict(pumps=pumps, express=express, offset=0, pixels=(1, 2)))
        cases_ += [dict(pumps=5, express=e, offset=0, pixels=(1, 4)) for e in (0, 2)]
    else:
        for n in range(1, top + 2):
            for express in range(0, n + 3):
                for offset in (0, 1, 4):
                    for tr in (None,) if kind == "ROE" else (None, 1, n, 2 * n + 1):
                        cases_.append(dict(express=express, offset=offset, pixels=(0, n), transfers=tr))
        cases_ += [dict(express=e, offset=o, pixels=(2, 5), transfers=None) for e in (0, 1, 3) for o in (0, 2)]
    for i, kw in enumerate(cases_):
        if i % 4 == part:
            case(rep, mods, kind, first, dt, kw)


def case(rep, mods, kind, first, dt, kw):
    lo, hi = kw["pixels"]
    name = "%s, %s%s, rows %d to %d, express %d%s%s%s" % (
        kind, dt, ", empty traps first" if first else "", lo, hi - 1, kw["express"], ", offset %d" % kw["offset"] if kw["offset"] else "",
        ", %d pumps" % kw["pumps"] if "pumps" in kw else "", ", %d transfers" % kw["transfers"] if kw.get("transfers") else "")
    where = "arcticpy/roe.py: %s.%s" % (kind, EXPR)
    try:
        m = mats(mods, kind, first, dt, unroll=80, **kw)
        E = tabular.sized(m.E.v, m.E.v.term, m.E.shape)
        M = tabular.sized(m.M.v, m.M.v.term, m.M.shape)
    except (Missing, Dead, tabular.No) as e:
        bad = [e for e in LAST[0].h.ip.events if e.kind == "indexerror" and not e.path]
        if isinstance(e, Dead) and bad:
            rep.violation("counted-once", "%s: the multiplicities can be computed" % name, bad[0].where, bad[0].data.get("what"))
            return
        rep.undecided("counted-once", name, repr(e))
        return
    rep.covered(m.h.ip)
    if E.ndim != 2:
        rep.undecided("counted-once", name, "not a table of passes and pixels")
        return
    rep.expect(E.shape[1] == hi - lo, "counted-once", "%s: a column for each row of the image" % name, where, "%s" % (E.shape,))
    rep.expect(bool((E >= 0).all()), "not-negative", "%s: no multiplicity is negative" % name, where, "%s" % E.tolist())
    if E.shape[1] != hi - lo:
        return
    if kind == "ROETrapPumping":
        want = [kw["pumps"]] * (hi - lo)
    elif kind == "ROE":
        want = [r + 1 + kw["offset"] for r in range(lo, hi)]
    else:
        want = [kw["transfers"] or hi + kw["offset"]] * (hi - lo)
    tot = E.sum(axis=0).tolist()
    rep.expect(all(abs(a - b) < 1e-6 for a, b in zip(tot, want)), "counted-once", "%s: over all passes every transfer of each pixel is counted once" % name, where,
               "counted %s instead of %s" % (tot, want))
    if dt == "int":
        rep.expect(bool((abs(E - tabular.np.round(E)) < 1e-9).all()), "counted-once", "%s: whole numbers of transfers" % name, where, "%s" % E.tolist())
    rep.expect(bool(((E > 0) == M.astype(bool)).all()) if E.shape == M.shape else False, "counted-once", "%s: the traps take part in exactly the transfers that count" % name, where,
               "%s / %s" % (E.tolist(), M.tolist()))
    if kw["express"]:
        n = E.shape[0] if kind != "ROETrapPumping" else E.shape[0] // (hi - lo)
        full = hi + kw["offset"] if kind == "ROE" else want[0]
        if kind != "ROE" or not first:
            rep.expect(n <= min(kw["express"], full) + (1 if first else 0), "passes", "%s: no more passes than asked for" % name, where, "%d passes" % n)
    else:
        rep.expect(bool((E <= 1 + 1e-9).all()), "passes", "%s: every transfer is computed" % name, where, "%s" % E.tolist())
    if first and kind != "ROEChargeInjection" and not kw["offset"]:
        one = [c[c > 0][0] if (c > 0).any() else 1 for c in E.T]
        rep.expect(all(abs(x - 1) < 1e-9 for x in one), "first-transfer", "%s: the transfer through empty traps counts once only" % name, where, "counts %s" % one)
