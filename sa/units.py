"""Dimensional consistency of every operation reachable from the public entry points."""
from suite import *


def result_unit(run):
    """(what, unit found, expected) of what an entry point returns"""
    h, r = run.h, run.result
    if r is None:
        return
    vals = []
    for l in r.locs():
        o = h.st.heap.get(l)
        if isinstance(o, Arr):
            a = h.ip.arr(l, h.st)
            vals += [a.v] if a.col0 is None else [a.v]
    if r.term is not None and not r.refs:
        vals.append(r)
    want = None
    n = run.name
    if n.startswith(("add_cti", "remove_cti")):
        want = CHARGE
    elif n.startswith(("Trap", "TrapManager")):
        m = n.split(".")[-1]
        want = {"n_electrons_released_and_captured": CHARGE, "n_electrons_released": CHARGE, "n_electrons_captured": CHARGE,
                "n_trapped_electrons_from_watermarks": CHARGE, "fill_fraction_from_time_elapsed": ONEU, "time_elapsed_from_fill_fraction": TIME,
                "electrons_released_from_electrons_and_dwell_time": CHARGE, "electrons_released_from_time_elapsed_and_dwell_time": None}.get(m)
    elif n.startswith("CCD."):
        want = ONEU
    if want is None:
        return
    for v in vals:
        yield n, v.unit, want


def unit_rule(mods, rep, axis, rule):
    rep.parallel([(_one, (mods, name, f, axis, rule)) for name, f in jobs(mods)])


def _one(rep, mods, name, f, axis, rule):
    quantity = ("time", "charge")[axis]
    try:
        run = f()
    except (Missing, Dead):
        return
    rep.covered(run.h.ip)
    bad = 0
    for e in run.h.ip.events:      # building the traps, detector and clock sequence too
        if e.kind != "unit":
            continue
        a, b = e.data["a"], e.data["b"]
        ok = True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and a[0] != "log" and b[0] != "log":
            ok = a[axis] == b[axis]
        elif isinstance(a, tuple) and a[0] == "log" and isinstance(b, tuple) and b[0] == "log":
            ok = a[1][axis] == b[1][axis]
        elif isinstance(a, tuple) and a[0] != "log":
            ok = not a[axis]
        if not ok:
            bad += 1
            rep.violation(rule, "%s of quantities that scale differently with the unit of %s" % (e.data["what"], quantity), e.where,
                          "dimensions (time, charge): %s and %s; %s" % (a, b, run.name))
    n = run.h.ip.stats["unit"] if hasattr(run.h.ip, "stats") and "unit" in run.h.ip.stats else None
    if not bad:
        rep.ok(rule, "%s: every sum, comparison and transcendental argument is consistent in %s%s" % (run.name, quantity, "" if n is None else " (%d operations)" % n), "")
    m = name.split(".")[-1]
    if m in CONV:
        for e in run.events:
            if e.kind == "arrstore" and e.data["region"] is not None and isinstance(e.data["value"], V) and isinstance(e.data["value"].unit, tuple):
                u = e.data["value"].unit
                rep.expect(u[axis] == CONV[m][axis] or (u[axis] == 0 and "slice" in str(e.data["region"])) or u == "any", rule + "-result",
                           "%s: the converted values scale as expected with the unit of %s" % (name, quantity), e.where, "dimensions %s" % (u,))
    for w, got, want in result_unit(run):
        if got == "any" or got == want:
            rep.ok(rule + "-result", "%s: the result scales as expected with the unit of %s" % (w, quantity))
        elif isinstance(got, tuple) and got[0] != "log" and len(got) == 2:
            rep.expect(got[axis] == want[axis], rule + "-result", "%s: the result scales as expected with the unit of %s" % (w, quantity), w,
                       "dimensions (time, charge): found %s, expected %s" % (got, want))
        else:
            rep.undecided(rule + "-result", "%s: the result" % w, "unit %s" % (got,))
