"""A time window selects what is recorded; what the traps experience, and when their state is saved or emptied, does not depend on it."""
from mats import *
from graph import *


def run(mods, rep):
    each(rep, mods, "traps-see-all", kernel)
    rep.parallel([(matrices, (mods, v)) for v in VARIANTS if v[3]] + [(manager, (mods, c, k)) for c, k in MANAGERS])


def timed(e):
    """conditions under which an event happens that involve the recorded multiplicities"""
    out = []
    for c in e.path or ():
        if "time" in c[2] or isinstance(c[0], Term) and any(a.op == "asym" and a.args[0] == "EXPRESS" for a in T.atoms_of(c[0])):
            out.append(str(c[0])[:300])
    return out


def kernel(rep, k, name, bs):
    evs = [e for e in k.events if e.kind in ("step", "trapop")]
    names = {"step": "the traps of a phase act", "restore": "the state is restored", "save": "the state is saved", "empty": "the traps are emptied"}
    for e in evs:
        what = names.get(e.kind if e.kind == "step" else e.data["what"])
        t = timed(e)
        if t:
            rep.violation("traps-see-all", "%s: whether %s depends on the recorded transfers" % (name, what), e.where, "; ".join(t))
        else:
            rep.ok("traps-see-all", "%s: whether %s does not depend on the recorded transfers" % (name, what), e.where)
    # the rows visited
    for b in bs:
        px = pixel(k, b)
        if px is None:
            rep.undecided("traps-see-all", name, "the pixel acted on was not identified")
            continue
        for what, t in (("pass", px[0]), ("pixel", px[1])):
            src = [a for a in T.atoms_of(t) if a.op == "asym" and a.args[0] == "EXPRESS"]
            bd = []
            for a in T.atoms_of(t):
                if a.op == "idx" and a.id in T.SYMBOUNDS and T.SYMBOUNDS[a.id][1] is not None:
                    bd += [x for x in T.atoms_of(T.SYMBOUNDS[a.id][1]) if x.op == "asym" and x.args[0] == "EXPRESS"]
            if src or bd:
                rep.violation("traps-see-all", "%s: which %s the traps experience is taken from the recorded multiplicities" % (name, what), b.events[0].where, str(t)[:400])
            else:
                rep.ok("traps-see-all", "%s: which %s the traps experience" % (name, what), b.events[0].where)
    # when states are saved is decided from the monitored transfers
    for t in k.save_content:
        names_ = set(a.args[0] for a in T.atoms_of(t) if a.op == "asym") if t is not None else set()
        rep.expect(False if "EXPRESS" in names_ else True if "MONITOR" in names_ else None, "saving", "%s: when to save is decided from the transfers that are monitored, not those recorded" % name,
                   bs[0].events[0].where, "decided from %s" % str(t)[:200])


def matrices(rep, mods, v):
    name = vname(v)
    try:
        m = mats(mods, *v)
        m0 = mats(mods, *(v[:3] + (False,)))
    except (Missing, Dead) as e:
        rep.undecided("monitoring", name, repr(e))
        return
    rep.covered(m.h.ip)
    dep = "time" in m.M.v.deps or (m.M.v.term is not None and any(a.op == "sym" and a.args[0] in ("time_start", "time_len") for a in T.atoms_of(m.M.v.term)))
    a, b = m.M.v.term, m0.M.v.term
    same = None if a is None or b is None else T.same(a, b)
    if dep:
        rep.violation("monitoring", "%s: which transfers are monitored depends on the time window" % name, m.where, str(a)[:500])
    elif same is False and not vague(a) and not vague(b):
        rep.violation("monitoring", "%s: which transfers are monitored differs when there is a time window" % name, m.where, "%s / %s" % (str(a)[:400], str(b)[:400]))
    else:
        rep.ok("monitoring", "%s: which transfers are monitored does not depend on the time window" % name, m.where)
    for i in (0, 1):
        x, y = [q.M.shape[i].term if q.M.shape and q.M.shape[i] is not None else None for q in (m, m0)]
        if x is not None and y is not None:
            r = T.same(x, y)
            rep.expect(None if r is False and (unknown_term(x) or unknown_term(y)) else r, "monitoring", "%s: extent %d of the monitoring matrix" % (name, i), m.where, "%s / %s" % (x, y))
        for q, w in ((m, "with"), (m0, "without")):
            x, y = [z.shape[i].term if z.shape and len(z.shape) == 2 and z.shape[i] is not None else None for z in (q.E, q.M)]
            if x is None or y is None:
                continue
            r = T.same(x, y)
            rep.expect(None if r is False and (unknown_term(x) or unknown_term(y)) else r, "monitoring", "%s: extent %d of both matrices agree %s the window" % (name, i, w), m.where, "%s / %s" % (x, y))


def vague(t):
    """contains names made up on the way, which differ from one analysis to the next"""
    return any(a.op in ("amb", "phi") or a.op == "sym" and "#" in a.args[0] for a in T.atoms_of(t)) or "#" in T.show(t, 40)


def manager(rep, mods, cls, kind):
    """the managers' state and result do not depend on the multiplicity that is recorded"""
    try:
        h = H(mods, {})
        tm = mk_manager(h, cls, kind)
        ccd = mk_ccd(h)
        d = frozenset(["mult"])
        n0 = len(h.ip.events)
        r = h.meth(tm, STEP, n_free_electrons=h.sym("n_free", 0, unit=CHARGE), ccd_filling_function=filling(h, ccd), dwell_time=h.sym("dwell", 0, unit=TIME),
                   express_multiplier=h.sym("mult", 0, deps=d))
    except (Missing, Dead) as e:
        rep.undecided("managers", cls, repr(e))
        return
    rep.covered(h.ip)
    where = "arcticpy/trap_managers.py: %s.%s" % (cls, STEP)
    evs = h.ip.events[n0:]

    def uses(v):
        return "mult" in v.deps or v.term is not None and any(a.op == "sym" and a.args[0] == "mult" for a in T.atoms_of(v.term))
    rep.expect(not uses(r), "managers", "%s: what is reported does not depend on the recorded multiplicity" % cls, where)
    for l, p in arrays(h, h.st, tm).items():
        rep.expect(not uses(h.ip.arr(l, h.st).v), "managers", "%s: %s after a step does not depend on the recorded multiplicity" % (cls, p), where)
    for e in evs:
        if e.kind in ("arrstore", "attrstore") and any("mult" in c[2] for c in e.path or ()):
            rep.violation("managers", "%s: whether the state changes depends on the recorded multiplicity" % cls, e.where, str(e.path)[:300])
