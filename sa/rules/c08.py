"""Serial clocking is parallel clocking of the transposed image, after the parallel pass; the image keeps its shape."""
from drv import *
from replay import each_small, judge_cells, judge_order, judge_steps

CONF = [
    ("parallel and serial", dict()),
    ("parallel only", dict(direction="parallel")),
    ("serial only", dict(direction="serial")),
    ("frame", dict(frame=True)),
    ("frame, serial only", dict(frame=True, direction="serial")),
    ("time window", dict(time=True)),
    ("no traps", dict(direction="none")),
    ("no traps, frame", dict(direction="none", frame=True)),
    ("whole image", dict(window=None)),
]


def run(mods, rep):
    k = kernel_name(mods)
    if k is None:
        rep.undecided("orientation", "the clocking kernel", "not found from the call graph")
    else:
        rep.parallel([(one, (mods, k, name, kw)) for name, kw in CONF])
    rep.parallel(each_small(mods, "replay", replayed, lambda kw: kw.get("serial"), rep.tier))


def replayed(*a):
    judge_steps(*a)
    judge_order(*a)
    judge_cells(*a)


def plain(t):
    """without selections of everything"""
    mp = {}
    for a in T.atoms_of(t):
        if a.op == "select" and full(a.args[1]):
            mp[a.id] = plain(a.args[0])
    return T.subst(t, mp) if mp else t


def full(reg):
    return "slice(None, None, None)" in str(reg) and not str(reg).replace("slice(None, None, None)", "").strip("(), ")


KNOWN = ("asym", "T", "select", "ite", "amb", "flip")


def definite(t):
    """made only of the image, the passes and rearrangements"""
    return not unknown_term(t) and all(a.op in KNOWN or a.op.startswith("KER") or (a.op == "sym" and not a.unknown) or a.op == "slice"
                                       for a in T.atoms_of(t))


def one(rep, mods, k, name, kw):
    log = []
    try:
        s = scenario(mods, cuts={k: cut_kernel(log)}, **kw)
    except (Missing, Dead) as e:
        rep.undecided("orientation", name, repr(e))
        return
    h = s.h
    rep.covered(h.ip)
    where = "arcticpy/main.py: add_cti"
    img = h.ip.arr(s.image.locs()[0], s.before).v.term
    shape = h.ip.arr(s.image.locs()[0], s.before).shape
    dirs = [d for d in ("parallel", "serial") if d + "_traps" in s.kw]
    if len(log) != len(dirs):
        rep.undecided("orientation", name, "%d passes recognised" % len(log))
        return
    cur = img
    for d, c in zip(dirs, log):
        tr = d == "serial"
        want = exprs_T(cur) if tr else cur
        w = "%s: the %s pass works on the %simage as left by what precedes it" % (name, d, "transposed " if tr else "")
        got = plain(c["content"])
        judge(rep, w, got, want, where)
        if c["shape"]:
            ws = shape[::-1] if tr else shape
            ok = [T.same(a.term, b.term) if a is not None and a.term is not None else None for a, b in zip(c["shape"], ws)]
            if all(x is True for x in ok):
                rep.ok("shape", "%s: shape of the array given to the %s pass" % (name, d), where)
        cur = exprs_T(c["out"]) if tr else c["out"]
    rs = [h.ip.arr(l, h.st) for l in s.result.locs() if isinstance(h.st.heap.get(l), Arr)]
    if len(rs) != 1 or s.result.unk or rs[0].v.term is None:
        rep.undecided("orientation", "%s: result" % name, "not modelled")
        return
    judge(rep, "%s: the result is the outcome of the last pass in the original orientation" % name, plain(rs[0].v.term), cur, where)
    for i, (a, b) in enumerate(zip(rs[0].shape or (), shape)):
        if a is None or a.term is None or unknown_term(a.term):
            rep.undecided("shape", "%s: extent %d of the result" % (name, i), "not modelled")
        else:
            rep.expect(T.same(a.term, b.term) is True or (None if len(dirs) and T.same(a.term, b.term) is None else False), "shape", "%s: extent %d of the result is that of the image" % (name, i), where, str(a.term))


def exprs_T(t):
    a = single_atom(t)
    if a is not None and a.op == "T":
        return a.args[0]
    r = of_atom(atom("T", (t,)))
    ARRND.setdefault(single_atom(r).id, 2)
    return r


def judge(rep, w, got, want, where):
    if got is want or T.same(got, want) is True:
        rep.ok("orientation", w, where)
    elif definite(got):
        rep.violation("orientation", w + " -- it does not", where, "found %s, expected %s" % (got, want))
    else:
        rep.undecided("orientation", w, str(got)[:300])
