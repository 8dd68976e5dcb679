"""Whole-program callers of the public entry points."""
from harness import *


def mk_roe(h, kind="ROE", tag="", steps=None, **kw):
    d = frozenset(["roe" + tag])
    if steps == 1:
        dw = h.put(Lst([h.sym("dwell0" + tag, 0, unit=TIME, deps=d)], None, None, "list"))
    elif steps:
        dw = h.put(Lst([h.sym("dwell%d%s" % (i, tag), 0, unit=TIME, deps=d) for i in range(steps)], None, None, "list"))
    else:
        dw = h.put(Lst(None, h.sym("dwell" + tag, 0, unit=TIME, deps=d), h.sym("n_steps" + tag, 1, isint=True), "list"))
    a = dict(dwell_times=dw)
    for k in ("empty_traps_for_first_transfers", "empty_traps_between_columns", "force_release_away_from_readout"):
        a[k] = h.sym(k + tag, 0, 1, isint=True, isbool=True, deps=d)
    if kind == "ROEChargeInjection":
        a.pop("empty_traps_for_first_transfers")
        a["n_active_pixels"] = h.sym("n_active_pixels" + tag, 1, isint=True)
    if kind == "ROETrapPumping":
        a = dict(dwell_times=dw, n_pumps=h.sym("n_pumps" + tag, 1, isint=True), empty_traps_for_first_transfers=a["empty_traps_for_first_transfers"])
    a.update(kw)
    c = h.cls(kind)
    if c is None:
        raise Missing("class " + kind)
    init = c.find("__init__")[0]
    node = init[1] if isinstance(init, tuple) else init
    node = getattr(node, "node", node)
    names = {x.arg for x in node.args.args + node.args.kwonlyargs} if hasattr(node, "args") else set(a)
    return h.new(kind, **{k: v for k, v in a.items() if k in names})


def rng(h, name, lo=0):
    """a range of consecutive non-negative pixels"""
    a = h.sym(name + "_start", lo, isint=True)
    b = h.ip.binop(ast.Add(), a, h.sym(name + "_len", 1, isint=True), h.st, NODE)
    return h.put(Rng(a, b, vnum(1)))


def mk_ccd2(h, tag="", phases=None, surface=False):
    d = frozenset(["ccd" + tag])
    notch = h.sym("notch" + tag, 0, unit=CHARGE, deps=d)
    full = h.ip.binop(ast.Add(), notch, h.sym("well_range" + tag, 0, unit=CHARGE, deps=d), h.st, NODE)
    power = h.sym("fill_power" + tag, 0, unit=ONEU, deps=d)
    bloom = h.sym("bloom" + tag, 0, unit=CHARGE, deps=d) if surface else VNONE
    if phases == 1:
        fr = vnum(1)
    else:
        fr = h.put(Lst(None, h.sym("phase_fraction" + tag, 0, 1, unit=ONEU, deps=d), h.sym("n_phases" + tag, 1, isint=True), "list"))
    return h.new("CCD", fr, full, notch, power, bloom)


def trapset(h, kind, tag=""):
    if kind == "single":
        return mk_trap(h, "Trap", tag)
    if kind == "list":
        return mk_traps(h, "Trap", tag)
    if kind == "instant":
        return mk_traps(h, "TrapInstantCapture", tag)
    if kind == "lognormal":
        return mk_traps(h, "TrapLogNormalLifetimeContinuum", tag)
    if kind == "abstract":
        return mk_traps(h, "TrapLifetimeContinuumAbstract", tag)
    if kind == "groups":
        return h.put(Lst([mk_traps(h, "Trap", tag), mk_traps(h, "Trap", tag + "s", surface=True), mk_traps(h, "TrapInstantCapture", tag + "i"),
                          mk_traps(h, "TrapLogNormalLifetimeContinuum", tag + "c")], None, None, "list"))
    raise Missing(kind)


STEP = "n_electrons_released_and_captured"


def cut_step(log=None):
    """summary of one release-and-capture step of a trap manager: its own trap state changes, a net charge is returned
    (the managers themselves are analysed separately, from an arbitrary state)"""

    def cut(ip, f, env, st, node):
        vals = list(env.values())
        me = vals[0]
        deps = EMPTY
        for v in vals[1:]:
            deps |= v.deps
        names = []
        for l in me.locs():
            o = st.heap.get(l)
            if not isinstance(o, Inst):
                continue
            w = o.attrs.get("watermarks")
            names.append(o.cls.name)
            if w is None:
                continue
            for k in w.locs():
                a = st.heap.get(k)
                if isinstance(a, Arr):
                    deps |= a.v.deps
                    t = aatom("asym", ("W'",), 2, 0, INF)
                    st.heap[k] = a.but(v=a.v.but(term=t, deps=a.v.deps | deps, unk=False), cells={})
            for v in o.attrs.values():
                deps |= v.deps
        r = V(term=app("REL", *[v.term for v in vals[1:] if v.term is not None]), unit=CHARGE, deps=deps)
        if log is not None:
            log.append((dict(env), list(me.locs()), r, list(ip.ctl) if hasattr(ip, "ctl") else None, node))
        return r
    return cut


def cut_trapped(ip, f, env, st, node):
    """the charge held by a trap state (checked to be a pure function of the state)"""
    w = list(env.values())[1] if len(env) > 1 else None
    if w is None or not w.locs():
        return NotImplemented
    deps, ts = EMPTY, []
    for l in w.locs():
        a = ip.arr(l, st)
        deps |= a.v.deps
        ts.append(a.v.term if a.v.term is not None else fresh("w"))
    return V(term=app("NT", *ts), lo=-INF, unit=CHARGE, deps=deps)


class Scenario:
    pass


def scenario(mods, entry="add_cti", direction="both", roe="ROE", traps="list", steps=None, phases=None, window="range", time=False,
             frame=False, express=None, opts=None, cuts=None, image_lo=0, n_iter=None, roe_default=False, omit=()):
    s = Scenario()
    s.log = []
    if cuts is None:
        cuts = {STEP: cut_step(s.log), "n_trapped_electrons_from_watermarks": cut_trapped}
    h = s.h = H(mods, opts, cuts)
    s.image = h.image("image", frame=frame, lo=image_lo)
    kw = {}
    for d in ("parallel", "serial"):
        if direction not in (d, "both"):
            continue
        kw[d + "_ccd"] = mk_ccd2(h, "_" + d, phases)
        kw[d + "_roe"] = VNONE if roe_default else mk_roe(h, roe, "_" + d, steps)
        kw[d + "_traps"] = trapset(h, traps, "_" + d)
        kw[d + "_express"] = h.sym(d + "_express", 0, isint=True, deps=frozenset(["express"])) if express is None else express
        kw[d + "_offset"] = h.sym(d + "_offset", 0, isint=True, deps=frozenset(["offset"]))
        if window == "range":
            kw[d + "_window_range"] = rng(h, d + "_window")
        elif window == "int":
            kw[d + "_window_range"] = h.sym(d + "_window", 0, isint=True)
    if time:
        kw["time_window_range"] = rng(h, "time_window")
    if entry == "remove_cti":
        kw["iterations"] = n_iter or h.sym("iterations", 1, isint=True)
    for n in omit:
        kw.pop(n, None)
    s.omit = tuple(omit)
    s.kw = kw
    s.args = [s.image] + list(kw.values())
    s.before = h.st.copy()
    s.n0 = len(h.ip.events)
    s.result = h.call(entry, s.image, **kw)
    s.events = h.ip.events[s.n0:]
    return s


def reach(ip, st, roots):
    """all heap locations reachable from the values"""
    seen = set()
    work = [l for v in roots for l in v.locs()]
    while work:
        l = work.pop()
        if l in seen or l not in st.heap:
            continue
        seen.add(l)
        o = st.heap[l]
        for v in kids(o):
            work += v.locs()
    return seen


def kids(o):
    out = []

    def add_(x):
        if isinstance(x, V):
            out.append(x)
        elif isinstance(x, Loc):
            out.append(vref(x))
        elif isinstance(x, (list, tuple)):
            for y in x:
                add_(y)
        elif isinstance(x, dict):
            for y in x.values():
                add_(y)
    if hasattr(o, "__dict__"):
        for x in vars(o).values():
            add_(x)
    return out
