"""The clocking kernel alone: a driver call in which the clock sequence, the express matrices, the set of trap managers and the
managers' step are replaced by named unknowns, so that what remains is the routing of charge done by the kernel itself."""
from drv import *

EXPR = "express_matrix_and_monitor_traps_matrix_from_pixels_and_express"
SAVE = "save_trap_states_matrix_from_express_matrix"
ALL = "AllTrapManager"


class K:
    pass


def kernel_run(mods, dwell=(1,), fractions=None, n_groups=1, release=((0,),), opts=None, image_lo=-INF, window="range", between=None, serial=False):
    """one pass in one direction; dwell: constants (one per step); fractions: constants (one per phase);
    release: the destinations, as constants, of each phase of each step, flattened (the last is repeated)"""
    k = K()
    k.step_log = []
    fractions = list(fractions or [1])
    S, P = len(dwell), len(fractions)

    def step(ip, f, env, st, node):
        vals = list(env.values())
        ls = [l for l in vals[0].locs() if isinstance(st.heap.get(l), Inst)]
        who = k.who.get(ls[0]) if len(ls) == 1 and len(vals[0].refs) == 1 else None
        deps = EMPTY
        for v in vals[1:]:
            deps |= v.deps
        k.n_calls += 1
        r = V(term=app("REL", num(k.n_calls), sym("grp%s" % (who,))), unit=CHARGE, deps=deps)
        ip.emit("step", node, st, who=who, result=r.term, env=dict(env), heap=dict(st.heap), loops=tuple(ip.loopstack))
        return r
    k.n_calls = 0

    def matrices(ip, f, env, st, node):
        for n in ("n_passes", "n_pixels"):
            T.SYMBOUNDS[single_atom(sym(n)).id] = (ONE, None)
        sh = (V(term=sym("n_passes"), lo=1, isint=True, unit=ONEU), V(term=sym("n_pixels"), lo=1, isint=True, unit=ONEU))
        te, tm = aatom("asym", ("EXPRESS",), 2, 0, INF), aatom("asym", ("MONITOR",), 2, 0, 1, True)
        e = vref(ip.alloc(st, node, Arr(V(term=te, lo=0, unit=ONEU, deps=frozenset(["express", "time"])), sh, None, "f"), "E"))
        m = vref(ip.alloc(st, node, Arr(V(term=tm, lo=0, hi=1, unit=ONEU, isint=True, isbool=True, deps=frozenset(["monitor"])), sh, None, "b"), "M"))
        k.matrix_env = dict(env)
        return vref(ip.alloc(st, node, Lst([e, m], None, None, "tuple"), "EM"))

    def save(ip, f, env, st, node):
        sh = (V(term=sym("n_passes"), lo=1, isint=True, unit=ONEU), V(term=sym("n_pixels"), lo=1, isint=True, unit=ONEU))
        t = aatom("asym", ("SAVE",), 2, 0, 1, True)
        k.save_arg = list(env.values())[1] if len(env) > 1 else None
        k.save_content = [ip.arr(l, st).v.term for l in k.save_arg.locs()] if k.save_arg is not None else []
        return vref(ip.alloc(st, node, Arr(V(term=t, lo=0, hi=1, unit=ONEU, isint=True, isbool=True, deps=frozenset(["monitor"])), sh, None, "b"), "S"))

    def init(ip, f, env, st, node):
        if f.cls is None or f.cls.name != ALL:
            return NotImplemented
        k.all_env = dict(env)
        me = list(env.values())[0].locs()[0]
        o = st.heap[me]
        a = dict(o.attrs)
        for n in ("_saved_data", "_n_electrons_trapped_in_save", "_n_electrons_trapped_previously"):
            a.setdefault(n, VNONE)
        a["data"] = k.data
        st.heap[me] = o.but(attrs=a)
        return VNONE

    def op(name):
        def cut(ip, f, env, st, node):
            if f.cls is None or f.cls.name != ALL:
                return NotImplemented
            ip.emit("trapop", node, st, what=name, loops=tuple(ip.loopstack), heap=dict(st.heap))
            return VNONE
        return cut

    def accessed(ip, f, env, st, node):
        els = [vnum(x) for x in k.accessed]
        t = aatom("vec", (tuple(x.term for x in els),), 1, min(k.accessed), max(k.accessed), True)
        return vref(ip.alloc(st, node, Arr(V(term=t, lo=min(k.accessed), hi=max(k.accessed), isint=True, unit=ONEU), (vnum(len(els)),), None, "i"), "acc"))

    def fill(ip, f, env, st, node):
        vals = [v for n, v in env.items()][1:]
        if f.cls is None or len(vals) != 1 or vals[0].term is None:
            return NotImplemented
        return V(term=app("FILL", vals[0].term))

    def n_phases(ip, f, env, st, node):
        # the phases are those of the clock sequence given below, whatever its number of steps (a user's own clock sequence)
        return vnum(P) if f.cls is not None and any(isinstance(c, Class) and c.name == "ROEAbstract" for c in f.cls.mro()) else NotImplemented

    cuts = {"n_phases": n_phases, "well_filling_function": fill, STEP: step, EXPR: matrices, SAVE: save, "__init__": init, "save": op("save"), "restore": op("restore"),
            "empty_all_traps": op("empty"), "pixels_accessed_during_clocking": accessed}
    h = k.h = H(mods, dict({"exact": True, "unroll": 8}, **(opts or {})), cuts)
    k.image = h.image("image", lo=image_lo)
    kw = {}
    if between is not None:
        kw["empty_traps_between_columns"] = vnum(between)
    roe = k.roe = mk_roe(h, "ROE", "", None, dwell_times=h.put(Lst([vnum(x) for x in dwell], None, None, "list")), **kw)
    k.between = h.get(roe, "empty_traps_between_columns")
    seq, k.phases = [], {}
    acc = set()
    for s in range(S):
        row = []
        for p in range(P):
            n = "%d_%d" % (s, p)
            to_ = release[min(s * P + p, len(release) - 1)]
            cap = (1 if s > 0 else 0) if P > 1 or S > 1 else 0
            acc |= set(to_) | {cap}
            hi = h.sym("high" + n, 0, 1, isint=True, isbool=True, deps=frozenset(["roe"]))
            fr = [h.sym("share%s_%d" % (n, i), 0, 1, deps=frozenset(["roe"])) for i in range(len(to_))]
            ph = h.new("ROEPhase", hi, vnum(cap), h.put(Lst([vnum(x) for x in to_], None, None, "list")), h.put(Lst(fr, None, None, "list")))
            k.phases[s, p] = dict(high=hi.term, capture=cap, to=to_, share=[x.term for x in fr])
            row.append(ph)
        seq.append(h.put(Lst(row, None, None, "list")))
    k.accessed = sorted(acc)
    if "clock_sequence" not in h.st.heap[roe.locs()[0]].attrs:
        raise Missing("clock_sequence")
    h.set(roe, "clock_sequence", h.put(Lst(seq, None, None, "list")))
    if "pixels_accessed_during_clocking" in h.st.heap[roe.locs()[0]].attrs:
        els = tuple(num(x) for x in k.accessed)
        h.set(roe, "pixels_accessed_during_clocking", h.put(Arr(V(term=aatom("vec", (els,), 1, min(k.accessed), max(k.accessed), True), lo=min(k.accessed),
                                                                    hi=max(k.accessed), isint=True, unit=ONEU), (vnum(len(els)),), None, "i")))
    frs = h.put(Lst([vnum(x) for x in fractions], None, None, "list"))
    k.ccd = h.new("CCD", frs, h.sym("well", 0, unit=CHARGE), vnum(0), h.sym("power", 0, unit=ONEU))
    # stand-ins for the managers: one per phase and group, told apart by their identity
    k.who = {}
    rows = []
    for p in range(P):
        row = []
        for g in range(n_groups):
            tm = h.new("TrapManager", mk_traps(h, "Trap", "_m%d%d" % (p, g), n=vnum(1)), vnum(1))
            k.who[tm.locs()[0]] = (p, g)
            row.append(tm)
        rows.append(h.put(Lst(row, None, None, "list")))
    if len(k.who) != P * n_groups or h.cls(ALL) is None:
        raise Missing(ALL)
    k.data = h.put(Lst(rows, None, None, "list"))
    k.traps = h.put(Lst([mk_traps(h, "Trap", "_g%d" % g) for g in range(n_groups)], None, None, "list"))
    d = "serial" if serial else "parallel"
    kw = {d + "_ccd": k.ccd, d + "_roe": roe, d + "_traps": k.traps, d + "_express": h.sym("express", 0, isint=True), d + "_offset": h.sym("offset", 0, isint=True)}
    if window == "range":
        kw[d + "_window_range"] = rng(h, "window")
        kw[("parallel" if serial else "serial") + "_window_range"] = rng(h, "columns")
    k.kw = kw
    k.dwell, k.fractions, k.n_groups, k.S, k.P = dwell, fractions, n_groups, S, P
    k.before = h.st.copy()
    n0 = len(h.ip.events)
    k.result = h.call("add_cti", k.image, **kw)
    k.events = h.ip.events[n0:]
    return k


# ---------------------------------------------------------------- what the kernel did, step by step
class Block:
    """all managers of one phase at one step: the charge before, the calls, the charge after"""


def image_loc(k):
    """the buffer that the kernel updates: the only two-dimensional array stored to between the managers' steps"""
    out = set()
    started = False
    for e in k.events:
        started = started or e.kind == "step"
        if started and e.kind == "arrstore" and e.data.get("loc") is not None:
            o = k.h.st.heap.get(e.data["loc"])
            if isinstance(o, Arr) and len(o.shape or ()) == 2:
                out.add(e.data["loc"])
    return out.pop() if len(out) == 1 else None


def blocks(k):
    """[(Block)] in program order; None when the events cannot be attributed"""
    steps = [e for e in k.events if e.kind == "step"]
    if not steps or any(e.data["who"] is None for e in steps):
        return None
    out = []
    for e in steps:
        p, g = e.data["who"]
        b = out[-1] if out else None
        if b is None or b.p != p or g in b.groups:
            b = Block()
            b.p, b.groups, b.events = p, [], []
            out.append(b)
        b.groups.append(g)
        b.events.append(e)
    ops = [e for e in k.events if e.kind == "trapop" and e.data["what"] == "save"]
    loc = image_loc(k)
    for i, b in enumerate(out):
        b.before = content(k, b.events[0].data["heap"], loc)
        nxt = out[i + 1].events[0] if i + 1 < len(out) else None
        if nxt is None:
            pos = k.events.index(b.events[-1])
            later = [e for e in k.events[pos:] if e.kind == "trapop"]
            nxt = later[0] if later else None
        b.after = content(k, nxt.data["heap"], loc) if nxt is not None else None
    return out


def content(k, heap, loc):
    o = heap.get(loc)
    if not isinstance(o, Arr):
        return None
    st = k.h.st.copy()
    st.heap = dict(heap)
    t = k.h.ip.arr(loc, st).v.term
    # a loop that was not followed step by step: what it does to the pixels is not known
    if t is not None and any(a.op == "loop" for a in T.atoms_of(t)):
        return None
    return t


def pixel(k, b):
    """(express index term, pixel index term, row term, column term) of a block, from the multiplier it is given and the charge it reads"""
    env = b.events[0].data["env"]
    m = env.get("express_multiplier")
    e = [a for a in T.atoms_of(m.term) if a.op == "select" and "EXPRESS" in str(a.args[0])] if m is not None and m.term is not None else []
    e = [a for a in e if len(a.args[1]) == 2]
    if len(e) != 1:
        return None
    j, r = e[0].args[1]
    n = env.get("n_free_electrons")
    cols = set()
    for a in T.atoms_of(n.term) if n is not None and n.term is not None else []:
        if a.op == "select" and len(a.args[1]) == 2 and a.id != e[0].id and not any(is_slice(x) for x in a.args[1]):
            s = str(a.args[0])
            if not s.startswith("asym(EXPRESS") and not s.startswith("asym(MONITOR"):
                cols.add(a.args[1][1])
    if len(cols) != 1:
        return None
    return j, r, add(sym("window_start"), r), cols.pop()


def is_slice(x):
    a = single_atom(x)
    return a is not None and a.op == "slice"


def expected_order(k):
    return [(s, p) for s in range(k.S) if k.dwell[s] > 0 for p in range(k.P)]


CONFIGS = [
    ("one step, one phase", dict()),
    ("one step, one phase, two trap groups", dict(n_groups=2)),
    ("released to the next pixel too", dict(release=((0, 1),))),
    ("released towards the readout too", dict(release=((-1, 0),))),
    ("three steps", dict(dwell=(2, 3, 5))),
    ("two phases", dict(fractions=(0.25, 0.75), release=((0,), (0, 1)))),
    ("two steps, two phases, two groups", dict(dwell=(2, 3), fractions=(0.25, 0.75), n_groups=2, release=((0,), (0, 1), (0,), (-1,)))),
    ("a step without dwell time", dict(dwell=(2, 0, 3))),
    ("steps of very different lengths", dict(dwell=(2.0 ** -24, 3))),
    ("phases of very different widths", dict(fractions=(2.0 ** -24, 1 - 2.0 ** -24), release=((0,), (0, 1)))),
    ("serial", dict(serial=True, n_groups=2)),
    ("whole image", dict(window=None)),
]


def each(rep, mods, rule, fn):
    rep.parallel([(_one, (mods, name, kw, rule, fn)) for name, kw in CONFIGS])


def _one(rep, mods, name, kw, rule, fn):
    try:
        k = kernel_run(mods, **kw)
    except (Missing, Dead) as e:
        rep.undecided(rule, name, repr(e))
        return
    rep.covered(k.h.ip)
    bs = blocks(k)
    if not bs or image_loc(k) is None:
        rep.undecided(rule, name, "the steps of the managers or the image buffer could not be identified")
        return
    fn(rep, k, name, bs)


def image_stores(k):
    """stores into the image buffer from the kernel's start to its end"""
    loc = image_loc(k)
    return [e for e in k.events if e.kind == "arrstore" and e.data.get("loc") == loc]


def accounted(k, bs):
    """the stores that lie between the first call of a block and what follows it: (inside, outside)"""
    pos = {id(e): i for i, e in enumerate(k.events)}
    spans = []
    for i, b in enumerate(bs):
        p0 = pos[id(b.events[0])]
        p1 = pos[id(bs[i + 1].events[0])] if i + 1 < len(bs) else None
        if p1 is None:
            p1 = min([pos[id(e)] for e in k.events if e.kind == "trapop" and pos[id(e)] > p0] or [p0])
        spans.append((p0, p1))
    ins, outs = [], []
    for e in image_stores(k):
        p = pos[id(e)]
        (ins if any(a < p < b for a, b in spans) else outs).append(e)
    return ins, outs


def no_iterations(t):
    """the value number with every loop run zero times"""
    for _ in range(6):
        ls = {a.id: a for a in T.atoms_of(t) if a.op == "loop"}
        if not ls:
            return t
        mp = {}
        for i, a in ls.items():
            init = a.args[1]
            if len(init) != 1:
                return None
            mp[i] = init[0]
        t = T.subst(t, mp)
    return None


def span(t):
    """first and last value of an index expression over the loops it comes from; None when a loop's bounds are not known"""
    lo = hi = t
    for a in list(T.atoms_of(t)):
        if a.op == "idx":
            b = T.SYMBOUNDS.get(a.id)
            if b is None or b[1] is None:
                return None
            lo, hi = T.subst(lo, {a.id: b[0]}), T.subst(hi, {a.id: b[1]})
    return lo, hi


def known(t):
    """no part that was not modelled, nothing ambiguous"""
    return not unknown_term(t) and not any(a.op in ("amb", "phi") for a in T.atoms_of(t))
