"""The whole of adding trails on an image of a few pixels: sizes, windows, clock sequence and express setting are fixed, pixel values and the
traps' reactions are unknowns. Everything integer folds to constants, so that every pixel access is to a known pixel."""
from kern import *


class Whole:
    pass


def here(ip, node):
    mod, fn = ip.stack[-1] if ip.stack else ("?", "?")
    return "%s:%s in %s" % (mod, getattr(node, "lineno", "?"), fn)


def whole(mods, kind="ROE", rows=4, cols=2, window=None, columns=None, time=None, express=0, offset=0, first=False, between=False, away=False,
          steps=1, phases=1, dtype="int", pumps=2, transfers=None, serial=False, opts=None, dwell=None, groups=1, active=None):
    w = Whole()
    w.cfg = dict(window=window, columns=columns, time=time, express=express, offset=offset, between=between, serial=serial, kind=kind)
    w.cols_in, w.groups = cols, groups
    w.steps, w.access, w.padded, w.rows_in = [], [], set(), rows

    def step(ip, f, env, st, node):
        vals = list(env.values())
        ls = [l for l in vals[0].locs() if isinstance(st.heap.get(l), Inst)]
        who = w.who.get(ls[0]) if len(ls) == 1 else None
        w.n += 1
        r = V(term=sym("net%d_" % w.n), unit=CHARGE)
        ip.emit("step", node, st, who=who, result=r.term, env=dict(env), heap=dict(st.heap))
        return r
    w.n = 0

    def init(ip, f, env, st, node):
        if f.cls is None or f.cls.name != ALL:
            return NotImplemented
        w.all_env = dict(env)
        me = list(env.values())[0].locs()[0]
        o = st.heap[me]
        a = dict(o.attrs)
        for n in ("_saved_data", "_n_electrons_trapped_in_save", "_n_electrons_trapped_previously"):
            a.setdefault(n, VNONE)
        a["data"] = w.data
        st.heap[me] = o.but(attrs=a)
        return VNONE

    def op(name):
        def cut(ip, f, env, st, node):
            if f.cls is None:
                return NotImplemented
            if f.cls.name != ALL:
                ip.emit("trapop", node, st, what="other")
                return NotImplemented
            ip.emit("trapop", node, st, what=name)
            return VNONE
        return cut

    def fill(ip, f, env, st, node):
        vals = [v for n, v in env.items()][1:]
        if f.cls is None or len(vals) != 1 or vals[0].term is None:
            return NotImplemented
        return V(term=app("FILL", vals[0].term))

    def on_index(ip, b, comps, st, node, mode):
        cy = getattr(ip.callnodes[-1], "_cy", None) if ip.callnodes else None
        if cy is None:
            return
        d = cy["directives"]
        for l in b.locs():
            o = st.heap.get(l)
            if not isinstance(o, Arr):
                continue
            a = ip.arr(l, st)
            if a.shape is None or len(comps) > len(a.shape):
                continue
            if len(a.shape) == 2 and mode == "store":
                w.padded.add(l)
            for k, (c, n) in enumerate(zip(comps, a.shape)):
                if c[0] == "i":
                    w.access.append((mode, l, k, c[1], n, st.path, here(ip, node), d, len(b.refs)))
    cuts = {"well_filling_function": fill, STEP: step, "__init__": init, "save": op("save"), "restore": op("restore"), "empty_all_traps": op("empty")}
    h = w.h = H(mods, dict({"exact": True, "unroll": 64, "tab": True, "on_index": on_index}, **(opts or {})), cuts)
    w.image = h.image("image", n_rows=vnum(rows if not serial else cols), n_cols=vnum(cols if not serial else rows))
    w.image_term = h.ip.arr(w.image.locs()[0], h.st).v.term
    kw = {}
    n = 2 if kind == "ROETrapPumping" and steps == 1 else steps
    dw = list(dwell or [1] * n)
    if kind != "ROEChargeInjection":
        kw["empty_traps_for_first_transfers"] = vnum(first)
    kw["express_matrix_dtype"] = vref(ExtRef("builtins." + dtype))
    kw["empty_traps_between_columns"] = vnum(between)
    kw["force_release_away_from_readout"] = vnum(away)
    if kind == "ROETrapPumping":
        kw["n_pumps"] = vnum(pumps)
    if kind == "ROEChargeInjection":
        kw["n_active_pixels"] = vnum(active) if active is not None else VNONE
        if transfers is not None:
            kw["n_pixel_transfers"] = vnum(transfers)
    roe = w.roe = mk_roe(h, kind, "", None, dwell_times=h.put(Lst([vnum(x) for x in dw], None, None, "list")), **kw)
    w.ccd = h.new("CCD", h.put(Lst([vnum(Fraction(1, phases))] * phases, None, None, "list")), h.sym("well", 0, unit=CHARGE), vnum(0), h.sym("power", 0, unit=ONEU))
    w.who, rs = {}, []
    for p in range(phases):
        row = []
        for g in range(groups):
            tm = h.new("TrapManager", mk_traps(h, "Trap", "_m%d%d" % (p, g), n=vnum(1)), vnum(1))
            w.who[tm.locs()[0]] = (p, g)
            row.append(tm)
        rs.append(h.put(Lst(row, None, None, "list")))
    w.data = h.put(Lst(rs, None, None, "list"))
    traps = h.put(Lst([mk_traps(h, "Trap", "_g%d" % g) for g in range(groups)], None, None, "list"))
    d, o = ("serial", "parallel") if serial else ("parallel", "serial")
    kw = {d + "_ccd": w.ccd, d + "_roe": roe, d + "_traps": traps, d + "_express": vnum(express), d + "_offset": vnum(offset)}
    R = lambda x: vnum(x) if isinstance(x, int) else h.put(Rng(vnum(x[0]), vnum(x[1]), vnum(x[2] if len(x) > 2 else 1)))
    if window is not None:
        kw[d + "_window_range"] = R(window)
    if columns is not None:
        kw[o + "_window_range"] = R(columns)
    if time is not None:
        kw["time_window_range"] = R(time)
    n0 = len(h.ip.events)
    w.died = None
    try:
        w.result = h.call("add_cti", w.image, **kw)
    except Dead as e:
        w.died, w.result = e, None
    w.events = h.ip.events[n0:]
    return w
