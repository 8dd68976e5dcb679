"""All public entry points, each from an abstract caller: the events of these runs are what the event rules look at."""
from scen import *

WHOLE = [
    ("add_cti, both directions", dict()),
    ("add_cti, one step, one phase, frame", dict(direction="parallel", steps=1, phases=1, frame=True)),
    ("add_cti, three steps", dict(direction="parallel", steps=3, window=None)),
    ("add_cti, no traps", dict(direction="none")),
    ("add_cti, frame, no traps", dict(direction="none", frame=True)),
    ("add_cti, charge injection", dict(roe="ROEChargeInjection", direction="parallel", window=None)),
    ("add_cti, charge injection, window, one step", dict(roe="ROEChargeInjection", direction="parallel", steps=1)),
    ("add_cti, trap pumping", dict(roe="ROETrapPumping", direction="serial", window="int")),
    ("add_cti, trap pumping, even steps", dict(roe="ROETrapPumping", direction="parallel", window="int", steps=2)),
    ("add_cti, instant capture traps, time window", dict(traps="instant", direction="parallel", time=True, steps=1)),
    ("add_cti, default clocking", dict(roe_default=True, phases=1, traps="single")),
    ("add_cti, continuum traps", dict(traps="lognormal", direction="serial", steps=1)),
    ("add_cti, user-defined continuum traps", dict(traps="abstract", direction="parallel", steps=1, phases=1)),
    ("add_cti, surface groups", dict(traps="groups", direction="parallel", steps=1, phases=1)),
    ("add_cti, time window, two directions", dict(time=True, steps=1, phases=1, traps="single")),
    ("remove_cti", dict(entry="remove_cti", direction="parallel")),
    ("remove_cti, no traps, frame", dict(entry="remove_cti", direction="none", frame=True)),
]


class Run:
    def __init__(self, name, h, events, result=None, before=None, args=(), s=None):
        self.name, self.h, self.events, self.result, self.before, self.args, self.s = name, h, events, result, before, args, s


def whole(mods, name, kw, opts=None):
    s = scenario(mods, opts=opts, **kw)
    return Run(name, s.h, s.events, s.result, s.before, s.args, s)


STEPS = ("n_electrons_released_and_captured", "n_electrons_released", "n_electrons_captured", "empty_all_traps", "n_trapped_electrons_from_watermarks",
         "fill_probabilities_from_dwell_time", "collapse_redundant_watermarks", "extend_watermarks_if_almost_full",
         "watermarks_converted_to_fill_fractions_from_elapsed_times", "watermarks_converted_to_elapsed_times_from_fill_fractions", "delta_ellipticity",
         "updated_watermarks_from_capture_not_enough")


def state_unit(cls):
    return TIME if cls.endswith("TrackTime") else ONEU


CONV = {"watermarks_converted_to_fill_fractions_from_elapsed_times": ONEU, "watermarks_converted_to_elapsed_times_from_fill_fractions": TIME}


def cut_conv(name):
    """a state conversion: volumes are kept, the other columns change their meaning (the conversions are analysed themselves)"""

    def cut(ip, f, env, st, node):
        w = list(env.values())[1]
        ls = [l for l in w.locs() if isinstance(st.heap.get(l), Arr)]
        if len(ls) != 1 or w.unk:
            return NotImplemented
        o = ip.arr(ls[0], st)
        t = app(name[:32], o.v.term)
        ARRND[single_atom(t).id] = 2
        hi = 1 if CONV[name] == ONEU else INF
        v = V(term=t, lo=0, hi=hi, inf=hi == INF, unit=CONV[name], deps=o.v.deps)
        c0 = o.col0 if o.col0 is not None else o.v
        return vref(ip.alloc(st, node, Arr(v, o.shape, c0, "f"), ("conv", name[25])))
    return cut


def method(mods, cls, kind, name, opts=None, cuts=None):
    """one method of a trap manager in an arbitrary state"""
    if name not in CONV and cls.endswith("TrackTime"):
        cuts = dict({n: cut_conv(n) for n in CONV}, **(cuts or {}))
    h = H(mods, opts, cuts)
    c = h.cls(cls)
    if c is None or c.find(name)[0] is None:
        raise Missing("%s.%s" % (cls, name))
    tm = mk_manager(h, cls, kind)
    ccd = mk_ccd(h)
    f = filling(h, ccd)
    nfree = h.sym("n_free", 0, unit=CHARGE, deps=frozenset(["free"]))
    dt = h.sym("dwell", 0, unit=TIME)
    before = h.st.copy()
    n0 = len(h.ip.events)
    w = h.get(tm, "watermarks")

    def copy_of(v):
        o = h.ip.arr(v.locs()[0], h.st)
        a = h.array("W2", o.shape, lo=0)
        h.st.heap[a.locs()[0]] = h.st.heap[a.locs()[0]].but(v=o.v.but(term=h.st.heap[a.locs()[0]].v.term), col0=o.col0)
        return a
    if name == "n_electrons_released":
        r = h.meth(tm, name, dwell_time=dt)
    elif name in ("n_electrons_released_and_captured", "n_electrons_captured"):
        r = h.meth(tm, name, n_free_electrons=nfree, ccd_filling_function=f, dwell_time=dt, express_multiplier=h.sym("multiplier", 0))
    elif name == "fill_probabilities_from_dwell_time":
        r = h.meth(tm, name, dt)
    elif name == "updated_watermarks_from_capture_not_enough":
        r = h.meth(tm, name, copy_of(w), copy_of(w), h.sym("enough", 0, 1))
    elif name == "watermarks_converted_to_elapsed_times_from_fill_fractions":
        o = h.ip.arr(w.locs()[0], h.st)
        a = h.array("W2", o.shape, lo=0, hi=INF, unit=ONEU)
        al = a.locs()[0]
        h.st.heap[al] = h.st.heap[al].but(col0=h.st.heap[al].v)
        r = h.meth(tm, name, a)
    elif name in ("n_trapped_electrons_from_watermarks", "collapse_redundant_watermarks") or name.startswith("watermarks_converted"):
        r = h.meth(tm, name, w)
    elif name == "delta_ellipticity":
        r = h.get(tm, name)
    else:
        r = h.meth(tm, name)
    return Run("%s.%s" % (cls, name), h, h.ip.events[n0:], r, before, (tm,))


TRAPM = [("fill_fraction_from_time_elapsed", ("time",)), ("time_elapsed_from_fill_fraction", ("fill",)),
         ("electrons_released_from_electrons_and_dwell_time", ("charge", "time")),
         ("electrons_released_from_time_elapsed_and_dwell_time", ("time", "time2")), ("delta_ellipticity", None), ("distribution_within_pixel", ("fill",)),
         ("poisson_trap", ("trap", "shape"))]
KINDS = ("Trap", "TrapInstantCapture", "TrapLogNormalLifetimeContinuum", "TrapLifetimeContinuumAbstract")


def trapmethod(mods, kind, name, args, opts=None):
    h = H(mods, opts)
    c = h.cls(kind)
    if c is None or c.find(name)[0] is None:
        raise Missing("%s.%s" % (kind, name))
    t = mk_trap(h, kind)
    before = h.st.copy()
    n0 = len(h.ip.events)
    av = []
    for a in args or ():
        if a == "time":
            av.append(h.sym("elapsed", 0, unit=TIME))
        elif a == "time2":
            av.append(h.sym("dwell", 0, unit=TIME))
        elif a == "fill":
            av.append(h.sym("fill", 0, 1, unit=ONEU))
        elif a == "charge":
            av.append(h.sym("electrons", 0, unit=CHARGE))
        elif a == "trap":
            av.append(t)
        elif a == "shape":
            av.append(h.put(Lst([h.sym("n_rows", 1, isint=True), h.sym("n_cols", 1, isint=True)], None, None, "tuple")))
    r = h.get(t, name) if args is None else h.meth(t, name, *av)
    return Run("%s.%s" % (kind, name), h, h.ip.events[n0:], r, before, (t,))


def ccdmethod(mods, phases, surface, method_="well_filling_function", opts=None, bloom=True):
    h = H(mods, opts)
    ccd = mk_ccd2(h, "", phases, surface=bloom)
    n0 = len(h.ip.events)
    ph = h.sym("phase", 0, isint=True)
    n = h.sym("n_electrons", 0, unit=CHARGE)
    if method_ == "well_filling_function":
        f = h.meth(ccd, method_, ph)
        r = h.ip.call(f, [n], {"surface": vnum(surface)} if surface is not None else {}, h.st, h.node(), h.mod, None)
    else:
        r = h.meth(ccd, method_, n, ph, vnum(bool(surface)))
    return Run("CCD.%s, %s phases%s" % (method_, phases or "any number of", ", surface" if surface else ""), h, h.ip.events[n0:], r)


def ccdphase(mods, opts=None):
    h = H(mods, opts)
    ccd = mk_ccd2(h)
    n0 = len(h.ip.events)
    r = h.new("CCDPhase", ccd, h.sym("phase", 0, isint=True))
    return Run("CCDPhase", h, h.ip.events[n0:], r)


def roemethod(mods, kind, steps, name, time=False, window="range", dtype=None, opts=None, offset=True, express=None):
    h = H(mods, opts)
    roe = mk_roe(h, kind, "", steps, **({} if dtype is None else {"express_matrix_dtype": dtype}))
    n0 = len(h.ip.events)
    r = None
    if name == "save":
        px = rng(h, "window") if window == "range" else h.sym("window", 0, isint=True)
        m = h.meth(roe, "express_matrix_and_monitor_traps_matrix_from_pixels_and_express", pixels=px, express=h.sym("express", 0, isint=True),
                   offset=h.sym("offset", 0, isint=True), time_window_range=VNONE)
        e = h.ip.iter_exact(m, h.st)
        r = h.meth(roe, "save_trap_states_matrix_from_express_matrix", e[1])
    elif name == "express":
        px = rng(h, "window") if window == "range" else h.sym("window", 0, isint=True)
        kw = dict(pixels=px, express=h.sym("express", 0, isint=True) if express is None else express, offset=h.sym("offset", 0, isint=True))
        kw["time_window_range"] = rng(h, "time_window") if time else VNONE
        r = h.meth(roe, "express_matrix_and_monitor_traps_matrix_from_pixels_and_express", **kw)
    elif name == "init":
        r = roe
    else:
        r = h.get(roe, name)
    run = Run("%s.%s%s%s" % (kind, name, ", time window" if time else "", ", %s steps" % steps if steps else ""), h, h.ip.events if name == "init" else h.ip.events[n0:], r)
    run.roe = roe
    return run


def acs(mods, opts=None):
    h = H(mods, opts)
    r = h.call("model_for_HST_ACS", h.sym("date", 0))
    return Run("model_for_HST_ACS", h, h.ip.events, r)


def alltraps(mods, phases, what, kind="groups", opts=None):
    h = H(mods, opts, {"n_trapped_electrons_from_watermarks": cut_trapped} if what == "n_electrons_trapped_currently" else None)
    ccd = mk_ccd2(h, "", phases)
    tr = trapset(h, kind)
    n0 = len(h.ip.events)
    # what the kernel passes on: a list of lists of species
    if kind != "groups":
        tr = h.put(Lst([tr], None, None, "list"))
    a = h.new("AllTrapManager", tr, h.sym("max_n_transfers", 1, isint=True), ccd)
    before = h.st.copy()
    r = None
    if what == "n_electrons_trapped_currently":
        r = h.get(a, what)
    elif what == "save_restore":
        h.meth(a, "save")
        h.meth(a, "restore")
        h.meth(a, "restore")
    elif what != "init":
        r = h.meth(a, what)
    return Run("AllTrapManager.%s, %s, %s phases" % (what, kind, phases or "any number of"), h, h.ip.events[n0:], r, before, (a,))


def jobs(mods, opts=None):
    out = [(name, lambda kw=kw, name=name: whole(mods, name, kw, opts)) for name, kw in WHOLE]
    for cls, kind in MANAGERS:
        for m in STEPS:
            out.append(("%s.%s" % (cls, m), lambda cls=cls, kind=kind, m=m: method(mods, cls, kind, m, opts)))
    for k in KINDS:
        for m, a in TRAPM:
            out.append(("%s.%s" % (k, m), lambda k=k, m=m, a=a: trapmethod(mods, k, m, a, opts)))
    for ph in (1, None):
        for sf in (False, True, None):
            out.append(("CCD filling function", lambda ph=ph, sf=sf: ccdmethod(mods, ph, sf, opts=opts)))
        for sf in (False, True):
            out.append(("CCD filling", lambda ph=ph, sf=sf: ccdmethod(mods, ph, sf, "cloud_fractional_volume_from_n_electrons_and_phase", opts=opts)))
        out.append(("CCD filling, default bloom level", lambda ph=ph: ccdmethod(mods, ph, True, opts=opts, bloom=False)))
    out.append(("CCDPhase", lambda: ccdphase(mods, opts)))
    for k in ("ROE", "ROEChargeInjection", "ROETrapPumping"):
        for st in (1, 2, 3, None):
            out.append(("%s clock sequence" % k, lambda k=k, st=st: roemethod(mods, k, st, "init", opts=opts)))
        for t in (False, True):
            for w in (("range", "int") if k != "ROETrapPumping" else ("int",)):
                out.append(("%s express" % k, lambda k=k, t=t, w=w: roemethod(mods, k, 1 if k != "ROETrapPumping" else 2, "express", t, w, opts=opts)))
        for t in (False, True):
            out.append(("%s express, whole numbers" % k, lambda k=k, t=t: roemethod(mods, k, 1 if k != "ROETrapPumping" else 2, "express", t, "range" if k != "ROETrapPumping" else "int",
                                                                                    dtype=vref(ExtRef("builtins.int")), opts=opts)))
        out.append(("%s save" % k, lambda k=k: roemethod(mods, k, 1 if k != "ROETrapPumping" else 2, "save", opts=opts, window="range" if k != "ROETrapPumping" else "int")))
    out.append(("model_for_HST_ACS", lambda: acs(mods, opts)))
    for kind in ("groups", "list"):
        for w in ("init", "n_electrons_trapped_currently", "empty_all_traps", "save_restore"):
            out.append(("AllTrapManager.%s" % w, lambda w=w, kind=kind: alltraps(mods, None, w, kind, opts)))
    return out
