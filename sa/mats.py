"""The express / monitor / save matrices as the clock sequences produce them."""
from kern import *

VARIANTS = [(kind, first, dt, time) for kind in ("ROE", "ROEChargeInjection", "ROETrapPumping") for first in (False, True) for dt in ("float", "int")
            for time in (False, True) if not (kind == "ROEChargeInjection" and first)]


LAST = []


class Mats:
    pass


def trng(h, name="time"):
    d = frozenset(["time"])
    a = h.sym(name + "_start", 0, isint=True, deps=d)
    b = h.ip.binop(ast.Add(), a, h.sym(name + "_len", 1, isint=True, deps=d), h.st, NODE)
    return h.put(Rng(a, b, vnum(1)))


def vname(v):
    kind, first, dt, time = v
    return "%s, %s%s%s" % (kind, dt, ", empty traps first" if first else "", ", time window" if time else "")


def mats(mods, kind="ROE", first=False, dt="float", time=False, express=None, offset=None, pixels="range", unroll=4, pumps=None,
         transfers=None):
    m = Mats()
    LAST[:] = [m]
    h = m.h = H(mods, {"exact": True, "unroll": unroll, "tab": unroll > 4}, {})
    n = 2 if kind == "ROETrapPumping" else 1
    kw = {}
    if kind != "ROEChargeInjection":
        kw["empty_traps_for_first_transfers"] = vnum(first)
    kw["express_matrix_dtype"] = vref(ExtRef("builtins." + dt))
    if kind == "ROETrapPumping" and pumps is not None:
        kw["n_pumps"] = vnum(pumps)
    if kind == "ROEChargeInjection" and transfers is not None:
        kw["n_pixel_transfers"] = vnum(transfers)
    roe = m.roe = mk_roe(h, kind, "", None, dwell_times=h.put(Lst([vnum(1)] * n, None, None, "list")), **kw)
    kk = {}
    if time:
        kk["time_window_range"] = trng(h) if time is True else h.put(Rng(vnum(time[0]), vnum(time[1]), vnum(1)))
    px = h.put(Rng(vnum(pixels[0]), vnum(pixels[1]), vnum(1))) if isinstance(pixels, tuple) else vnum(pixels) if isinstance(pixels, int) else rng(h, "window") if pixels == "range" else h.sym("n_pix", 1, isint=True)
    m.express = h.sym("express", 0, isint=True) if express is None else vnum(express)
    m.offset = h.sym("offset", 0, isint=True) if offset is None else vnum(offset)
    n0 = len(h.ip.events)
    r = h.meth(roe, EXPR, pixels=px, express=m.express, offset=m.offset, **kk)
    m.events = h.ip.events[n0:]
    ls = [h.st.heap[l] for l in r.locs()]
    if len(ls) != 1 or not isinstance(ls[0], Lst) or ls[0].elems is None or len(ls[0].elems) != 2:
        raise Missing("pair of matrices")
    m.vE, m.vM = ls[0].elems
    m.E, m.M = merged(h, m.vE), merged(h, m.vM)
    if m.E is None or m.M is None:
        raise Missing("pair of matrices")
    m.where = "arcticpy/roe.py: %s.%s" % (kind, EXPR)
    return m



def merged(h, v):
    """the array, or the join of the arrays, that v can be"""
    if not any(isinstance(h.st.heap.get(l), Arr) for l in v.locs()):
        return None
    x, c0, shape, isarr, dtype = h.ip.operand(v, h.st)
    return Arr(x, shape, None, dtype) if isarr else None
