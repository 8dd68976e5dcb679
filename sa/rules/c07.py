"""Each clocking direction uses its own parameters, and removal simulates the addition with exactly the caller's parameters."""
from drv import *

CONF = [
    ("parallel and serial", dict()),
    ("parallel only", dict(direction="parallel")),
    ("serial only", dict(direction="serial")),
    ("default clocking sequences", dict(roe_default=True)),
    ("whole image", dict(window=None)),
    ("single row and column windows", dict(window="int")),
    ("time window", dict(time=True)),
    ("time window, whole image", dict(time=True, window=None)),
    ("time window, serial only", dict(time=True, direction="serial")),
    ("frame", dict(frame=True)),
    ("no traps", dict(direction="none")),
]
# options left at their defaults, one by one: the value of the other direction is not a default
LEFT = [d + "_" + o for d in ("parallel", "serial") for o in ("roe", "express", "offset", "window_range", "ccd")]
CONF += [("%s left out" % n, dict(omit=(n,))) for n in LEFT]
CONF += [("%s left out, time window" % n, dict(omit=(n,), time=True)) for n in LEFT if "offset" in n or "window" in n or "roe" in n]
OPTS = ("ccd", "roe", "traps", "express", "offset")


def run(mods, rep):
    k = kernel_name(mods)
    if k is None:
        rep.undecided("routing", "the clocking kernel", "not found from the call graph")
    else:
        rep.parallel([(one, (mods, k, name, kw)) for name, kw in CONF])
    rep.parallel([(forward, (mods, name, kw)) for name, kw in (
        ("both directions", dict()), ("time window", dict(time=True)), ("whole image", dict(window=None)), ("frame", dict(frame=True)),
        ("single row and column windows", dict(window="int")))] + [(forward, (mods, "%s left out" % n, dict(omit=(n,)))) for n in LEFT])


def value(h, v, st=None):
    """what identifies an argument value: the object, the range bounds, or the value number"""
    if v is None:
        return None
    st = st or h.st
    ls = v.locs()
    if len(ls) == 1 and isinstance(st.heap.get(ls[0]), Rng):
        o = st.heap[ls[0]]
        return ("range", o.start.term, o.stop.term)
    if ls:
        return ("obj",) + tuple(sorted(map(str, v.refs)))
    if v.is_none:
        return ("none",)
    return ("val", v.term)


def same(a, b):
    if a is None or b is None or a[0] != b[0]:
        return a == b
    if a[0] == "val":
        return T.same(a[1], b[1]) is True
    if a[0] == "range":
        return T.same(a[1], b[1]) is True and T.same(a[2], b[2]) is True
    return a == b


def window_value(h, s, d):
    """the pixels a window stands for"""
    v = s.kw.get(d + "_window_range")
    n = h.ip.arr(s.image.locs()[0], s.before).shape[0 if d == "parallel" else 1].term
    if v is None or v.is_none:
        return ("range", ZERO, n)
    x = value(h, v)
    if x[0] == "val":
        return ("range", x[1], add(x[1], ONE))
    return x


def one(rep, mods, k, name, kw):
    log = []
    try:
        s = scenario(mods, cuts={k: cut_kernel(log)}, **kw)
    except (Missing, Dead) as e:
        rep.undecided("routing", name, repr(e))
        return
    h = s.h
    rep.covered(h.ip)
    dirs = [d for d in ("parallel", "serial") if d + "_traps" in s.kw]
    vals = {(d, o): value(h, s.kw[d + "_" + o]) for d in dirs for o in OPTS if d + "_" + o in s.kw}
    found = {}
    for c in log:
        env = {n: value(h, v) for n, v in c["env"].items() if n != c["image"]}
        d = [d for d in dirs if any(same(vals[d, "traps"], v) for v in env.values())]
        if len(d) == 1:
            found.setdefault(d[0], []).append((c, env))
    where = "arcticpy/main.py: add_cti"
    for d in dirs:
        if d not in found:
            if len(log) == len(dirs):
                rep.undecided("routing", "%s: the %s pass" % (name, d), "the traps were not recognised among its arguments")
            elif log or not s.events:
                rep.violation("routing", "%s: the %s traps are never clocked" % (name, d), where)
            else:
                rep.undecided("routing", "%s: the %s pass" % (name, d), "not recognised")
            continue
        if len(found[d]) > 1 and len({str(c["node"]) for c, _ in found[d]}) > 1:
            rep.violation("routing", "%s: the %s traps are clocked %d times" % (name, d, len(found[d])), where)
        c, env = found[d][-1]
        o_ = "serial" if d == "parallel" else "parallel"
        for o in OPTS:
            w = "%s: the %s pass uses %s_%s" % (name, d, d, o)
            if d + "_" + o in s.omit:
                left_out(rep, h, s, c["env"], vals.get((o_, o)), name, d, o, "routing", where, "the %s pass" % d)
                if o != "roe":
                    continue
            if o == "roe" and (d + "_roe" in s.omit or s.kw[d + "_roe"].is_none):
                defaults(rep, h, s, c, name, d)
                continue
            want = vals[d, o]
            hold = [n for n, v in env.items() if same(v, want)]
            other = [n for n, v in env.items() if (o_, o) in vals and same(v, vals[o_, o])]
            if hold and not other:
                rep.ok("routing", w, where)
            elif other:
                rep.violation("routing", "%s: the %s pass is given %s_%s" % (name, d, o_, o), where, "argument %s" % other)
            elif o in env and env[o] is not None:
                rep.violation("routing", "%s: the %s pass is not given %s_%s" % (name, d, d, o), where, "argument %s is %s" % (o, c["env"][o]))
            else:
                rep.undecided("routing", w, "not found among the arguments %s" % list(env))
    if not dirs:
        rep.expect(not log, "routing", "%s: nothing is clocked" % name, where)
    windows(rep, s, h, name, found, dirs, where)


def left_out(rep, h, s, env, other, name, d, o, rule, where, who):
    """an option that was not given is not taken from the other direction"""
    hold = [n for n, v in env.items() if other is not None and same(value(h, v), other)]
    w = "%s: %s does not take %s_%s from the other direction" % (name, who, d, o)
    rep.expect(not hold, rule, w, where, "argument %s" % hold)
    if o in ("express", "offset"):
        v = env.get(o)
        if v is None or v.term is None or unknown_term(v.term):
            rep.undecided(rule, "%s: the default %s" % (name, o), str(v))
        else:
            rep.expect(T.same(v.term, ZERO), rule, "%s: %s has %s 0 by default" % (name, who, o), where, str(v))


def defaults(rep, h, s, c, name, d):
    w = "%s: the %s pass uses the default clock sequence when none is given" % (name, d)
    for n, v in c["env"].items():
        for l in v.locs():
            o = h.st.heap.get(l)
            if isinstance(o, Inst) and o.cls.name.startswith("ROE"):
                rep.expect(o.cls.name == "ROE", "routing", w, "arcticpy/main.py: add_cti", o.cls.name)
                return
    rep.undecided("routing", w, "no clock sequence among the arguments")


def windows(rep, s, h, name, found, dirs, where):
    W = {d: window_value(h, s, d) for d in ("parallel", "serial")}
    tw = s.kw.get("time_window_range")
    off = s.kw.get("parallel_offset")
    for d in dirs:
        if d not in found:
            continue
        c, env = found[d][-1]
        row = [n for n in env if "row" in n and (env[n] is None or env[n][0] in ("range", "none"))]
        col = [n for n in env if "col" in n and (env[n] is None or env[n][0] in ("range", "none"))]
        if len(row) != 1 or len(col) != 1:
            rep.undecided("window-roles", "%s: %s pass" % (name, d), "window arguments not recognised: %s" % list(env))
            continue
        want_row = W[d]
        want_col = W["serial" if d == "parallel" else "parallel"]
        if d == "serial" and tw is not None:
            t = value(h, tw)
            o = off.term if off is not None else ZERO
            p = W["parallel"]
            lo = T.max_(p[1], sub(t[1], o))
            hi = T.min_(sub(p[2], ONE), sub(sub(t[2], ONE), o))
            want_col = ("range", lo, add(hi, ONE))
        for role, got, want in (("rows", env[row[0]], want_row), ("columns", env[col[0]], want_col)):
            w = "%s: the %s pass covers the %s of its window" % (name, d, role)
            if got is None or got[0] != "range":
                rep.undecided("window-roles", w, "argument not modelled")
            elif same(got, want):
                rep.ok("window-roles", w, where)
            elif unknown_term(got[1]) or unknown_term(got[2]):
                rep.undecided("window-roles", w, "bounds not modelled")
            else:
                rep.violation("window-roles", "%s: the %s pass is not confined to the %s of its window" % (name, d, role), where,
                              "covers %s .. %s, expected %s .. %s" % (got[1], got[2], want[1], want[2]))
        if tw is not None:
            hold = [n for n, v in env.items() if same(v, value(h, tw))]
            if d == "parallel":
                if hold:
                    rep.ok("window-roles", "%s: the parallel pass is given the time window" % name, where)
                else:
                    n = [n for n in env if "time" in n]
                    if n and env[n[0]] is not None and env[n[0]][0] in ("range", "none"):
                        rep.violation("window-roles", "%s: the parallel pass is not given the time window" % name, where, str(c["env"][n[0]]))
                    else:
                        rep.undecided("window-roles", "%s: time window of the parallel pass" % name, "not recognised")
            else:
                rep.expect(not hold, "window-roles", "%s: the time window counts parallel transfers and is not applied to the serial pass" % name, where,
                           "argument %s" % hold)


# ------------------------------------------------------------------ removal
def forward(rep, mods, name, kw):
    """remove_cti calls add_cti with exactly the options it was given"""
    calls = []

    def cut(ip, f, env, st, node):
        calls.append(dict(env))
        img = list(env.values())[0]
        for l in img.locs():
            o = ip.arr(l, st)
            t = app("F", o.v.term)
            ARRND[single_atom(t).id] = 2
            return vref(ip.alloc(st, node, o.but(v=o.v.but(term=t), cells={}, view=None), "F"))
        return top("F")

    try:
        s = scenario(mods, entry="remove_cti", cuts={"add_cti": cut}, n_iter=vnum(1), **kw)
    except (Missing, Dead) as e:
        rep.undecided("forwarding", name, repr(e))
        return
    h = s.h
    rep.covered(h.ip)
    where = "arcticpy/main.py: remove_cti"
    if not calls:
        rep.undecided("forwarding", name, "the addition is not called by name")
        return
    for env in calls:
        for o, v in s.kw.items():
            if o == "iterations":
                continue
            w = "%s: the simulated addition uses the caller's %s" % (name, o)
            if o not in env:
                rep.undecided("forwarding", w, "no such option")
                continue
            got, want = value(h, env[o]), value(h, v)
            if same(got, want):
                rep.ok("forwarding", w, where)
            elif env[o].unk or (env[o].term is not None and unknown_term(env[o].term)):
                rep.undecided("forwarding", w, "not modelled")
            elif "window" in o and equivalent_window(h, s, o, got):
                rep.ok("forwarding", w, where)
            else:
                rep.violation("forwarding", "%s: the simulated addition is not given the caller's %s" % (name, o), where, "given %s" % (env[o],))
        for n in s.omit:
            d, o = n.split("_", 1)
            x = s.kw.get({"parallel": "serial", "serial": "parallel"}[d] + "_" + o)
            if n in env and x is not None and o != "window_range":
                sel = {n: env[n]}
                if o in ("express", "offset"):
                    sel[o] = env[n]
                left_out(rep, h, s, sel, value(h, x), name, d, o, "forwarding", where, "the simulated addition")
        for o in ("parallel_window_range", "serial_window_range", "time_window_range"):
            if o in env and o not in s.kw:
                rep.expect(True if env[o].is_none or equivalent_window(h, s, o, value(h, env[o])) else False, "forwarding",
                           "%s: %s is left at its default" % (name, o), where, str(env[o]))


def equivalent_window(h, s, o, got):
    d = o.split("_")[0]
    if d not in ("parallel", "serial"):
        return False
    return same(got, window_value(h, s, d))
