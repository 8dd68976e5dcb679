"""The returned image has the type of the input and, for frames, carries its metadata unchanged."""
from drv import *

CONF = [("%s, %s%s" % (e, d, ", frame" if f else ""), dict(entry=e, direction=d, frame=f))
        for e in ("add_cti", "remove_cti") for d in ("both", "parallel", "serial", "none") for f in (True, False)]
CONF += [("add_cti, time window, frame", dict(time=True, frame=True)), ("add_cti, whole image, frame", dict(window=None, frame=True))]
CONF += [("%s, %s, frame of a class derived from Frame" % (e, d), dict(entry=e, direction=d, frame="sub")) for e in ("add_cti", "remove_cti") for d in ("both", "none")]
CONF += [("remove_cti, %s, %s, no iterations" % (d, "frame" if f else "array"), dict(entry="remove_cti", direction=d, frame=f, iterations=0)) for d in ("both", "none") for f in (True, False)]


def run(mods, rep):
    k = kernel_name(mods)
    if k is None:
        rep.undecided("metadata", "the clocking kernel", "not found from the call graph")
        return
    rep.parallel([(one, (mods, k, name, kw)) for name, kw in CONF])


def one(rep, mods, k, name, kw):
    log = []
    kw = dict(kw)
    n = vnum(kw.pop("iterations", 1)) if kw.get("entry") == "remove_cti" else None
    try:
        s = scenario(mods, cuts={k: cut_kernel(log)}, n_iter=n, **kw)
    except (Missing, Dead) as e:
        rep.undecided("metadata", name, repr(e))
        return
    h = s.h
    rep.covered(h.ip)
    where = "arcticpy/main.py: %s" % kw.get("entry", "add_cti")
    src = s.before.heap[s.image.locs()[0]]
    locs = s.result.locs()
    if s.result.unk or not locs:
        rep.undecided("type", name, "the result was not modelled")
        return
    for l in locs:
        o = h.st.heap.get(l)
        if not isinstance(o, Arr):
            rep.undecided("type", name, "result is %r" % o)
            continue
        if o.cls != src.cls:
            if src.cls == "ndarray" or o.cls == "ndarray":
                rep.violation("type", "%s: the result is a %s although the image is a %s" % (name, o.cls, src.cls), where)
            else:
                rep.undecided("type", name, "result class %s" % o.cls)
            continue
        rep.ok("type", "%s: the result is a %s like the image" % (name, src.cls), where)
        for m, v in (src.meta or {}).items():
            g = (o.meta or {}).get(m)
            if g is None:
                rep.violation("metadata", "%s: %s is not passed on" % (name, m), where)
            elif g.term is not None and g.term is v.term:
                rep.ok("metadata", "%s: %s is that of the image" % (name, m), where)
            elif g.is_none or (g.term is not None and not unknown_term(g.term)):
                rep.violation("metadata", "%s: %s of the result is not that of the image" % (name, m), where, "it is %s" % g)
            else:
                rep.undecided("metadata", "%s: %s" % (name, m), "value %s" % g)
