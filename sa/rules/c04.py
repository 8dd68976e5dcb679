"""The change of the image at each clocking step is the reported net release x share x multiplicity, each group acting once."""
from kern import *
from replay import each_small, judge_cells, judge_steps


def run(mods, rep):
    each(rep, mods, "charge", check)
    rep.parallel(each_small(mods, "replay", replayed, tier=rep.tier))


def replayed(*a):
    judge_steps(*a)
    judge_cells(*a)


def check(rep, k, name, bs):
    for e in accounted(k, bs)[1]:
        old, v = e.data.get("old"), e.data.get("value")
        if old is None or v is None or v.term is None or not any(a.op == "phi" for a in T.atoms_of(old)):
            continue                       # building the work array, before the transfers
        same = T.same(v.term, old)
        if same is not True:
            rep.expect(None if same is None or unknown_term(v.term) else False, "image-change", "%s: the image changes apart from the charge returned by the traps" % name, e.where,
                       "from %s to %s" % (str(old)[:200], str(v.term)[:300]))
    want = expected_order(k)
    # phases without any traps may be skipped
    got = [b.p for b in bs]
    if got != [p for _, p in want]:
        rep.violation("each-once", "%s: the phases act in the order %s, expected %s" % (name, got, [p for _, p in want]), bs[0].events[0].where)
        return
    for (s, p), b in zip(want, bs):
        ev = b.events[0]
        what = "%s: step %d, phase %d" % (name, s, p)
        rep.expect(sorted(b.groups) == list(range(k.n_groups)), "each-once", "%s: each group of traps acts once" % what, ev.where, "groups %s" % b.groups)
        if b.before is None or b.after is None:
            rep.undecided("image-change", what, "image content not followed")
            continue
        px = pixel(k, b)
        if px is None:
            rep.undecided("image-change", what, "the pixel acted on was not identified")
            continue
        j, r, row, col = px
        if k.kw.get("parallel_window_range") is None and k.kw.get("serial_window_range") is None:
            row = r
        ph = k.phases[s, p]
        mult = select_term(aatom("asym", ("EXPRESS",), 2, 0, INF), (j, r))
        coverage(rep, k, what, j, r, ev)
        free = mul(ph["high"], select_term(b.before, (add(row, num(ph["capture"])), col)))
        net = ZERO
        for e in b.events:
            env = e.data["env"]
            dt, n, m = (env.get(x) for x in ("dwell_time", "n_free_electrons", "express_multiplier"))
            if dt is not None and dt.term is not None:
                rep.expect(T.same(dt.term, num(k.dwell[s])), "step-arguments", "%s: the managers get the dwell time of the step" % what, e.where, "dwell time %s" % dt)
            f = env.get("ccd_filling_function")
            if f is not None and f.term is not None and single_atom(f.term) is not None and single_atom(f.term).op == "FILL":
                rep.expect(T.same(single_atom(f.term).args[0], num(p)), "step-arguments", "%s: the managers get the well filling function of the phase" % what, e.where, str(f.term))
            else:
                rep.undecided("step-arguments", what + ": well filling function", str(f))
            if n is not None and n.term is not None:
                ok = T.same(n.term, free)
                if ok is False and net is not ZERO:
                    ok = T.same(n.term, add(free, net))
                rep.expect(ok, "step-arguments", "%s: the managers get the charge of the pixel that the phase captures from, if its potential is high" % what, e.where,
                           "free electrons %s" % str(n.term)[:400])
            if m is not None and m.term is not None:
                rep.expect(T.same(m.term, mult), "step-arguments", "%s: the managers get the multiplicity of the pixel" % what, e.where, str(m.term)[:300])
            net = add(net, e.data["result"])
        shares = dict(zip(ph["to"], ph["share"]))
        for d in range(-3, 4):
            before = select_term(b.before, (add(row, num(d)), col))
            after = select_term(b.after, (add(row, num(d)), col))
            exp = before if d not in shares else add(before, mul(mul(net, shares[d]), mult))
            ok = None
            if not unknown_term(after):
                # up to the clamp at zero, which is judged separately
                ok = T.same(T.max_(after, ZERO), T.max_(exp, ZERO))
            rep.expect(ok, "image-change", "%s: pixel %+d changes by %s" % (what, d, "the net release x share x multiplicity" if d in shares else "nothing"),
                       ev.where, "before %s; after %s" % (str(before)[:300], str(after)[:600]))


def coverage(rep, k, what, j, r, ev):
    """every express pass, every monitored pixel"""
    b = span(j)
    w = what + ": every express pass is run"
    if b is None or not known(b[0]) or not known(b[1]):
        rep.undecided("coverage", w, "pass index %s" % j)
    else:
        rep.expect(T.same(b[0], ZERO) is True and T.same(b[1], sub(sym("n_passes"), ONE)) is True, "coverage", w, ev.where, "from %s to %s" % b)
    w = what + ": every pixel with monitored traps is visited"
    a = single_atom(r)
    sel = single_atom(a.args[0]) if a is not None and a.op == "select" and len(a.args[1]) == 1 else None
    if sel is not None and sel.op == "nonzero":
        if "MONITOR" not in str(sel.args[0]):
            rep.violation("coverage", what + ": the pixels visited are not those with monitored traps", ev.where, str(sel.args[0])[:300])
            return
        b, n = span(a.args[1][0]), app("count", sel.args[0])
    else:
        b, n = (span(r), sym("n_pixels")) if not any(x.op in ("select", "nonzero") for x in T.atoms_of(r)) else (None, None)
    if b is None or not known(b[0]) or not known(b[1]):
        rep.undecided("coverage", w, "pixel index %s" % r)
    else:
        rep.expect(T.same(b[0], ZERO) is True and T.same(b[1], sub(n, ONE)) is True, "coverage", w, ev.where, "index from %s to %s" % b)
