"""Species drawn from a distribution follow the distribution asked for: the log-normal lifetimes are a normalised density with the given median and width; a Poisson realisation counts whole traps per column around the given density."""
import ast

from tm import *
from rules.c24 import number, opaque

WHERE = "arcticpy/traps.py: %s"
DENSITY = "np.exp(-(np.log(x / m) ** 2) / (2 * s ** 2)) / (x * s * (2 * np.pi) ** 0.5)"

POINTS = ((0.8, 0.5, 0.35), (0.3, 1.7, 0.6), (2.1, 0.9, 1.15), (14.0, 6.0, 0.8), (0.02, 0.05, 1.4), (5.0, 5.0, 0.5), (3.0, 0.4, 2.2), (30.0, 45.0, 0.9))


def run(mods, rep):
    jobs = [(lifetimes, (mods, w)) for w in ("log_normal_distribution", "distribution_of_traps_with_lifetime")]
    top = 3 if rep.tier != "thorough" else 5
    for kind in ("Trap", "TrapInstantCapture"):
        for n in range(1, top):
            for cols in range(1, top):
                jobs += [(counted, (mods, kind, n, cols, rows)) for rows in (None, 5)]
    rep.parallel(jobs)


def lifetimes(rep, mods, name):
    kind = "TrapLogNormalLifetimeContinuum"
    what = "the density of lifetimes is the normalised log-normal one of the given median and width"
    try:
        h = H(mods)
        tr = mk_trap(h, kind)
        x = h.sym("lifetime27", Fraction(1, 100), 50, unit=TIME)
        m = h.sym("median27", Fraction(1, 100), 50, unit=TIME)
        s = h.sym("width27", Fraction(1, 10), 3)
        got = h.meth(tr, name, x, m, s)
        mod = h.cls(kind).mod
        env = h.st.frames[-1]
        env.update({"x": x, "m": m, "s": s})
        want = h.ip.ev(ast.parse(DENSITY, mode="eval").body, h.st, mod, None)
    except (Missing, Dead, AttributeError) as e:
        rep.undecided("lifetimes", name, repr(e))
        return
    rep.covered(h.ip)
    if got.unk or got.term is None or want.term is None:
        rep.undecided("lifetimes", name, "not followed")
        return
    ids = [single_atom(v.term).id for v in (x, m, s)]
    n = 0
    for vals in POINTS:
        a, b = (number(t, dict(zip(ids, vals))) for t in (got.term, want.term))
        if a is None or b is None:
            continue
        n += 1
        if abs(a - b) > 1e-6 * max(abs(a), abs(b), 1e-9):
            rep.violation("lifetimes", "%s: %s" % (name, what), WHERE % (kind + "." + name),
                          "at a lifetime of %s with median %s and width %s: %.6g, not %.6g" % (vals + (a, b)))
            return
    if n < len(POINTS) or opaque(got.term):
        rep.undecided("lifetimes", name, str(got.term)[:300])
    else:
        rep.ok("lifetimes", "%s: %s" % (name, what), WHERE % (kind + "." + name))


def plain(t):
    return not any(a.op in ("phi", "loop", "amb", "opaque", "drawn") for a in T.atoms_of(t)) and not unknown_term(t)


def counted(rep, mods, kind, n, cols, n_rows):
    name = "%s.poisson_trap, %d species, %d columns, %s rows" % (kind, n, cols, n_rows or "any number of")
    where = WHERE % "Trap.poisson_trap"
    try:
        h = H(mods)
        h.ip.opts.update(unroll=8, exact=True)
        kinds = [h.new(kind, h.sym("density27_%d" % i, Fraction(1, 100), 50, unit=CHARGE), h.sym("tau27_%d" % i, Fraction(1, 100), 50, unit=TIME))
                 for i in range(n)]
        rows = vnum(n_rows) if n_rows else h.sym("n_rows27", 1, 5000, isint=True)
        r = h.meth(kinds[0], "poisson_trap", h.put(Lst(tuple(kinds), None, vnum(n), "list")), h.put(Lst((rows, vnum(cols)), None, vnum(2), "tuple")))
        got = h.ip.iter_exact(r, h.st)
        if got is None:
            raise Missing("list of species")
    except (Missing, Dead, AttributeError) as e:
        rep.undecided("poisson", name, repr(e))
        return
    rep.covered(h.ip)
    if len(got) != n * cols:
        rep.violation("poisson", "%s: gives %d species, not one of each kind per column" % (name, len(got)), where)
        return
    draws = []
    for k, v in enumerate(got):
        what = "%s: species %d" % (name, k)
        want = kinds[k % n]
        try:
            tau, tau0 = (h.get(z, "release_timescale").term for z in (v, want))
            d, d0 = (h.get(z, "density").term for z in (v, want))
        except (Missing, Dead, AttributeError) as e:
            rep.undecided("poisson", what, repr(e))
            continue
        if tau is None or not plain(tau):
            rep.undecided("poisson", what, "release time not followed")
        elif T.same(tau, tau0) is False:
            rep.violation("poisson", "%s: does not have the release time of its kind" % what, where, "%s, not %s" % (tau, tau0))
        else:
            rep.ok("poisson", "%s: has the release time of its kind" % what, where)
        ps = [a for a in T.atoms_of(d) if a.op == "poisson"] if d is not None else []
        if len(ps) != 1:
            if d is not None and not ps and plain(d) and T.same(d, d0) is not None and not any("random" in str(a.op) for a in T.atoms_of(d)):
                rep.violation("poisson", "%s: its density is not drawn" % what, where, str(d)[:300])
            else:
                rep.undecided("poisson", what, "draw not followed: %s" % str(d)[:200])
            continue
        lam = ps[0].args[0]
        mean = T.subst(d, {ps[0].id: lam})
        more = T.subst(d, {ps[0].id: add(lam, ONE)})
        step = mul(sub(more, mean), rows.term)
        if any(a.op == "poisson" for a in T.atoms_of(mean)) or not plain(mean) or not plain(step):
            rep.undecided("poisson", what, str(mean)[:200])
            continue
        a, b = T.same(mean, d0), T.same(step, ONE)
        if a is False:
            rep.violation("poisson", "%s: the mean of its density is not the density of its kind" % what, where, "%s, not %s" % (mean, d0))
        elif a is None:
            rep.undecided("poisson", what, str(mean)[:200])
        else:
            rep.ok("poisson", "%s: the mean of its density is the density of its kind" % what, where)
        if b is False:
            rep.violation("poisson", "%s: one trap more is not one over the rows more density" % what, where, "times the rows: %s" % step)
        elif b is None:
            rep.undecided("poisson", what, str(step)[:200])
        else:
            rep.ok("poisson", "%s: its density counts whole traps in a column" % what, where)
        draws.append((ps[0], d))
    for i, (a, d) in enumerate(draws):
        for b, e in draws[:i]:
            if a is b and d is e:
                rep.violation("poisson", "%s: two species share one draw" % name, where, str(d)[:300])
                return
    if len(draws) == len(got):
        rep.ok("poisson", "%s: every species of every column has a draw of its own" % name, where)
