"""One transfer changes the occupation of the traps by the model of their type, wherever the cloud ends: only release above the cloud,
release and capture within it, no more electrons than there are."""
import math

from tm import *

W = "arcticpy/trap_managers.py: %s.n_electrons_released_and_captured"
F = Fraction
MANY = 10 ** 9


def run(mods, rep):
    jobs = []
    for cls, kind in MANAGERS:
        for S in (1, 2):
            for vols, C in states(rep.tier == "thorough"):
                jobs.append((evolve, (mods, cls, kind, S, vols, C, None)))
                if kind == "Trap":
                    jobs.append((evolve, (mods, cls, kind, S, vols, C, 0)))
                # elapsed times: closed form only for species of one lifetime; merged levels average them
                if C and (cls != "TrapManagerTrackTime" or not merged(vols, C)):
                    jobs.append((limit, (mods, cls, kind if kind == "Trap" else "TrapInstantCapture", S, vols, C)))
    rep.parallel(jobs)


def merged(vols, cloud):
    p = pieces(vols, cloud)
    return sum(b <= cloud for a, b, l in p) > 1 and any(a >= cloud for a, b, l in p)


def states(thorough):
    """(volumes of the levels, volume of the cloud)"""
    out = []
    pool = [(), (F(1, 4),), (F(1, 4), F(1, 8)), (F(1, 8), F(1, 4), F(1, 8))]
    if thorough:
        pool += [(F(1, 2), F(1, 16), F(1, 32)), (F(1, 16), F(1, 8), F(1, 16), F(1, 4)), (F(1, 4),) * 3, (F(1, 8),) * 5]
    for p in pool:
        ends = [sum(p[:i + 1]) for i in range(len(p))]
        clouds = {F(0)} | set(ends) | {e - v / 2 for e, v in zip(ends, p)} | {(ends[-1] if p else 0) + F(1, 4)}
        out += [(p, c) for c in sorted(clouds)]
    return out


class One:
    """a manager in a state of given volumes with arbitrary occupations, and what one transfer makes of it"""

    def __init__(self, mods, cls, kind, S, vols, cloud, free, cap=None, brief=False):
        m = self.m = Small(mods, cls, kind, S, cap=cap, opts={"sampled": True, "tab": True}, slow=True)
        h = self.h = m.h
        self.dwell = h.sym("brief", F(1, 100), F(1, 50), unit=TIME) if brief else h.sym("dwell", F(1, 2), 4, unit=TIME)
        self.R = len(vols) + 5
        self.occ = [[sym("o%d%d_" % (i, s), F(1, 10), F(1, 2) if not m.track else 3) for s in range(S)] for i in range(len(vols))]
        h.set(m.tm, "watermarks", m.put_levels([(num(v), o) for v, o in zip(vols, self.occ)], self.R))
        self.asked = []

        def volume(ip, f, env, st, node):
            self.asked.append(list(env.values())[0].term if env else None)
            return NotImplemented
        h.ip.cuts["<lambda>"] = volume
        fill = h.ip.ev(ast.parse("lambda n_electrons: %r" % float(cloud), mode="eval").body, h.st, h.mod, None)
        self.out = h.meth(m.tm, "n_electrons_released_and_captured", free, fill, self.dwell, vnum(1))
        w = h.get(m.tm, "watermarks")
        a = m.arrays(w)
        n = T.const(a[0].shape[0].term) if len(a) == 1 and a[0].shape is not None and a[0].shape[0].term is not None else None
        if n is None:
            raise Missing("size of the state")
        self.cells = m.read(w, int(n))
        if self.cells is None:
            raise Missing("the state")

    def at(self, x, s):
        """occupation of species s at fractional volume x of the pixel, fill of the traps not covered by any level: empty"""
        r = self.m.empty
        cum = [ZERO]
        for row in self.cells:
            cum.append(add(cum[-1], row[0]))
        for i in reversed(range(len(self.cells))):
            r = ite(T.lt(num(x), cum[i + 1]), self.cells[i][s + 1], r)
        return r

    def fill_of(self, t):
        return t


def pieces(vols, cloud):
    """[(from, to, level or None)] of the volume, cut at the levels and at the cloud"""
    ends = [F(0)]
    for v in vols:
        ends.append(ends[-1] + v)
    cuts = sorted(set(ends) | {cloud})
    out = []
    for a, b in zip(cuts, cuts[1:]):
        lv = next((i for i in range(len(vols)) if ends[i] <= a < ends[i + 1]), None)
        out.append((a, b, lv))
    return out


def exp_(t):
    return app("exp", t)


def limit(rep, mods, cls, kind, S, vols, cloud):
    what = "%s, %d species, levels of %s, a cloud of %s with few electrons: exactly those end up in traps" % (cls, S, "/".join(map(str, vols)) or "none", cloud)
    where = W % cls
    free = num(F(1, 5000))
    try:
        o = One(mods, cls, kind, S, vols, cloud, V(term=free, const=None, lo=0, unit=CHARGE), brief=kind != "Trap")
    except (Missing, Dead) as e:
        rep.undecided("limit", what, repr(e))
        return
    rep.covered(o.h.ip)
    if o.out.term is None:
        rep.undecided("limit", what, "what is reported was not followed")
        return
    got = o.out.term
    if unknown_term(got):
        rep.undecided("limit", what, str(got)[:200])
        return
    # few for ordinary densities and dwell times; where more is released above the cloud than it could ever capture, the net is a release
    ys = [T.Valuation(k).term(got) for k in range(8)]
    ys = [y for y in ys if not math.isnan(y)]
    net = [y for y in ys if y < 0] or ys
    wrong = [y for y in net if abs(y + float(T.const(free))) > 1e-6]
    if not wrong and net:
        rep.ok("limit", what, where)
    elif wrong and not opaque(got):
        rep.violation("limit", what, where, "it is %.6g, not minus %.6g: %s" % (wrong[0], float(T.const(free)), str(got)[:200]))
    else:
        rep.undecided("limit", what, str(got)[:200])


def evolve(rep, mods, cls, kind, S, vols, cloud, cap):
    what = "%s, %d species%s, levels of %s, a cloud of %s" % (cls, S, "" if cap is None else " captured at once", "/".join(map(str, vols)) or "none", cloud)
    where = W % cls
    free = num(MANY) if cloud else ZERO
    try:
        o = One(mods, cls, kind, S, vols, cloud, V(term=free, const=None, lo=0, unit=CHARGE), cap)
        m, d = o.m, o.dwell.term
    except (Missing, Dead) as e:
        rep.undecided("model", what, repr(e))
        return
    rep.covered(o.h.ip)
    above, all_ = ZERO, ZERO
    for a, b, lv in pieces(vols, cloud):
        x = (a + b) / 2
        for s in range(S):
            de, tr, tc = m.par[s]
            old = o.occ[lv][s] if lv is not None else m.empty
            inside = x < cloud
            if m.track:
                want = ZERO if inside else T.add(old, d) if lv is not None else m.empty
            elif kind == "TrapInstantCapture":
                want = ONE if inside else mul(old, exp_(T.div(sub(ZERO, d), tr)))
            elif cap == 0:
                want = ONE if inside else mul(old, exp_(T.div(sub(ZERO, d), tr)))
            else:
                er, cr = T.div(ONE, tr), T.div(ONE, tc)
                tot = add(er, cr)
                f = T.div(sub(ONE, exp_(sub(ZERO, mul(tot, d)))), tot)
                want = add(mul(old, sub(ONE, mul(er, f))), mul(sub(ONE, old), mul(cr, f))) if inside else mul(old, exp_(sub(ZERO, mul(er, d))))
            if lv is not None and not m.track:
                rel = mul(mul(num(b - a), de), mul(old, sub(ONE, exp_(T.div(sub(ZERO, d), tr)))))
                all_ = add(all_, rel)
                if not inside:
                    above = add(above, rel)
            got = o.at(x, s)
            w = "%s: traps between %s and %s of the pixel, %s the cloud" % (what, a, b, "within" if inside else "above")
            judge(rep, "model", w + (", species %d" % s if S > 1 else ""), where, got, want)
    top = max(sum(vols, F(0)), cloud)
    for s in range(S):
        tot = ZERO
        for row in o.cells:
            tot = add(tot, row[0])
        judge(rep, "model", what + ": the levels reach as far as traps were exposed", where, tot, num(top))
        break
    if m.track:
        return
    # the cloud is as large as the electrons it consists of make it
    w = what + ": the volume asked for is that of the free electrons and those released into the cloud"
    ok = [free, add(free, all_)] if kind == "TrapInstantCapture" else [free, add(free, above)]
    if not o.asked or any(t is None or unknown_term(t) for t in o.asked):
        rep.undecided("cloud", w, "not followed")
        return
    rs = [[T.same(scaled(t), scaled(x)) for x in ok] for t in o.asked]
    bad = [t for t, r in zip(o.asked, rs) if not any(x is not False for x in r)]
    last = rs[-1][1]
    if bad and not opaque(bad[0]):
        rep.violation("cloud", w, where, "asked for %s electrons" % str(bad[0])[:200])
    elif last is False and not opaque(o.asked[-1]):
        rep.violation("cloud", w, where, "in the end asked for %s electrons, not %s" % (str(o.asked[-1])[:200], str(ok[1])[:200]))
    else:
        rep.expect(True if last is True else None, "cloud", w, where, str(o.asked)[:200])


def scaled(t):
    """differences from the number supplied count"""
    return sub(t, num(MANY)) if T.same(t, ZERO) is not True and bounds(t)[0] > MANY / 2 else t


def judge(rep, rule, what, where, got, want, wide=True):
    if unknown_term(got):
        rep.undecided(rule, what, str(got)[:200])
        return
    r = T.same(got, want, wide=wide)
    if r is True:
        rep.ok(rule, what, where)
    elif r is False and not opaque(got):
        rep.violation(rule, what, where, "it is %s, not %s" % (str(got)[:200], str(want)[:200]))
    else:
        rep.undecided(rule, what, str(got)[:200])
