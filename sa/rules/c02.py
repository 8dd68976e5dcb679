"""No hidden state: nothing outlives a call in modules, classes, defaults or the caller's objects; random draws are seeded by the arguments."""
from suite import *

AMBIENT = ("time.", "datetime.", "random.", "os.urandom", "os.environ", "os.getenv", "uuid.", "secrets.", "builtins.id", "builtins.input", "builtins.open",
           "builtins.hash", "os.getpid")
MEMO = ("lru_cache", "cache", "cached_property", "memoize")


def run(mods, rep):
    rep.parallel([(lexical, (mods,))] + [(one, (mods, n, f)) for n, f in jobs(mods)] + [(seeded, (mods, k)) for k in KINDS])


def lexical(rep, mods):
    """methods must not be memoised on the identity of a mutable object"""
    for key, m in mods.items():
        n = bad = 0
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef):
                continue
            for f in c.body:
                if not isinstance(f, ast.FunctionDef):
                    continue
                n += 1
                for d in f.decorator_list:
                    d = d.func if isinstance(d, ast.Call) else d
                    nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""
                    if nm in MEMO:
                        bad += 1
                        rep.violation("no-memory", "%s.%s remembers its result for an object whose attributes can change" % (c.name, f.name), "%s:%d in %s.%s" % (m.path, f.lineno, c.name, f.name))
        if not bad:
            rep.ok("no-memory", "%s: none of %d methods is memoised" % (m.path, n), m.path)


def is_manager(name):
    return name.startswith(("TrapManager", "AllTrapManager"))


def one(rep, mods, name, f):
    try:
        r = f()
    except (Missing, Dead):
        return
    ip = r.h.ip
    rep.covered(ip)
    module = reach_all(ip)
    own = set()
    if r.before is not None and not is_manager(name):
        own = reach(ip, r.before, r.args)
    elif getattr(r, "roe", None) is not None and "clock sequence" not in name:
        own = reach(ip, r.h.st, [r.roe])
    bad = n = 0
    nonlocal_ = 0
    for e in r.events:
        w = None
        if e.kind == "globalstore":
            w = "a value is stored in %s" % e.data["what"]
        elif e.kind == "nonlocalstore":
            nonlocal_ += 1
        elif e.kind in ("attrstore", "arrstore", "mutate", "attrdel"):
            n += 1
            l = e.data.get("loc")
            if l in module:
                w = "an object that lives as long as the module (a module variable, class attribute or default argument) is changed"
            elif l in own and not in_init(e):
                old = e.data.get("old")
                if e.kind == "attrstore" and old is not None and old.key() == e.data["value"].key():
                    continue
                w = "an object of the caller is changed, so that the next call with it can differ"
        elif e.kind == "extcall":
            nm = str(e.data["name"])
            if nm.startswith(AMBIENT) or nm.split(".", 1)[-1].startswith(("time.time", "time.perf")):
                w = "the outcome depends on %s" % nm
        if w:
            bad += 1
            rep.violation("no-memory", "%s: %s" % (r.name, w), e.where, "%s %s" % (e.kind, {k: str(v)[:120] for k, v in e.data.items() if k in ("attr", "how", "name", "what")}))
    if not bad:
        if nonlocal_:
            rep.undecided("no-memory", r.name, "a nested function changes a variable of its defining function")
        else:
            rep.ok("no-memory", "%s: %d stores, none outlives the call" % (r.name, n))
    rngs(rep, r)
    empties(rep, r)


def in_init(e):
    return any("__init__" in str(x) for x in e.stack)


def reach_all(ip):
    return set(ip.root.heap)


def rngs(rep, r):
    """every draw is preceded by seeding with a value that depends on nothing but the arguments"""
    seeded = None
    for e in r.events:
        if e.kind != "rng":
            continue
        w = e.data["what"]
        a = list(e.data["args"]) + list(e.data["kwargs"].values())
        if w in ("seed", "default_rng", "RandomState"):
            if not a or a[0].is_none:
                rep.violation("seeded", "%s: the random generator is seeded from the operating system" % r.name, e.where)
                seeded = "os"
            elif any("random" in str(d) for d in a[0].deps):
                rep.violation("seeded", "%s: the random generator is seeded with a random value" % r.name, e.where)
            else:
                seeded = "arg"
                rep.ok("seeded", "%s: the generator is seeded from the arguments" % r.name, e.where)
        elif seeded is None:
            rep.violation("seeded", "%s: %s draws from a generator that was not seeded by this call" % (r.name, w), e.where)
        else:
            rep.ok("seeded", "%s: %s is drawn from the seeded generator" % (r.name, w), e.where)


def seeded(rep, mods, kind):
    """poisson_trap with an explicit seed: the seed given is the one used"""
    h = H(mods)
    c = h.cls(kind)
    if c is None or c.find("poisson_trap")[0] is None:
        return
    try:
        t = mk_trap(h, kind)
        sd = h.sym("seed", 0, isint=True, deps=frozenset(["seed"]))
        shape = h.put(Lst([h.sym("n_rows", 1, isint=True), h.sym("n_cols", 1, isint=True)], None, None, "tuple"))
        n0 = len(h.ip.events)
        h.meth(t, "poisson_trap", t, shape, seed=sd)
    except (Missing, Dead) as e:
        rep.undecided("seeded", "%s.poisson_trap with a seed" % kind, repr(e))
        return
    rep.covered(h.ip)
    ev = [e for e in h.ip.events[n0:] if e.kind == "rng" and e.data["what"] in ("seed", "default_rng", "RandomState")]
    if not ev:
        draws = [e for e in h.ip.events[n0:] if e.kind == "rng"]
        if draws:
            rep.violation("seeded", "%s.poisson_trap ignores its seed" % kind, draws[0].where)
        return
    for e in ev:
        a = list(e.data["args"]) + list(e.data["kwargs"].values())
        if a and "seed" in a[0].deps:
            rep.ok("seeded", "%s.poisson_trap seeds the generator with the seed it is given" % kind, e.where)
        elif a and not a[0].unk:
            rep.violation("seeded", "%s.poisson_trap does not seed the generator with the seed it is given" % kind, e.where)
        else:
            rep.undecided("seeded", "%s.poisson_trap" % kind, "seed value not modelled")


def empties(rep, r):
    """memory that was never written does not reach a result"""
    h = r.h
    stored = {}
    for e in r.events:
        if e.kind in ("arrstore", "mutate"):
            stored[e.data.get("loc")] = 1
            stored[e.data.get("via")] = 1
        elif e.kind in ("extcall", "opaquecall", "unsupported", "unkstore"):
            stored["?"] = 1
    for e in r.events:
        if e.kind == "uninit" and e.data["loc"] not in stored and not viewed(h, e.data["loc"], stored):
            if stored.get("?"):
                rep.undecided("initialised", "%s: %s" % (r.name, e.where), "an array without initial values may be filled by code that was not modelled")
            else:
                rep.violation("initialised", "%s: an array is never given values after it was allocated without any" % r.name, e.where)
    vals = [h.st.heap[l].v.term for l in (r.result.locs() if r.result is not None else []) if isinstance(h.st.heap.get(l), Arr)]
    for t in vals:
        if t is None:
            continue
        for a in T.atoms_of(t):
            if a.op == "empty":
                rep.undecided("initialised", r.name, "the result involves an array that starts without initial values")
                return


def viewed(h, l, stored):
    """some view of the array may have been written"""
    for m, o in h.st.heap.items():
        if isinstance(o, Arr) and getattr(o, "view", None) and o.view[0] == l and m in stored:
            return True
    return False
