"""The drivers (adding, removing) with the clocking kernel summarised."""
from scen import *


def kernel_name(mods, entry="add_cti"):
    """the function that runs the trap managers over the pixels of one direction: the only function reachable from the driver,
    by name, that calls the managers' release-and-capture step; found from the call graph, not by its name"""
    calls = {}
    home = {}
    has = set()
    for mn, m in mods.items():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                cs = set()
                for c in ast.walk(n):
                    if isinstance(c, ast.Call):
                        f = c.func
                        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                        if nm == STEP and n.name != STEP:
                            has.add(n.name)
                        if isinstance(f, ast.Name):
                            cs.add(f.id)
                calls.setdefault(n.name, set()).update(cs)
                home.setdefault(n.name, mn)

    def leads(n, seen):
        if n in has:
            return True
        seen.add(n)
        return any(leads(x, seen) for x in calls.get(n, ()) if x in calls and x not in seen)
    reach, todo = set(), [entry]
    while todo:
        x = todo.pop()
        if x not in reach:
            reach.add(x)
            todo += [y for y in calls.get(x, ()) if y in calls]
    inner = {home[x] for x in has & reach}
    # the step may sit in a function of its own: the one that other modules call
    out = sorted({y for x in reach for y in calls.get(x, ()) if y in calls and y != entry and home[y] in inner and home[x] != home[y] and leads(y, set())})
    if len(out) != 1:
        out = sorted(x for x in has & reach if x != entry)
    if len(out) != 1:
        # functions of one module: those that only such functions call are part of the other
        out = [x for x in out if not any(x in calls[y] for y in out if y != x)]
    return out[0] if len(out) == 1 else None


def cut_kernel(log):
    def cut(ip, f, env, st, node):
        img = None
        for k, v in env.items():
            for l in v.locs():
                if img is None and isinstance(st.heap.get(l), Arr):
                    o = ip.arr(l, st)
                    if len(o.shape or ()) == 2 and k != "self":
                        img = (k, v, o)
        if img is None:
            return NotImplemented
        k, v, o = img
        n = len(log) + 1
        t = app("KER%d" % n, o.v.term)
        ARRND[single_atom(t).id] = 2
        log.append(dict(env=dict(env), image=k, content=o.v.term, shape=o.shape, out=t, node=node, locs=list(v.locs())))
        return vref(ip.alloc(st, node, Arr(o.v.but(term=t, lo=-INF, hi=INF), o.shape, None, "f"), ("ker", n)))
    return cut


