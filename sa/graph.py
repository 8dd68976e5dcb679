"""Comparison of object graphs: does a value, in one state, have the same content as a value in another state?"""
from scen import *


def differences(h, s1, v1, s2, v2, limit=40):
    """[(path, verdict, detail)] for the leaves: verdict False (definitely different) or None (cannot tell); equal leaves counted"""
    out = []
    n = [0]
    seen = set()

    def go(p, a, b):
        if len(out) > limit:
            return
        if a is None or b is None:
            if a is not b:
                out.append((p, None, "missing"))
            return
        la, lb = a.locs(), b.locs()
        if la or lb:
            if len(la) != 1 or len(lb) != 1:
                out.append((p, None, "several objects"))
                return
            k = (la[0], lb[0])
            if k in seen:
                return
            seen.add(k)
            oa, ob = s1.heap.get(la[0]), s2.heap.get(lb[0])
            if type(oa) is not type(ob):
                out.append((p, None if oa is None or ob is None else False, "%s / %s" % (type(oa).__name__, type(ob).__name__)))
                return
            if isinstance(oa, Arr):
                x, y = h.ip.arr(la[0], s1), h.ip.arr(lb[0], s2)
                leaf(p, x.v.term, y.v.term)
                for i, (q, r) in enumerate(zip(x.shape or (), y.shape or ())):
                    if q is not None and r is not None:
                        leaf(p + ".shape%d" % i, q.term, r.term)
            elif isinstance(oa, Inst):
                if oa.cls is not ob.cls:
                    out.append((p, False, "class"))
                for k in sorted(set(oa.attrs) | set(ob.attrs)):
                    go(p + "." + k, oa.attrs.get(k), ob.attrs.get(k))
            elif isinstance(oa, Lst):
                if oa.elems is not None and ob.elems is not None:
                    if len(oa.elems) != len(ob.elems):
                        out.append((p, False, "length"))
                    for i, (q, r) in enumerate(zip(oa.elems, ob.elems)):
                        go("%s[%d]" % (p, i), q, r)
                elif oa.elems is None and ob.elems is None:
                    go(p + "[]", oa.elem, ob.elem)
                else:
                    out.append((p, None, "length"))
            elif isinstance(oa, Env):
                pass
            return
        if a.is_none or b.is_none:
            if a.is_none != b.is_none:
                out.append((p, False if not (a.unk or b.unk) else None, "None"))
            return
        if a.refs and b.refs and not a.unk and not b.unk:
            fa, fb = [set(code(r) for r in x.refs) for x in (a, b)]
            if fa == fb and None not in fa:
                n[0] += 1
            else:
                out.append((p, False if len(fa) == len(fb) == 1 and None not in fa | fb else None, "another function"))
            return
        leaf(p, a.term, b.term)

    def code(r):
        """the code behind a function value, whichever object it is bound to"""
        if isinstance(r, BoundRef):
            r = r.func
        if isinstance(r, FuncRef):
            return ("f", id(r.node))
        if isinstance(r, ClassRef):
            return ("c", id(r.cls))
        if isinstance(r, ExtRef):
            return ("x", r.name)
        return r if isinstance(r, str) else None

    def leaf(p, x, y):
        if x is y and x is not None:
            n[0] += 1
            return
        if x is None or y is None:
            out.append((p, None, "not followed"))
            return
        r = T.same(x, y)
        if r is True:
            n[0] += 1
        else:
            out.append((p, None if r is None or unknown_term(x) or unknown_term(y) else False, "%s / %s" % (str(x)[:200], str(y)[:200])))
    go("", v1, v2)
    return out, n[0]


def arrays(h, st, v):
    """the arrays reachable from v: {loc: path}"""
    out = {}
    seen = set()

    def go(p, x):
        for l in x.locs():
            if l in seen:
                continue
            seen.add(l)
            o = st.heap.get(l)
            if isinstance(o, Arr):
                out[l] = p
            elif isinstance(o, Inst):
                for k, y in sorted(o.attrs.items()):
                    go(p + "." + k, y)
            elif isinstance(o, Lst):
                for i, y in enumerate(o.elems if o.elems is not None else [o.elem] if o.elem is not None else []):
                    go("%s[%d]" % (p, i), y)
    go("", v)
    return out
