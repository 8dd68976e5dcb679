"""No option combination reaches an undefined name, a missing attribute or a call that cannot bind its arguments."""
import builtins
import symtable  # noqa: F401

from suite import *

KINDS_ = {"nameerror": "a name that is not bound", "attrerror": "an attribute that does not exist", "arity": "a call whose arguments do not match",
          "typeerror": "an operation on a value of the wrong kind", "divzero": "a division by zero"}


def run(mods, rep):
    rep.parallel([(names, (mods,))] + [(one, (mods, n, f)) for n, f in jobs(mods)])


def one(rep, mods, name, f):
    H.last = None
    try:
        r = f()
    except Missing:
        return
    except Dead:
        if H.last is None:
            rep.ok("resolution", "%s: rejected" % name)
            return
        r = Run(name, H.last, H.last.ip.events)
    rep.covered(r.h.ip)
    bad = 0
    for e in r.events:
        if e.kind in KINDS_:
            bad += 1
            d = {k: str(v)[:150] for k, v in e.data.items()}
            rep.violation("resolution", "%s reaches %s (%s)" % (r.name, KINDS_[e.kind], ", ".join(d.values())[:200]), e.where, str([str(p[0])[:200] for p in e.path][-3:]))
    if not bad:
        rep.ok("resolution", "%s: every name, attribute and call on the way resolves" % r.name)


# ------------------------------------------------------------------ lexical resolution of every name in the package
SCOPES = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound(node):
    """names bound directly in the scope of a function / class / module / comprehension"""
    out, glob = set(), set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            out.add(x.arg)
    body = node.body if isinstance(getattr(node, "body", None), list) else [node.body] if hasattr(node, "body") else []
    if isinstance(node, SCOPES[3:]):
        body = [g.target for g in node.generators]
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            todo += x.decorator_list
            continue
        if isinstance(x, SCOPES):
            # a walrus inside a comprehension binds outside; not used here
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        elif type(x).__name__ in ("MatchAs", "MatchStar") and x.name:
            out.add(x.name)
        todo += list(ast.iter_child_nodes(x))
    return out, glob


def names(rep, mods):
    for key, m in mods.items():
        glob, _ = bound(m.tree)
        star = any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(m.tree))
        extra = set()
        for attr in ("cnames", "ctypes", "cimports", "typedefs", "globals"):
            v = getattr(m, attr, None)
            if isinstance(v, (set, dict, list)):
                extra |= set(v)
        declared = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                declared |= set(x.names)
        base = glob | extra | declared | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__path__", "__builtins__"}
        n = bad = 0

        def visit(node, around, env, qual):
            """around: names visible at the definition (decorators, defaults); env: names visible inside, without its own"""
            mine = env | bound(node)[0]
            for fld, val in ast.iter_fields(node):
                outer = fld in ("decorator_list", "args", "returns", "bases", "keywords") and isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                for x in val if isinstance(val, list) else [val]:
                    if isinstance(x, ast.AST):
                        # names of a class body are not visible inside its methods
                        walk(x, around if outer else mine, env if isinstance(node, ast.ClassDef) else mine, qual)

        def walk(x, env, inner, qual):
            nonlocal n, bad
            if isinstance(x, SCOPES):
                visit(x, env, inner, qual + "." + getattr(x, "name", "<%s>" % type(x).__name__.lower()))
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                n += 1
                if x.id not in env and not star and not x.id.startswith("__"):
                    bad += 1
                    rep.violation("names", "the name %r is never bound" % x.id, "%s:%s in %s" % (m.path, getattr(x, "lineno", "?"), qual))
            for y in ast.iter_child_nodes(x):
                walk(y, env, inner, qual)

        visit(m.tree, base, base, key)
        if not bad:
            rep.ok("names", "%s: all %d uses of names have a binding in scope" % (m.path, n), m.path)
