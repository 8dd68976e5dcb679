"""Front end: every source file of the package, as Python syntax trees.

Plain .py files go through `ast`; .pyx files go through the Cython compiler's own
parser (Cython.Compiler) and are then translated to the same Python tree, with the
C-level facts (declared types, directives, cdef/cpdef, nogil) kept as attributes:

    FunctionDef._cy      {'kind': 'def'|'cdef'|'cpdef', 'directives': {...}, 'types': {name: CType},
                          'ret': CType|None}
    <assign node>._ctype CType of the declared target, when it is declared in this function

Nothing is imported from the analysed package and nothing of it is executed.
"""
import ast
import hashlib
import io
import os


class CType:
    def __init__(self, base, ndim=0, ptr=False, axes=None):
        self.base, self.ndim, self.ptr, self.axes = base, ndim, ptr, axes

    def __repr__(self):
        return "CType(%s,%d%s)" % (self.base, self.ndim, ",ptr" if self.ptr else "")

    @property
    def is_int(self):
        b = self.base or ""
        return not self.ndim and not self.ptr and ("int" in b or b in ("long", "short", "char", "bint", "Py_ssize_t", "size_t", "ssize_t")) and b != "bint"

    @property
    def is_float(self):
        b = self.base or ""
        return not self.ndim and not self.ptr and ("float" in b or b == "double")


SIZES = {"float64_t": 8, "int64_t": 8, "uint64_t": 8, "double": 8, "long": 8, "size_t": 8, "Py_ssize_t": 8, "ssize_t": 8, "float32_t": 4, "float": 4,
         "int32_t": 4, "uint32_t": 4, "int": 4, "bint": 4, "int16_t": 2, "uint16_t": 2, "short": 2, "int8_t": 1, "uint8_t": 1, "char": 1, "float_t": 8,
         "double_t": 8, "int_t": 8, "intp_t": 8, "uint_t": 8}


def sizeof(name):
    """bytes of a C type, where it is one of the usual ones"""
    return SIZES.get(name)


class FrontendError(Exception):
    pass


class Module:
    def __init__(self, name, path, tree, src, cython=False):
        self.name, self.path, self.tree, self.src, self.cython = name, path, tree, src, cython
        self.notes = []


# --------------------------------------------------------------------------
#  Cython -> Python ast
# --------------------------------------------------------------------------
_BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod,
        "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift,
        ">>": ast.RShift, "@": ast.MatMult}
_CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq,
        "in": ast.In, "not_in": ast.NotIn, "is": ast.Is, "is_not": ast.IsNot}


class CyConv:
    def __init__(self, modname):
        self.modname = modname
        self.types = [{}]
        self.unknown = []

    # -- helpers
    def loc(self, new, old):
        pos = getattr(old, "pos", None)
        line, col = (pos[1], pos[2]) if pos else (0, 0)
        for n in ast.walk(new):
            if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.excepthandler)):
                n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = line, col, line, col
        return new

    def ctype(self, base_type, declarator=None):
        k = type(base_type).__name__
        ct = None
        if k == "CSimpleBaseTypeNode":
            name = base_type.name
            ct = CType(name) if name else None
        elif k == "MemoryViewSliceTypeNode":
            inner = self.ctype(base_type.base_type_node)
            ct = CType(inner.base if inner else None, ndim=len(base_type.axes))
        elif k == "TemplatedTypeNode":
            inner = self.ctype(base_type.base_type_node)
            ct = CType(inner.base if inner else None, ndim=1)
        d = declarator
        while d is not None and type(d).__name__ != "CNameDeclaratorNode":
            if type(d).__name__ == "CPtrDeclaratorNode" and ct:
                ct = CType(ct.base, ct.ndim, ptr=True)
            elif type(d).__name__ == "CArrayDeclaratorNode" and ct:
                ct = CType(ct.base, ct.ndim + 1)
            d = getattr(d, "base", None)
        return ct

    @staticmethod
    def declname(d):
        while d is not None and type(d).__name__ != "CNameDeclaratorNode":
            d = getattr(d, "base", None)
        return d

    # -- statements
    def stmts(self, node):
        if node is None:
            return []
        k = type(node).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            if k.endswith("ExprNode") or hasattr(node, "is_temp"):
                return [self.loc(ast.Expr(self.expr(node)), node)]
            self.unknown.append((k, getattr(node, "pos", (None, 0, 0))[1]))
            call = ast.Call(ast.Name("__unknown_stmt__", ast.Load()), [], [])
            return [self.loc(ast.Expr(call), node)]
        out = m(node)
        if out is None:
            out = []
        if not isinstance(out, list):
            out = [out]
        return [self.loc(o, node) for o in out]

    def block(self, node):
        b = self.stmts(node)
        return b or [self.loc(ast.Pass(), node)] if node is not None else []

    def s_StatListNode(self, n):
        out = []
        for s in n.stats:
            out += self.stmts(s)
        return out

    def s_ExprStatNode(self, n):
        return ast.Expr(self.expr(n.expr))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_CImportStatNode(self, n):
        return []

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(x[1], x[2] if len(x) > 2 else None) for x in n.imported_names]
        return [ast.ImportFrom("__c__." + str(n.module_name), names, 0)]

    def s_FromImportStatNode(self, n):
        names = []
        for name, target in n.items:
            tname = getattr(target, "name", None)
            names.append(ast.alias(str(name), tname if tname != str(name) else None))
        return ast.ImportFrom(str(n.module.module_name.value), names, 0)

    def s_CDefExternNode(self, n):
        return []

    def s_CTypeDefNode(self, n):
        return []

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            ct = self.ctype(n.base_type, d)
            nd = self.declname(d)
            self.types[-1][nd.name] = ct
            default = getattr(nd, "default", None) or getattr(d, "default", None)
            if default is not None:
                a = ast.Assign([ast.Name(nd.name, ast.Store())], self.expr(default))
                a._ctype = ct
                out.append(a)
        return out

    def func(self, n, name, args, body, kind, decorators, ret=None, directives=None, star=None, starstar=None):
        self.types.append({})
        pargs, defaults, kwonly, kwdefaults = [], [], [], []
        for a in args:
            nd = self.declname(a.declarator)
            aname = nd.name if nd is not None else ""
            ct = self.ctype(a.base_type, a.declarator)
            if not aname:
                # "def f(x)": the name is parsed as the base type
                aname = getattr(a.base_type, "name", None)
                ct = None
            if aname is None:
                continue
            if ct is not None and ct.base is not None and a.base_type is not None:
                self.types[-1][aname] = ct
            arg = ast.arg(aname, None)
            if getattr(a, "kw_only", 0):
                kwonly.append(arg)
                kwdefaults.append(self.expr(a.default) if a.default is not None else None)
            else:
                pargs.append(arg)
                if a.default is not None:
                    defaults.append(self.expr(a.default))
        b = self.block(body)
        dirs = {}
        for dec in decorators or []:
            e = dec.decorator
            if type(e).__name__ in ("SimpleCallNode", "GeneralCallNode"):
                try:
                    fn = e.function
                    aname = getattr(fn, "attribute", None) or getattr(fn, "name", None)
                    val = e.args[0] if hasattr(e, "args") and e.args else None
                    dirs[aname] = getattr(val, "value", None)
                except Exception:
                    pass
        f = ast.FunctionDef(name=name,
                            args=ast.arguments(posonlyargs=[], args=pargs,
                                               vararg=ast.arg(star.name, None) if star else None,
                                               kwonlyargs=kwonly, kw_defaults=kwdefaults,
                                               kwarg=ast.arg(starstar.name, None) if starstar else None,
                                               defaults=defaults),
                            body=b or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        f._cy = {"kind": kind, "directives": dirs, "types": self.types.pop(), "ret": ret}
        return f

    def s_DefNode(self, n):
        return self.func(n, n.name, n.args, n.body, "def", n.decorators, star=n.star_arg, starstar=n.starstar_arg)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        ret = self.ctype(n.base_type, None)
        f = self.func(n, self.declname(d).name, d.args, n.body, "cpdef" if n.overridable else "cdef",
                      n.decorators, ret=ret)
        return f

    def s_PyClassDefNode(self, n):
        bases = [self.expr(b) for b in (n.bases.args if getattr(n, "bases", None) is not None else [])]
        return ast.ClassDef(name=n.name, bases=bases, keywords=[], body=self.block(n.body) or [ast.Pass()],
                            decorator_list=[], type_params=[])

    def s_CClassDefNode(self, n):
        return ast.ClassDef(name=n.class_name, bases=[], keywords=[], body=self.block(n.body) or [ast.Pass()],
                            decorator_list=[], type_params=[])

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = str(n.rhs.module_name.value)
            asname = n.lhs.name
            return ast.Import([ast.alias(mod, asname if asname != mod else None)])
        a = ast.Assign([self.expr(n.lhs, ast.Store())], self.expr(n.rhs))
        if type(n.lhs).__name__ == "NameNode":
            a._ctype = self.types[-1].get(n.lhs.name)
        return a

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.expr(l, ast.Store()) for l in n.lhs_list], self.expr(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        op = _BIN[n.operator]()
        return ast.AugAssign(self.expr(n.lhs, ast.Store()), op, self.expr(n.rhs))

    def s_DelStatNode(self, n):
        return ast.Delete([self.expr(a, ast.Del()) for a in n.args])

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            i = ast.If(self.expr(c.condition), self.block(c.body) or [ast.Pass()], orelse)
            self.loc(i, c)
            orelse = [i]
        return orelse

    def s_ForInStatNode(self, n):
        return ast.For(self.expr(n.target, ast.Store()), self.expr(n.iterator), self.block(n.body) or [ast.Pass()],
                       self.block(n.else_clause) if n.else_clause is not None else [])

    def s_ForFromStatNode(self, n):
        # for lo <= i < hi [by step]
        lo, hi = self.expr(n.bound1), self.expr(n.bound2)
        if n.relation1 == "<":
            lo = ast.BinOp(lo, ast.Add(), ast.Constant(1))
        if n.relation2 == "<=":
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        args = [lo, hi] + ([self.expr(n.step)] if n.step is not None else [])
        return ast.For(self.expr(n.target, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []),
                       self.block(n.body) or [ast.Pass()], [])

    def s_WhileStatNode(self, n):
        return ast.While(self.expr(n.condition), self.block(n.body) or [ast.Pass()],
                         self.block(n.else_clause) if n.else_clause is not None else [])

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ReturnStatNode(self, n):
        return ast.Return(self.expr(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.expr(n.exc_type) if n.exc_type is not None else None, None)

    def s_AssertStatNode(self, n):
        cond = getattr(n, "condition", None)
        if cond is None:
            cond = getattr(n, "cond", None)
        return ast.Assert(self.expr(cond), None)

    def s_GILStatNode(self, n):
        b = self.block(n.body)
        for s in b:
            for x in ast.walk(s):
                x._nogil = (n.state == "nogil")
        return b

    def s_WithStatNode(self, n):
        item = ast.withitem(self.expr(n.manager), self.expr(n.target, ast.Store()) if n.target is not None else None)
        return ast.With([item], self.block(n.body) or [ast.Pass()])

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = None
            if c.pattern:
                pats = [self.expr(p) for p in c.pattern]
                pat = pats[0] if len(pats) == 1 else ast.Tuple(pats, ast.Load())
            tgt = getattr(c.target, "name", None) if c.target is not None else None
            hs.append(self.loc(ast.ExceptHandler(pat, tgt, self.block(c.body) or [ast.Pass()]), c))
        return ast.Try(self.block(n.body) or [ast.Pass()], hs, self.block(n.else_clause) if n.else_clause else [], [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.block(n.body) or [ast.Pass()], [], [], self.block(n.finally_clause))

    def s_GlobalNode(self, n):
        return ast.Global(list(n.names))

    # -- expressions
    def expr(self, n, ctx=None):
        if n is None:
            return ast.Constant(None)
        ctx = ctx or ast.Load()
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k in ("IteratorNode",):
                return self.expr(n.sequence)
            op = getattr(n, "operator", None)
            if hasattr(n, "operand1") and op in _BIN:
                e = ast.BinOp(self.expr(n.operand1), _BIN[op](), self.expr(n.operand2))
                return self.loc(e, n)
            self.unknown.append((k, getattr(n, "pos", (None, 0, 0))[1]))
            return self.loc(ast.Call(ast.Name("__unknown_expr__", ast.Load()), [], []), n)
        return self.loc(m(n, ctx), n)

    def e_NameNode(self, n, ctx):
        return ast.Name(str(n.name), ctx)

    def e_AttributeNode(self, n, ctx):
        return ast.Attribute(self.expr(n.obj), str(n.attribute), ctx)

    def e_IntNode(self, n, ctx):
        return ast.Constant(int(str(n.value).rstrip("LlUu"), 0))

    def e_FloatNode(self, n, ctx):
        return ast.Constant(float(n.value))

    def e_BoolNode(self, n, ctx):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n, ctx):
        return ast.Constant(None)

    def e_NullNode(self, n, ctx):
        return ast.Constant(None)

    def e_EllipsisNode(self, n, ctx):
        return ast.Constant(Ellipsis)

    def e_IdentifierStringNode(self, n, ctx):
        return ast.Constant(str(n.value))

    e_StringNode = e_UnicodeNode = e_BytesNode = e_IdentifierStringNode

    def e_JoinedStrNode(self, n, ctx):
        parts = []
        for x in getattr(n, "values", None) or []:
            if type(x).__name__ == "FormattedValueNode":
                parts.append(ast.FormattedValue(self.expr(x.value), -1, None))
            else:
                parts.append(ast.Constant("<text>"))
        return ast.JoinedStr(parts)

    def e_TupleNode(self, n, ctx):
        return ast.Tuple([self.expr(a, ctx) for a in n.args], ctx)

    def e_ListNode(self, n, ctx):
        return ast.List([self.expr(a, ctx) for a in n.args], ctx)

    def e_SetNode(self, n, ctx):
        return ast.Set([self.expr(a) for a in n.args])

    def e_DictNode(self, n, ctx):
        return ast.Dict([self.expr(i.key) for i in n.key_value_pairs], [self.expr(i.value) for i in n.key_value_pairs])

    def e_SliceNode(self, n, ctx):
        def s(x):
            return None if x is None or type(x).__name__ == "NoneNode" else self.expr(x)
        return ast.Slice(s(n.start), s(n.stop), s(n.step))

    def e_IndexNode(self, n, ctx):
        return ast.Subscript(self.expr(n.base), self.expr(n.index), ctx)

    def e_SliceIndexNode(self, n, ctx):
        return ast.Subscript(self.expr(n.base), ast.Slice(self.expr(n.start) if n.start is not None else None,
                                                          self.expr(n.stop) if n.stop is not None else None, None), ctx)

    def e_SimpleCallNode(self, n, ctx):
        return ast.Call(self.expr(n.function), [self.expr(a) for a in n.args], [])

    def e_GeneralCallNode(self, n, ctx):
        pos = n.positional_args
        args = [self.expr(a) for a in pos.args] if hasattr(pos, "args") else [ast.Starred(self.expr(pos), ast.Load())]
        kws = []
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ == "DictNode":
                for i in n.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(str(i.key.value), self.expr(i.value)))
            else:
                kws.append(ast.keyword(None, self.expr(n.keyword_args)))
        return ast.Call(self.expr(n.function), args, kws)

    def e_UnaryMinusNode(self, n, ctx):
        return ast.UnaryOp(ast.USub(), self.expr(n.operand))

    def e_UnaryPlusNode(self, n, ctx):
        return ast.UnaryOp(ast.UAdd(), self.expr(n.operand))

    def e_NotNode(self, n, ctx):
        return ast.UnaryOp(ast.Not(), self.expr(n.operand))

    def e_TildeNode(self, n, ctx):
        return ast.UnaryOp(ast.Invert(), self.expr(n.operand))

    def e_BoolBinopNode(self, n, ctx):
        return ast.BoolOp(ast.And() if n.operator == "and" else ast.Or(), [self.expr(n.operand1), self.expr(n.operand2)])

    def e_PrimaryCmpNode(self, n, ctx):
        ops, comps = [_CMP[n.operator]()], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(self.expr(n.operand1), ops, comps)

    def e_CondExprNode(self, n, ctx):
        return ast.IfExp(self.expr(n.condition if hasattr(n, "condition") else n.test), self.expr(n.true_val), self.expr(n.false_val))

    def e_TypecastNode(self, n, ctx):
        c = ast.Call(ast.Name("__cast__", ast.Load()), [self.expr(n.operand)], [])
        c._ctype = self.ctype(n.base_type, n.declarator)
        return c

    def e_SizeofVarNode(self, n, ctx):
        c = ast.Call(ast.Name("__sizeof__", ast.Load()), [], [])
        o = getattr(n, "operand", None)
        c._size = sizeof(getattr(o, "attribute", None) or getattr(o, "name", None))
        return c

    def e_SizeofTypeNode(self, n, ctx):
        c = ast.Call(ast.Name("__sizeof__", ast.Load()), [], [])
        t = self.ctype(n.base_type, getattr(n, "declarator", None))
        c._size = None if t is None or t.ndim else 8 if t.ptr else sizeof(t.base)
        return c

    def e_LambdaNode(self, n, ctx):
        args = [ast.arg(self.declname(a.declarator).name or a.base_type.name, None) for a in n.args]
        return ast.Lambda(ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[],
                                        kwarg=None, defaults=[]), self.expr(n.result_expr))

    def e_StarredUnpackingNode(self, n, ctx):
        return ast.Starred(self.expr(n.target), ctx)

    def e_ComprehensionNode(self, n, ctx):
        gens, elt = [], None

        def walk(s):
            nonlocal elt
            k = type(s).__name__
            if k == "StatListNode":
                for x in s.stats:
                    walk(x)
            elif k == "ForInStatNode":
                gens.append(ast.comprehension(self.expr(s.target, ast.Store()), self.expr(s.iterator), [], 0))
                walk(s.body)
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.expr(s.if_clauses[0].condition))
                walk(s.if_clauses[0].body)
            elif k == "ComprehensionAppendNode":
                elt = self.expr(s.expr)
            elif k == "ExprStatNode":
                walk(s.expr)
            elif k == "YieldExprNode":
                elt = self.expr(s.arg)
        walk(n.loop)
        if elt is None:
            return ast.Call(ast.Name("__unknown_expr__", ast.Load()), [], [])
        return ast.ListComp(elt, gens)

    e_InlinedGeneratorExpressionNode = None

    def e_GeneratorExpressionNode(self, n, ctx):
        try:
            gens, elt = [], None
            s = n.loop
            c = ast.Call(ast.Name("__unknown_expr__", ast.Load()), [], [])
            k = type(s).__name__
            while True:
                k = type(s).__name__
                if k == "ForInStatNode":
                    gens.append(ast.comprehension(self.expr(s.target, ast.Store()), self.expr(s.iterator), [], 0))
                    s = s.body
                elif k == "IfStatNode":
                    gens[-1].ifs.append(self.expr(s.if_clauses[0].condition))
                    s = s.if_clauses[0].body
                elif k == "StatListNode":
                    s = s.stats[-1]
                elif k == "ExprStatNode":
                    s = s.expr
                elif k == "YieldExprNode":
                    elt = self.expr(s.arg)
                    break
                else:
                    return c
            return ast.GeneratorExp(elt, gens)
        except Exception:
            return ast.Call(ast.Name("__unknown_expr__", ast.Load()), [], [])


CyConv.e_InlinedGeneratorExpressionNode = lambda self, n, ctx: self.expr(n.gen)


def _parse_cython(path, modname):
    try:
        from Cython.Compiler import Errors, Options, Parsing
        from Cython.Compiler.Main import CompilationOptions, Context
        from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
        from Cython.Compiler.Symtab import ModuleScope
    except Exception as e:  # pragma: no cover
        raise FrontendError("the Cython parser is not available: %s" % e)
    src = open(path, encoding="utf-8").read()
    ctx = Context.from_options(CompilationOptions(Options.default_options))
    Errors.init_thread()
    sc = PyrexScanner(io.StringIO(src), FileSourceDescriptor(path), source_encoding="utf-8",
                      scope=ModuleScope(modname, None, ctx), context=ctx)
    tree = Parsing.p_module(sc, 0, modname)
    conv = CyConv(modname)
    body = conv.stmts(tree.body)
    mod = ast.Module(body=body, type_ignores=[])
    return mod, src, conv.unknown


def load_package(root, package="arcticpy"):
    """All modules of /repo/<package> (recursively), parsed."""
    mods = {}
    base = os.path.join(root, package)
    if not os.path.isdir(base):
        raise FrontendError("no package directory %s" % base)
    for d, dirs, files in sorted(os.walk(base)):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            path = os.path.join(d, f)
            rel = os.path.relpath(path, root)
            if f.endswith(".py"):
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                src = open(path, encoding="utf-8").read()
                mods[name] = Module(name, rel, ast.parse(src, filename=rel), src)
            elif f.endswith(".pyx"):
                name = rel[:-4].replace(os.sep, ".")
                tree, src, unknown = _parse_cython(path, name)
                m = Module(name, rel, tree, src, cython=True)
                m.notes = unknown
                mods[name] = m
    return mods


def digest(mods):
    h = hashlib.sha256()
    for n in sorted(mods):
        h.update(n.encode())
        h.update(mods[n].src.encode())
    return h.hexdigest()


if __name__ == "__main__":
    import sys
    ms = load_package(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    for n, m in ms.items():
        print("#####", n, m.path, m.notes)
        if m.cython:
            print(ast.unparse(ast.fix_missing_locations(m.tree)))
            for f in ast.walk(m.tree):
                if hasattr(f, "_cy"):
                    print(f.name, f._cy)
