"""Mechanical transformation of /repo's source before it is executed on
symbolic values.  Nothing is dropped; the transformation only makes visible to
the verifier what CPython would otherwise do internally:

  f(args)            -> vc__.call(f, args)      (not for super/locals/...)
  f"..{x}.."         -> vc__.fstr(".." , x, ..)
  a[k]               -> vc__.getitem(a, k)      (loads)
  a[k] = v           -> vc__.setitem(a, k, v)   (plain assignments)
  a in b, not in     -> vc__.contains(b, a)
  {a, b}             -> vc__.mkset(a, b)
  {}                 -> vc__.mkdict()
  except ..:         -> the same, but verifier signals pass through
  for/while          -> the same loop with a cut point for loop invariants
  comprehensions     -> vc__.comp(...) when there is one generator
  def f(..):         -> records that f was executed
"""
import ast

NOCALL = {"super", "locals", "globals", "vars", "dir", "eval"}


def _has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def _names(node, name):
    return any(isinstance(n, ast.Name) and n.id == name
               for n in ast.walk(node))


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.kinds = []
        self.n = 0

    def vc(self, attr, *args, keywords=()):
        return ast.Call(
            func=ast.Attribute(value=ast.Name("vc__", ast.Load()), attr=attr,
                               ctx=ast.Load()),
            args=list(args), keywords=list(keywords))

    # -- definitions
    def _def(self, node):
        # decorators, defaults and annotations belong to the outer scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d)
                                 for d in node.args.kw_defaults]
        self.qual.append(node.name)
        self.kinds.append("f")
        q = ".".join(self.qual)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                  for n in ast.walk(node))
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        doc = body[:1] if (isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant)) else []
        pre = [ast.Expr(self.vc("fn", ast.Constant(self.mod + ":" + q)))]
        if node.args.kwarg:
            k = node.args.kwarg.arg
            pre.append(ast.Assign(
                targets=[ast.Name(k, ast.Store())],
                value=self.vc("kwarg", ast.Name(k, ast.Load()))))
        node.body = doc + pre + body[len(doc):]
        self.kinds.pop()
        self.qual.pop()
        return node
    visit_FunctionDef = _def

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.kinds.append("c")
        self.generic_visit(node)
        self.kinds.pop()
        self.qual.pop()
        return node

    def visit_arguments(self, node):
        return node

    def visit_AnnAssign(self, node):
        node.target = self._target(node.target)
        if node.value:
            node.value = self.visit(node.value)
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        stars = [k for k in node.keywords if k.arg is None]
        if stars:
            # f(a, x=1, **d)  ->  vc__.callkw(f, (a,), [("x", 1), d])
            parts = [ast.Tuple([ast.Constant(k.arg), k.value], ast.Load())
                     if k.arg is not None else k.value
                     for k in node.keywords]
            return self.vc("callkw", node.func,
                           ast.Tuple(node.args, ast.Load()),
                           ast.List(parts, ast.Load()))
        return ast.Call(
            func=ast.Attribute(value=ast.Name("vc__", ast.Load()),
                               attr="call", ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                e = self.visit(v.value)
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit(spec)
                parts.append(self.vc("fmt", e, ast.Constant(v.conversion),
                                     spec or ast.Constant("")))
        return self.vc("fstr", *parts)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.vc("getitem", node.value, self._slice(node.slice))
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()),
                            [s.lower or n, s.upper or n, s.step or n], [])
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(e) for e in s.elts]
        return s

    def _target(self, t):
        return self.visit(t)

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(self.vc(
                "setitem", self.visit(t.value), self._slice(
                    self.visit(t.slice)), node.value)), node)
        node.targets = [self._target(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
            node.target.slice = self.visit(node.target.slice)
        elif isinstance(node.target, ast.Attribute):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        return self.vc("mkset", *node.elts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return node if node.keys or not self.kinds else self.vc("mkdict")

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self.vc("contains", node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return node

    def _comp(self, node, kind, elts):
        gens = node.generators
        if (len(gens) != 1 or gens[0].is_async or _names(node, "super")
                or _has(node, ast.NamedExpr, ast.Await, ast.Yield,
                        ast.YieldFrom)
                or (self.kinds and self.kinds[-1] == "c")):
            return self.generic_visit(node)
        g = gens[0]
        flat = isinstance(g.target, ast.Name)
        names = [g.target] if flat else list(getattr(g.target, "elts", []))
        if not flat and not (names and all(isinstance(n, ast.Name)
                                           for n in names)):
            return self.generic_visit(node)
        it = self.visit(g.iter)
        conds = [self.visit(c) for c in g.ifs]
        elts = [self.visit(e) for e in elts]

        def lam(body):
            return ast.Lambda(ast.arguments(
                posonlyargs=[], args=[ast.arg(n.id) for n in names],
                kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        cond = (lam(conds[0] if len(conds) == 1 else
                    ast.BoolOp(ast.And(), conds))
                if conds else ast.Constant(None))
        body = elts[0] if len(elts) == 1 else ast.Tuple(elts, ast.Load())
        return self.vc("comp", ast.Constant(kind), lam(body), it, cond,
                       ast.Constant(flat))

    def visit_ListComp(self, node):
        return self._comp(node, "list", [node.elt])

    def visit_SetComp(self, node):
        return self._comp(node, "set", [node.elt])

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", [node.elt])

    def visit_DictComp(self, node):
        return self._comp(node, "dict", [node.key, node.value])

    # -- statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body = [ast.Expr(self.vc("signal"))] + node.body
        return node

    def _assigned(self, node):
        """Local names bound in a loop body (not in nested functions)."""
        out = []

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                out.append(n.name)
                return
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
            for c in ast.iter_child_nodes(n):
                go(c)
        for s in node.body:
            go(s)
        if isinstance(node, ast.While):
            go(node.test)
        return [n for n in dict.fromkeys(out) if n != "vc__"]

    def _havoc(self, lv, names):
        body = []
        for n in names:
            body.append(ast.If(
                test=self.vc("bound", ast.Constant(n), ast.Call(
                    ast.Name("locals", ast.Load()), [], [])),
                body=[ast.Assign([ast.Name(n, ast.Store())], ast.Call(
                    ast.Attribute(ast.Name(lv, ast.Load()), "hv",
                                  ast.Load()),
                    [ast.Constant(n), ast.Name(n, ast.Load())], []))],
                orelse=[]))
        return body or [ast.Pass()]

    def _loopname(self):
        self.n += 1
        return f"vc_loop_{self.n}"

    def visit_For(self, node):
        if not self.kinds or self.kinds[-1] != "f":
            return self.generic_visit(node)
        names = self._assigned(node)
        self.generic_visit(node)
        lv = self._loopname()
        q = self.mod + ":" + ".".join(self.qual)
        pre = ast.Assign([ast.Name(lv, ast.Store())], self.vc(
            "forloop", ast.Constant(q), node.iter, ast.Call(
                ast.Name("locals", ast.Load()), [], []),
            ast.Constant(tuple(names))))
        hav = ast.If(test=ast.Attribute(ast.Name(lv, ast.Load()), "cut",
                                        ast.Load()),
                     body=self._havoc(lv, names), orelse=[])

        def again():
            return ast.If(test=ast.Attribute(ast.Name(lv, ast.Load()),
                                             "again", ast.Load()),
                          body=self._havoc(lv, names), orelse=[])
        node.iter = ast.Name(lv, ast.Load())
        node.body.insert(0, again())
        node.orelse.insert(0, again())
        return [pre, hav, node]

    def visit_While(self, node):
        if not self.kinds or self.kinds[-1] != "f":
            return self.generic_visit(node)
        names = self._assigned(node)
        self.generic_visit(node)
        lv = self._loopname()
        q = self.mod + ":" + ".".join(self.qual)

        def loc():
            return ast.Call(ast.Name("locals", ast.Load()), [], [])

        def meth(m, *a):
            return ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), m,
                                          ast.Load()), list(a), [])
        pre = ast.Assign([ast.Name(lv, ast.Store())], self.vc(
            "whileloop", ast.Constant(q), ast.Constant(tuple(names))))
        head = [ast.If(meth("head", loc()), self._havoc(lv, names), []),
                ast.Expr(meth("begin", loc()))]
        leave = list(node.orelse) + [ast.Break()]
        test = node.test
        node.test = ast.Constant(True)
        node.orelse = []
        if not (isinstance(test, ast.Constant) and test.value is True):
            head.append(ast.If(ast.UnaryOp(ast.Not(), test), leave, []))
        node.body = head + node.body
        return [pre, node]


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
