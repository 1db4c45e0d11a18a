"""Random functions: any Python syntax, for concrete runs."""
import ast
import warnings

NAMES = ["a", "bb", "x", "y", "is_", "not_x", "lambda_", "print", "l", "O",
         "None_", "ifx"]
TEXTS = ["", "a", "it's", 'say "x"', "line\nnext", "tab\t", "#c", "  sp  ",
         "a  b", "{x}", "{{", "%d", ":", "\\", "\u00e9", "\x00", "a,b;c:d",
         "==None", "lambda: 0", "type(a) == type(b)", '"""', "'''", "a" * 90,
         "<>", "`x`", "not x in y", "\\d", "\n\n   \n", "  \n   x   \n"]
SPECS = [">", "10", ",", ".2f", "%H:%M", "#x", "a==b", " ", "<>", "x,y"]
PLAIN = [0, 1, 2.5, 1e300, True, None, b"x", b"\n", 3j, ..., 10 ** 30]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def some(self, n):
        return self.r.random() < n

    def pick(self, *f):
        return self.r.choice(f)()

    def name(self):
        return ast.Name(self.r.choice(NAMES), ast.Load())

    def const(self):
        return ast.Constant(self.r.choice(PLAIN + TEXTS))

    def text(self):
        return ast.Constant(self.r.choice(TEXTS))

    def target(self):
        return ast.Name(self.r.choice(NAMES), ast.Store())

    def fstring(self, d):
        out = []
        for _ in range(self.r.randint(1, 3)):
            if self.some(.4):
                out.append(self.text())
                continue
            spec = None
            if self.some(.4):
                spec = ast.JoinedStr([
                    ast.Constant(self.r.choice(SPECS)) if self.some(.6) else
                    ast.FormattedValue(self.name(), -1, None if self.some(.7)
                                       else ast.JoinedStr([ast.FormattedValue(
                                           self.name(), -1, None)]))
                    for _ in range(self.r.randint(1, 2))])
            out.append(ast.FormattedValue(
                self.expr(d), self.r.choice([-1, 114, 115]), spec))
        return ast.JoinedStr(out)

    def gens(self, e):
        i, j = ast.Name("i", ast.Store()), ast.Name("j", ast.Store())
        t = i if self.some(.6) else ast.Tuple([i, j], ast.Store())
        return [ast.comprehension(t, e(), [e()] if self.some(.4) else [], 0)]

    def expr(self, d):
        if d <= 0:
            return self.pick(self.name, self.const)
        a = ast
        r = self.r

        def e():
            return self.expr(d - 1)
        L = a.Load()
        return self.pick(
            self.name, self.const, self.text,
            lambda: a.BinOp(e(), r.choice([
                a.Add, a.Sub, a.Mult, a.Div, a.FloorDiv, a.Mod, a.Pow,
                a.MatMult, a.BitOr, a.LShift, a.RShift])(), e()),
            lambda: a.BoolOp(r.choice([a.And, a.Or])(), [e(), e()]),
            lambda: a.UnaryOp(r.choice([a.Not, a.USub, a.UAdd, a.Invert])(),
                              e()),
            lambda: a.Compare(e(), [r.choice([
                a.Is, a.IsNot, a.In, a.NotIn, a.Eq, a.NotEq, a.Lt])()],
                [e()]),
            lambda: a.Compare(e(), [a.Lt(), a.NotEq()], [e(), e()]),
            lambda: a.Call(e(), [e(), a.Starred(e(), L)],
                           [a.keyword("k", e()), a.keyword(None, e())]),
            lambda: a.Call(self.name(), [e()], []),
            lambda: a.Lambda(a.arguments(
                posonlyargs=[], args=[a.arg("z")], vararg=None,
                kwonlyargs=[a.arg("w")], kw_defaults=[e()], kwarg=None,
                defaults=[e()]), e()),
            lambda: a.IfExp(e(), e(), e()),
            lambda: a.Dict([e(), None], [e(), e()]),
            lambda: a.Dict([e()], [e()]),
            lambda: a.Set([e()]), lambda: a.Set([e(), e()]),
            lambda: a.List([e(), e()], L), lambda: a.Tuple([e()], L),
            lambda: a.Tuple([], L), lambda: a.Tuple([e(), e()], L),
            lambda: a.Subscript(e(), a.Slice(
                e(), e() if self.some(.5) else None, None), L),
            lambda: a.Subscript(e(), a.Tuple(
                [a.Slice(None, e(), e()), e()], L), L),
            lambda: a.Attribute(e(), "attr", L),
            lambda: a.ListComp(e(), self.gens(e)),
            lambda: a.SetComp(e(), self.gens(e)),
            lambda: a.DictComp(e(), e(), self.gens(e)),
            lambda: a.GeneratorExp(e(), self.gens(e)),
            lambda: a.NamedExpr(a.Name("w", a.Store()), e()),
            lambda: self.fstring(d - 1), lambda: self.fstring(d - 1))

    def body(self, d):
        return [self.stmt(d) for _ in range(self.r.randint(1, 3))]

    def either(self, d):
        return [] if self.some(.5) else self.body(d)

    def args(self):
        a = ast
        return a.arguments(
            posonlyargs=[a.arg("p")] if self.some(.3) else [],
            args=[a.arg("q"), a.arg("r")],
            vararg=a.arg("v") if self.some(.5) else None,
            kwonlyargs=[a.arg("k")], kw_defaults=[self.expr(1)],
            kwarg=a.arg("kw"), defaults=[self.expr(1)])

    def types(self):
        return [ast.TypeVar(n, self.expr(1) if self.some(.3) else None)
                for n in self.r.sample(["T", "U"], self.r.choice([0] * 7 + [
                    1, 2]))]

    def stmt(self, d):
        a = ast
        r = self.r

        def e():
            return self.expr(r.randint(0, 3))

        def b():
            return self.body(d - 1)
        t = self.target
        one = [
            lambda: a.Expr(e()), lambda: a.Assign([t()], e()),
            lambda: a.Assign([t()], e()),
            lambda: a.Assign([t(), a.Tuple([t(), a.Starred(
                t(), a.Store())], a.Store())], e()),
            lambda: a.AugAssign(t(), r.choice([a.Add, a.Pow, a.RShift])(),
                                e()),
            lambda: a.AnnAssign(t(), e(), e() if self.some(.6) else None, 1),
            lambda: a.Return(e()), lambda: a.Return(None), a.Pass,
            lambda: a.Raise(e(), e() if self.some(.5) else None),
            lambda: a.Assert(e(), e() if self.some(.5) else None),
            lambda: a.Delete([a.Name("a", a.Del())]),
            lambda: a.Import([a.alias("os.path", "p"),
                              a.alias("sys", None)][:r.randint(1, 2)]),
            lambda: a.ImportFrom("m", [a.alias("q", None),
                                       a.alias("r", "s")], 0),
            lambda: a.Assign([a.Subscript(e(), e(), a.Store())], e())]
        if d <= 0:
            return r.choice(one)()
        many = [
            lambda: a.If(e(), b(), self.either(d - 1)),
            lambda: a.For(t(), e(), b(), self.either(d - 1)),
            lambda: a.While(e(), b(), []),
            lambda: a.With([a.withitem(e(), t()), a.withitem(e(), None)],
                           b()),
            lambda: a.Try(b(), [a.ExceptHandler(e(), "ex", b()),
                                a.ExceptHandler(None, None, b())],
                          self.either(d - 1), self.either(d - 1)),
            lambda: a.FunctionDef("g", self.args(), b(), [e()] if self.some(
                .3) else [], None, type_params=self.types()),
            lambda: a.ClassDef("K", [e()], [a.keyword("m", e())], b(), [],
                               type_params=self.types()),
            lambda: a.Match(e(), [
                a.match_case(a.MatchAs(None, "v"), e(), b()),
                a.match_case(a.MatchOr([a.MatchValue(self.text()),
                                        a.MatchSingleton(None)]), None,
                             b())])]
        return r.choice(one + many * 2)()

    def function(self):
        return ast.Module([ast.FunctionDef(
            "f", self.args(), self.body(self.r.randint(0, 3)), [], None,
            type_params=self.types())], [])


def source(rng):
    """The text of a random function that Python accepts and that
    ast.unparse can write down."""
    while True:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                m = ast.fix_missing_locations(Gen(rng).function())
                s = ast.unparse(m)
                t = ast.parse(s)
                u = ast.unparse(t)
                if len(s) < 3000 and ast.dump(ast.parse(u)) == ast.dump(t):
                    compile(s, "m", "exec")
                    return s + "\n"
            except (SyntaxError, ValueError, RecursionError):
                pass
