"""C11: source normalization ignores form and preserves meaning."""
import ast
import copy
import glob
import io
import tokenize
import warnings
from pyvc.api import harness
from . import common, sources
from .C10 import function_from

NI = "_040_ordinary_functions.code_normalizer_implementation"
FN = "_040_ordinary_functions.function_name"

CORPUS = ['''
def f(a, b=2, *, c="x", **kw):
    return (a, b, c, sorted(kw))
''', '''
def f(x):
    s = """line 1

      line 3   
\tline 4
"""
    return s + x
''', '''
def f(a):
    # comment
    g = lambda z, *y, k=1: (z, y, k)
    h = g
    return g(a) == h(a)
''', '''
def f(n):
    def inner(m, d={}):
        if m <= 0: return 0
        return m + inner(m - 1)
    class K(object):
        x = 1
        def m(self): return self.x
    return inner(n), K().m()
''', '''
def f(a, /, b):
    import os, sys
    import os.path as p
    from math import (sin,
                      cos as c)
    return a, b, p.join("a", "b"), c(0)
''', '''
def f(a):
    try:
        x = a[0]; y = 'it\\'s'
    except (IndexError, KeyError) as e:
        return str(e)
    except: return None
    else:
        return x
    finally:
        y = 3
''', '''
def f(a):
    total = 0
    for i, (x, y) in enumerate(a):
        if x and not y or i != 3: continue
        elif x is None: break
        total += x if y else -x
    else:
        total -= 1
    while total > 10: total //= 2
    return total
''', '''
def f(a, b):
    r = [x for x in a if x if x not in b]
    d = {k: v for k, v in zip(a, b)}
    s = {1, *a}
    return r, d, s, (x async for x in b) if 0 else None
'''.replace(", (x async for x in b) if 0 else None", ""), '''
def f(a):
    """docstring

    more"""
    "another text"
    x = 'first'
    'a text in the middle'
    return x
''', '''
def f(a):
    def g():
        """only a docstring"""
    class C:
        "only a docstring"
    def h(): "doc"; return 1
    return g(), C.__name__, h()
''', '''
def f(a):
    x: int
    y: "list[int]" = [1]
    z: int = 3; w: str = "q"
    class C:
        q: int = 7
        r: str
    y[0]: int = 5
    return y, z, w, C.q
''', '''
def f(x):
    return f"{x!r:>10} {'a' + str(x)} {{}}" "and" 'more', b"\\x00", r"\\d", \\
        1_000, 0x10, 1e3, 2j, ...
''', '''
def f(a):
    match a:
        case [x, *rest] if rest: return rest
        case {"k": v, **kw}: return v
        case str() | int(): return 1
        case _: return None
''', '''
def f(a):
    with open("x") as g, open("y"): pass
    assert a, "message"
    del a
    global zz
    raise ValueError("x") from None
''', '''
def f(a):
    return (lambda: (yield))
'''.replace("(lambda: (yield))", "(b := a) + b"), '''
def f(a):
    if a == None or type(a) == type(""): pass
    if not a in [1]: return a <> 1
    return not a is None
'''.replace("a <> 1", "a != 1"), '''
def f(a, b=(1, "x"), c={'k': [1, 2]}, *, d=-1, e=None):
    return a, b, c, d, e
''', '''
def f(aaaaaaaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbbbbbbbb, ccccccccccccccccccccc):
    return aaaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbbbbbb * ccccccccccccccccccccc + 12345678901234567890
''', '''
def f(a):
  if a:
    x = 1
  else:
      x = 2
  return x
''', '''
def f(a):
\tif a:
\t\treturn "\t tab"
\treturn 'x' \\
\t\t'y'
''', '''
def f():
    @property
    def g(self): return 1
    @staticmethod
    def h(x: int = 3) -> int: return x
    return h.__func__()
''', '''
def f():
    "only a docstring"
''', '''
def f(): pass
''', '''
def f(): return "def g(x):  # not a comment"
''', '''
def f(a): x = {"a" : 1 ,  'b':2}; y = [ 1,2 , 3 ]; return x [ "a" ]+y[ 0 ]
''', '''
def f(a):
    import numpy
    import os
    x = 1
    import sys
    return x
''', '''
def f(a):
    text = 'a  b' + "   " + \'\'\'
  two
\'\'\'
    return text
''', '''
def f(a):
    w = {"w": 12}
    return (f"{ {k: '#c' for k in a} }", f"{ {1, 2} } {{1}}"
            , f"{a[0]:{w['w']:{1}}},{a[0]:>{5}}")
''', '''
def f[T: (int, str), **P](a: T, *, b: "T" = 1):
    def g[U](c: U) -> U: return c
    return g(a), b, f.__class__.__name__ == ""
''', '''
def f(_a: int, __b: str = "", *, k_: 1 = 2, **__kw: {1: 2}) -> None:
    async def g(_x: int, *_a: "x", y: "list[int]" = ()) -> "some text":
        "not needed"
        async def h(self: 1) -> 2: return self
        return await h(_x)
    class K:
        async def m(self) -> int: return 1
    return _a, __b, k_
''', '''
def f(a):
    5
    return a
''', '''
def f(a):
    ...
    return a
''', '''
def f(a):
    None
    b"not a docstring"
    class K:
        1.5
        def g(self): -1
    def h(): True; return 3
    return a
''', '''
def f(a):
    f"not a docstring"
    return a
''', '''
def f(a):
    import functools

    @functools.lru_cache(maxsize=1)
    def g(x): return f" a " + f"  "

    @functools.total_ordering
    class K:
        def __init__(self, v): self.v = v
        def __eq__(self, other): return self.v == other.v
        @functools.wraps(g, updated=())
        def __lt__(self, other): return self.v < other.v

    @functools.lru_cache(maxsize=1)
    def h(): return [g(a)]
    return (g(a), K(a) >= K(0), h() is h(), hasattr(K.__lt__, "__wrapped__")
            , hasattr(g, "cache_info"))
''', '''
def f(a):
    text = \"\"\"one
      
\x0c
  \x0btwo\t\x1c
 \x85three\u2028
\"\"\"
    return [len(text), text, "a\x0cb", "c\u2029d"]
''']

STDLIB = []


def stdlib():
    """Functions written by others (concrete runs)."""
    if not STDLIB:
        for n in sorted(glob.glob("/usr/lib/python3*/*.py"))[:120]:
            try:
                src = open(n, encoding="utf-8").read()
                for x in ast.parse(src).body:
                    if isinstance(x, ast.FunctionDef) and not \
                            x.decorator_list and x.end_lineno - x.lineno < 25:
                        STDLIB.append("\n".join(src.split("\n")[
                            x.lineno - 1:x.end_lineno]) + "\n")
            except (OSError, SyntaxError, ValueError):
                pass
        STDLIB.append(CORPUS[0])
    return STDLIB


def pick(H, label="function"):
    if not H.sym and not H.ctx.replaying:
        k = H.choose(3, "kind of function")
        if k == 1:
            s = stdlib()
            return s[H.choose(len(s), label)]
        if k == 2:
            return sources.source(H.ctx.rng)
    return CORPUS[H.choose(len(CORPUS), label)]


def is_text_stmt(x):
    return isinstance(x, ast.Expr) and isinstance(
        x.value, ast.Constant) and isinstance(x.value.value, str)


class Canon(ast.NodeTransformer):
    """The reference: annotations, docstrings and the function's decorator
    removed, nothing else; 'import a, b' means 'import a; import b'."""

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return ast.Assign([self.visit(n.target)], self.visit(n.value))

    def visit_Import(self, n):
        return [ast.Import([a]) for a in n.names]

    def visit_arg(self, n):
        n.annotation = None
        return n

    def body(self, n):
        self.generic_visit(n)
        if hasattr(n, "returns"):
            n.returns = None
        while n.body and is_text_stmt(n.body[0]):
            n.body = n.body[1:]
        n.body = n.body or [ast.Pass()]
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = body


def canon(src):
    t = ast.parse(src)
    t.body[0].decorator_list = []
    return ast.fix_missing_locations(Canon().visit(t))


class Annotate(ast.NodeTransformer):
    """Adds annotations and docstrings at every second place."""

    def __init__(self, what, phase):
        self.what, self.k = what, phase

    def tick(self):
        self.k += 1
        return self.k % 2 == 0

    def some(self):
        return [ast.Name("int", ast.Load()), ast.Constant("some text"),
                ast.parse("dict[str, list[int]]", mode="eval").body][
                    self.k % 3]

    def visit_arg(self, n):
        if "annotations" in self.what and self.tick():
            n.annotation = self.some()
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if "annotations" in self.what and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and self.tick():
            return ast.AnnAssign(n.targets[0], self.some(), n.value, 1)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if "annotations" in self.what and self.tick():
            n.returns = self.some()
        return self.visit_ClassDef(n, False)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n, deep=True):
        if deep:
            self.generic_visit(n)
        if "docstrings" in self.what and self.tick():
            n.body = [ast.Expr(ast.Constant(
                ["a docstring", "two\n\n  lines"][self.k // 2 % 2]))] + n.body
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n


def declared_global(src):
    return any(isinstance(n, (ast.Global, ast.Nonlocal))
               for n in ast.walk(ast.parse(src)))


def logical_lines(src):
    """(first line, last line) of every physical line not inside a string."""
    inside = set()
    ends = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type in (tokenize.STRING, getattr(tokenize, "FSTRING_MIDDLE",
                                               -1)):
            inside |= set(range(t.start[0] + 1, t.end[0] + 1))
        if t.type == tokenize.NEWLINE:
            ends.append(t.end[0])
    if "f'''" in src or 'f"""' in src:
        return None, None
    return inside, ends


def comments(src, k):
    inside, ends = logical_lines(src)
    if inside is None:
        return src
    out = []
    for i, line in enumerate(src.split("\n"), 1):
        out.append(line + ("  # a remark: def g(" if i in ends and i % 2 == k
                           else ""))
        if i in ends and i % 3 == k:
            out += ["", "# at the margin", "      # indented", ""]
    return "\n".join(out)


def indent(src, by):
    inside, _ = logical_lines(src)
    if inside is None:
        return src
    return "\n".join(line if i in inside or not line.strip() else by + line
                     for i, line in enumerate(src.split("\n"), 1))


DECOS = ["@pth.pure()", "@pth.autonomous(island_name='x')", "@pure()",
         "@pythagoras.strictly_autonomous()", "@ordinary()", "@pth.safe()",
         "@pth.ordinary(\n    portal=None\n)", "@safe(portal=p)",
         "@pth.pure(guards=['a b', \"c\"]\n    , island_name=None)"]


def other_form(H, src):
    """The same function written differently."""
    what = []
    for w in ("annotations", "docstrings"):
        if H.flag(w):
            what.append(w)
    if what and not (declared_global(src) and "annotations" in what):
        t = Annotate(what, H.choose(2, "phase")).visit(ast.parse(src))
        src = ast.unparse(ast.fix_missing_locations(t)) + "\n"
    elif H.flag("layout"):
        src = ast.unparse(ast.parse(src)) + "\n"
    if H.flag("comments"):
        src = comments(src, H.choose(2, "where"))
    if H.flag("decorator"):
        src = DECOS[H.choose(len(DECOS), "which")] + "\n" + src.lstrip("\n")
    k = H.choose(4, "indent")
    if k:
        src = indent(src, ("", "    ", " ", "\t")[k])
    if H.flag("blank lines around"):
        src = "\n   \n\n" + src + "\n\n  \n"
    return src


def N(H):
    return H.get(NI, "__get_normalized_function_source__")


@harness("C11", bound="a fixed collection of functions, all combinations of "
                      "the changes of form; library functions in concrete "
                      "runs", contracts=("signature", "env"))
def form_is_ignored(H):
    """Two texts of a function that differ in form only have the same
    normalized source."""
    n = N(H)
    if H.sym:
        k = H.choose(len(CORPUS), "function")
        src = CORPUS[k]
    else:
        src = pick(H)
    src = src.lstrip("\n")
    if H.sym:
        # all combinations on a rotating part of the collection
        m = H.choose(len(CHANGES), "change")
        src2 = CHANGES[m](src)
    else:
        src2 = other_form(H, src)
    a = n(src, drop_pth_decorators=True)
    b, err = H.attempt(n, src2, drop_pth_decorators=True)
    H.cover("normalized")
    H.check("accepted", err is None, f"{err!r}\n{src2}")
    H.check("same_source", a == b, f"--- {a}\n--- {b}\n--- {src2}")


def change(what=(), phase=0, com=None, deco=None, ind="", blank=False):
    def f(src):
        if what and not (declared_global(src) and "annotations" in what):
            t = Annotate(what, phase).visit(ast.parse(src))
            src = ast.unparse(ast.fix_missing_locations(t)) + "\n"
        if com is not None:
            src = comments(src, com)
        if deco is not None:
            src = DECOS[deco] + "\n" + src.lstrip("\n")
        if ind:
            src = indent(src, ind)
        if blank:
            src = "\n   \n\n" + src + "\n\n  \n"
        return src
    return f


CHANGES = [change(["annotations"], 0), change(["annotations"], 1),
           change(["docstrings"], 0), change(["docstrings"], 1),
           change(com=0), change(com=1), change(ind="    "),
           change(ind="\t"), change(ind=" ", blank=True),
           lambda s: ast.unparse(ast.parse(s)) + "\n"] + [
    change(deco=i) for i in range(len(DECOS))] + [
    change(["annotations", "docstrings"], 1, 0, 0, "        ", True),
    change(["annotations", "docstrings"], 0, 1, 6, "\t", True)]


@harness("C11", bound="a fixed collection of functions; library functions "
                      "in concrete runs")
def nothing_else_is_lost(H):
    """The normalized source has the syntax tree of the original without
    annotations, docstrings and decorator, and nothing else removed or
    changed; normalizing it again, or normalizing the tree, gives the same
    text; the function's name is found in it."""
    n = N(H)
    src = pick(H).lstrip("\n")
    a = n(src, drop_pth_decorators=True)
    H.cover("normalized")
    H.check("tree_preserved",
            ast.dump(Canon().visit(ast.parse(a))) == ast.dump(canon(src))
            and ast.dump(imports_split(a)) == ast.dump(canon(src)),
            f"{src}\n---\n{a}")
    b, err = H.attempt(n, a, drop_pth_decorators=True)
    H.check("idempotent", err is None and b == a, f"--- {a}\n--- {b}")
    c, err = H.attempt(n, ast.unparse(canon(src)), drop_pth_decorators=True)
    H.check("determined_by_the_tree", c == a, f"--- {a}\n--- {c}")
    g = H.get(FN, "get_function_name_from_source")
    H.check("name_found", g(a) == ast.parse(src).body[0].name)


def imports_split(src):
    class S(ast.NodeTransformer):
        def visit_Import(self, n):
            return [ast.Import([a]) for a in n.names]
    return ast.fix_missing_locations(S().visit(ast.parse(src)))


def mutants(src):
    """Different functions, by one small change each."""
    base = canon(src)
    out = []
    for i, node in enumerate(ast.walk(base)):
        def at(t):
            return list(ast.walk(t))[i]

        def mutated(f):
            t = copy.deepcopy(base)
            if f(at(t)) is not False:
                ast.fix_missing_locations(t)
                if ast.dump(t) != ast.dump(base):
                    out.append(t)
        if isinstance(node, ast.Constant):
            def const(x):
                v = x.value
                if isinstance(v, str):
                    x.value = v + " " if v else "x"
                elif isinstance(v, bool) or v is None or v is Ellipsis:
                    x.value = 0
                elif isinstance(v, bytes):
                    x.value = v + b" "
                else:
                    x.value = v + 1
            mutated(const)
        if isinstance(node, ast.Name):
            def name(x):
                x.id = x.id + "_"
            mutated(name)
        if isinstance(node, ast.BinOp):
            def swap(x):
                x.left, x.right = x.right, x.left
            mutated(swap)
        if isinstance(node, ast.arg):
            def arg(x):
                x.arg = x.arg + "_"
            mutated(arg)
        if isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While)):
            def dup(x):
                x.body = x.body + [ast.Pass()]

            def swap2(x):
                if len(x.body) < 2:
                    return False
                x.body = x.body[::-1]
            mutated(dup)
            mutated(swap2)
        if isinstance(node, ast.arguments):
            def dflt(x):
                if not x.args or x.defaults:
                    return False
                x.defaults = [ast.Constant(None)]

            def kwo(x):
                if not x.args or x.defaults or x.kwonlyargs or x.vararg:
                    return False
                x.kwonlyargs, x.kw_defaults = [x.args[-1]], [None]
                x.args = x.args[:-1]
            mutated(dflt)
            mutated(kwo)
        if isinstance(node, ast.If):
            def neg(x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
            mutated(neg)
    return out


@harness("C11", bound="a fixed collection of functions and all their "
                      "one-step mutants")
def differences_show(H):
    """Two functions that differ in anything else have different normalized
    sources."""
    n = N(H)
    k = H.choose(len(CORPUS), "function")
    src = CORPUS[k].lstrip("\n")
    if k not in MUTANTS:
        good = []
        for t in mutants(src):
            try:
                s = ast.unparse(t)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    compile(s, "m", "exec")
            except (SyntaxError, ValueError, TypeError):
                continue
            if ast.dump(canon(s)) != ast.dump(canon(src)):
                good.append(s)
        MUTANTS[k] = good
    a = n(src, drop_pth_decorators=True)
    todo = MUTANTS[k]
    if not H.sym and not H.ctx.replaying:
        todo = [todo[H.choose(len(todo), "mutant")]] if todo else []
    elif len(todo) > 8:
        todo = todo[::len(todo) // 8]
    for s in todo:
        b, err = H.attempt(n, s, drop_pth_decorators=True)
        H.cover("compared")
        H.check("different", err is None and a != b, f"{err!r}\n{s}")
    H.cover("compared")
    H.check("done", True)


MUTANTS = {}

RUN = [(0, [dict(a=1), dict(a=1, b=3, q=2), dict(b=1), {}]),
       (1, [dict(x="y"), dict(x=1)]), (2, [dict(a=3)]),
       (3, [dict(n=0), dict(n=3)]), (5, [dict(a=[]), dict(a=[7]), dict(a=3)]),
       (6, [dict(a=[]), dict(a=[(1, 2), (3, 0)]), dict(a=[(None, 0)] * 5)]),
       (7, [dict(a=[1, 2], b=[2])]), (8, [dict(a=1)]), (9, [dict(a=1)]),
       (10, [dict(a=1)]), (11, [dict(x="s"), dict(x=3.5)]),
       (12, [dict(a=[1, 2]), dict(a={"k": 3}), dict(a=3), dict(a=None)]),
       (14, [dict(a=3)]), (15, [dict(a=None), dict(a=1), dict(a=2)]),
       (16, [dict(a=0)]), (18, [dict(a=0), dict(a=1)]),
       (19, [dict(a=0), dict(a=1)]), (20, [{}]), (21, [{}]), (22, [{}]),
       (23, [{}]), (24, [dict(a=3)]), (26, [dict(a=3)]),
       (27, [dict(a=[3]), dict(a=["p"])]), (-2, [dict(a=3), dict(a=-1)]),
       (-1, [dict(a=3)]),
       (28, [dict(a=3), dict(a=2, b=3)])]


@harness("C11", bound="a fixed collection of functions and calls")
def stored_source_behaves_alike(H):
    """A decorated function behaves like the original, whatever form it was
    written in."""
    H.pth
    k, calls = RUN[H.choose(len(RUN), "function")]
    src = CORPUS[k].lstrip("\n")
    if H.sym:
        text = CHANGES[H.choose(2, "form") * 9](src)
    else:
        text = other_form(H, src)
    p = common.portal(H, "p")
    orig = function_from(src)
    kind = ("ordinary", "autonomous", "pure")[H.choose(3, "kind")]
    f = getattr(H.pth, kind)(portal=p)(text)
    kw = calls[H.choose(len(calls), "call")]
    r1, e1 = H.attempt(lambda: orig(**copy.deepcopy(kw)))
    r2, e2 = H.attempt(lambda: f(**copy.deepcopy(kw)))
    H.cover("called")
    H.check("same_exception", (e1 is None) == (e2 is None), repr((e1, e2)))
    H.check("same_result", e1 is not None or (r1 == r2 and repr(r1)
                                             == repr(r2)), repr((r1, r2)))


@harness("C11", bound="a fixed collection of functions")
def objects_and_texts(H):
    """A function object and its source text have the same normalized source;
    a decorated function reports its stored source."""
    n = N(H)
    p = common.portal(H, "p")
    src = CORPUS[H.choose(len(CORPUS), "function")].lstrip("\n")
    k = H.choose(3, "form")
    text = src if k == 0 else CHANGES[(6, 3)[k - 1]](src)
    if k == 1:
        lines = "if 1:\n" + text
        f = function_from(lines)
    else:
        f = function_from(text)
    a, err = H.attempt(n, f, drop_pth_decorators=True)
    b = n(src, drop_pth_decorators=True)
    H.cover("normalized")
    H.check("object_equals_text", a == b, f"{err!r} --- {a}\n--- {b}")
    g = H.get("_040_ordinary_functions.code_normalizer",
              "get_normalized_function_source")
    o = H.pth.ordinary(portal=p)(f)
    H.check("stored", o.fn_source_code == b and g(o) == b and g(f) == b)
    H.check("name", o.fn_name == "f")


FOREIGN = ["@other()", "@functools.lru_cache()", "@pth.other()",
           "@ordinary_()", "@pure.other()", "@contextlib.contextmanager",
           "@functools.wraps(len)", "@(lambda f: f)", "@x[0]()", "@property",
           "@staticmethod", "@other(1, a=2)", "@Pure()", "@pth.Pure()",
           "@pth.purely(portal=p)", "@all_decorators()", "@pth()",
           "@ordinary()()", "@pth.safe()()", "@pth.ordinary()\n@other()",
           "@other()\n@pth.pure()", "@pth.pure()\n@pth.pure()"]


@harness("C11", bound="a fixed collection of decorators")
def foreign_decorators(H):
    """A decorator that is none of Pythagoras' is no matter of form: a
    function that has it is refused, or its source tells."""
    n = N(H)
    src = "def f(a, b=1):\n    return (a, b)\n"
    plain = n(src, drop_pth_decorators=True)
    for d in DECOS:
        r, err = H.attempt(n, d + "\n" + src, drop_pth_decorators=True)
        H.check("accepted", err is None and r == plain, f"{d}: {err!r} {r}")
    for d in FOREIGN:
        r, err = H.attempt(n, d + "\n" + src, drop_pth_decorators=True)
        H.check("told_from_form", err is not None or r != plain, d)
        r, err = H.attempt(n, d + "\n" + src)
        H.check("told_from_form", err is not None or r != plain, d)
    H.cover("normalized")
