"""C10: only plain functions are accepted, and only keyword calls."""
import functools
import hashlib
import inspect as _inspect
import linecache
import re
import types
from pyvc.api import harness
from . import common

KINDS = ("ordinary", "safe", "autonomous", "strictly_autonomous", "pure")
AO = "_040_ordinary_functions.assert_ordinarity"
PKINDS = [_inspect.Parameter.POSITIONAL_ONLY,
          _inspect.Parameter.POSITIONAL_OR_KEYWORD,
          _inspect.Parameter.VAR_POSITIONAL,
          _inspect.Parameter.KEYWORD_ONLY,
          _inspect.Parameter.VAR_KEYWORD]


def function_from(src, name="f", g=None):
    """A function object whose source can be looked up."""
    fname = f"/nowhere/{hashlib.md5(src.encode()).hexdigest()}.py"
    lines = re.findall(r"[^\n]*\n|[^\n]+$", src)
    linecache.cache[fname] = (len(src), None, lines, fname)
    ns = dict(g or {})
    exec(compile(src, fname, "exec"), ns)
    return ns[name]


class Something:
    """An object about which only the harness' answers are known."""

    def __init__(self, H, feat):
        self.feat, self.H = feat, H

    def _vc_isinstance(self, c):
        if c is types.MethodType:
            return self.feat["method"]
        if c in (types.FunctionType, types.LambdaType):
            return self.feat["function"]
        if c in (str, bytes, int, type):
            return False
        self.H.undecided(f"isinstance {c}")

    def _vc_hasattr(self, n):
        if n == "__closure__":
            return self.feat["function"]
        if n in ("__name__", "__qualname__"):
            return self.feat["named"]
        self.H.undecided("hasattr " + n)

    def _vc_getattr(self, n):
        return getattr(self, n)

    def __getattr__(self, n):
        f = self.__dict__.get("feat")
        if f is None:
            raise AttributeError(n)
        if n == "__closure__" and f["function"]:
            return (object(),) if f["closure"] else None
        if n in ("__name__", "__qualname__") and f["named"]:
            return f["name"]
        if n == "__func__" and f["method"]:
            return None
        self.H.undecided("attribute " + n)


class CallableSomething(Something):
    def __call__(self, *a, **k):
        raise AssertionError("must not be called")


@harness("C10")
def ordinarity_check(H):
    """assert_ordinarity(x): returns exactly if x is a function, no bound
    method, no closure, not named <lambda>, not async, and none of its
    parameters (any number, of any kinds) collects positional arguments."""
    if not H.sym:
        return one_of_the_zoo(H)
    from pyvc.many import Each
    call = H.flag("callable")
    f = dict(function=False, method=False, closure=False, coroutine=False)
    if call:
        f["function"] = H.flag("is_function")
        if f["function"]:
            f["closure"] = H.flag("closure")
            f["coroutine"] = H.flag("coroutine")
        else:
            f["method"] = H.flag("method")
    f["named"] = f["function"] or H.flag("named")
    f["name"] = H.text("name")
    var = H.bool("some_parameter_collects_positional_arguments")
    x = (CallableSomething if call else Something)(H, f)

    class P:
        def __init__(self, k):
            self.kind, self.name, self.default = k, "p", _inspect._empty
            self.annotation = _inspect._empty

    def make():
        return P(PKINDS[H.choose(5, "parameter kind")])
    params = Each(H, make, lambda p: p.kind is PKINDS[2], var, "parameters")

    class Params:
        def values(self):
            return params

    class Sig:
        parameters = Params()
    m = types.ModuleType("inspect")
    m.Parameter, m._empty = _inspect.Parameter, _inspect._empty
    m.isfunction = lambda o: o.feat["function"]
    m.ismethod = lambda o: o.feat["method"]
    m.iscoroutinefunction = lambda o: o.feat["coroutine"]
    m.isasyncgenfunction = lambda o: False
    m.isroutine = lambda o: o.feat["function"] or o.feat["method"]
    m.isbuiltin = m.isclass = lambda o: False
    m.signature = lambda o, **k: Sig()
    m.getsource = _inspect.getsource
    H.world.fakes["inspect"] = m
    A = H.get(AO, "assert_ordinarity")
    _, err = H.attempt(A, x)
    H.cover("answered")
    plain = f["function"] and not f["closure"] and not f["coroutine"]
    from pyvc import sym
    import z3
    want = z3.BoolVal(plain)
    if plain:
        want = z3.And(f["name"].t != z3.StringVal("<lambda>"),
                      z3.Not(var.t))
    H.check("accepts_exactly_plain_functions",
            sym.SBool(want == z3.BoolVal(err is None)), repr(err))


class Cls:
    def m(self):
        return 1

    @classmethod
    def cm(cls):
        return 1

    @staticmethod
    def sm(a=1):
        return 1

    def __call__(self):
        return 1


def closures():
    y = 3

    def f(a):
        return a + y

    @functools.wraps(f)
    def g(a):
        return f(a)
    return f, g


def renamed_lambda():
    f = function_from("f = lambda x: x\n")
    f.__name__ = f.__qualname__ = "f"
    return f


REFUSED_SIGS = 9
SIGS = ["*args", "a, *args", "a=1, *args, b", "a, /, *args", "a, /, b, *rest,"
        " c=3, **kw", "*args, **kw",
        "a, b, c, d, e, f, g, h, i, j, k, *args",
        "a, b, c, d, /, e, f, g=1, h=2, i=(), *a_, k",
        "*_, " + ", ".join(f"k{i}={i}" for i in range(12)), "*, a", "a, *, b=2", "**kw",
        "a, b=2, **kw", "", "a, b, c, d, e, f, g, h, i, j, k",
        "a, b, c, d, e, f, g, h=1, *, i, j=2, k, **args", "a: int, b: str = 'x'", "a, /, b"]


def refused():
    """Objects that are not plain functions."""
    out = [None, 3, 2.5, (1,), b"def f(): pass", object(), len, print, dict,
           int, Cls, Cls(), Cls().m, Cls.cm, Cls().sm and Cls().m,
           functools.partial(function_from("def f(a):\n    return a\n"), 1),
           functools.lru_cache(function_from("def f(a):\n    return a\n")),
           [].append, "abc".upper, type.__call__, property(lambda s: 1),
           classmethod(len), staticmethod(len), lambda: 1, renamed_lambda(),
           function_from("f = lambda a, b=1: a\n"), *closures(),
           function_from("async def f(a):\n    return a\n"),
           function_from("async def f(a):\n    yield a\n"),
           function_from("async def f(*args):\n    return 1\n"),
           function_from("async def f():\n    pass\n")]
    for sig in SIGS:
        for src in (f"async def f({sig}):\n    return 1\n",
                    f"async def f({sig}):\n    yield 1\n",
                    f"f = lambda {sig.split(':')[0]}: 1\n"):
            out.append(function_from(src))
    out += [function_from(f"def f({s}):\n    return 1\n") for s in SIGS[:REFUSED_SIGS]]
    out += [types.MethodType(function_from("def f(a):\n    return a\n"), 3),
            types.SimpleNamespace(__name__="f", __call__=None),
            functools.partialmethod(len), map, iter([1]), (i for i in ()),
            Exception, Ellipsis, NotImplemented, [function_from(
                "def f(a):\n    return a\n")]]
    return out


def accepted():
    return [function_from(f"def f({s}):\n    return 1\n") for s in
            SIGS[REFUSED_SIGS:]
            ] + [function_from("def outer():\n    def f(a):\n        return a"
                               "\n    return f\nf = outer()\n"),
                 function_from("def f(a):\n    return [x for x in a]\n"),
                 function_from("def f(a):\n    g = lambda z: z\n"
                               "    return g(a)\n")]


REFUSED, ACCEPTED = refused(), accepted()


def one_of_the_zoo(H):
    A = H.get(AO, "assert_ordinarity")
    k = H.choose(len(REFUSED) + len(ACCEPTED), "object")
    bad = k < len(REFUSED)
    x = REFUSED[k] if bad else ACCEPTED[k - len(REFUSED)]
    H.assume(getattr(x, "__name__", "") != "f" or not bad
             or _inspect.getsource(x).lstrip()[:3] in ("def", "asy")
             if callable(x) and _inspect.isfunction(x) else True)
    if bad and _inspect.isasyncgenfunction(x):
        return                        # refused later, see objects_refused
    _, err = H.attempt(A, x)
    H.cover("answered")
    H.check("accepts_exactly_plain_functions", (err is None) != bad,
            f"{x!r}: {err!r}")


@harness("C10", bound="a fixed collection of objects")
def objects_refused(H):
    """Every decorator refuses every object that is not a plain function and
    registers nothing; it accepts plain functions, whatever their
    signature."""
    H.pth
    p = common.portal(H, "p")
    kind = KINDS[H.choose(5, "kind")]
    deco = getattr(H.pth, kind)
    for x in (REFUSED if H.small else [REFUSED[H.choose(len(REFUSED), "x")]]):
        r, err = H.attempt(lambda: deco(portal=p)(x))
        H.cover("refused")
        H.check("refused", err is not None, f"{kind}: {x!r}")
        H.check("nothing_registered",
                not any(p.known_functions.values()), repr(x))
        H.check("nothing_entered",
                not H.pth.BasicPortal.get_entered_portals())
    for i, x in enumerate(ACCEPTED if H.small else [ACCEPTED[
            H.choose(len(ACCEPTED), "y")]]):
        kw = {} if kind in ("ordinary", "safe") else {
            "island_name": f"island{i}"}
        r, err = H.attempt(lambda: deco(portal=p, **kw)(x))
        H.cover("accepted")
        H.check("accepted", err is None, f"{kind}: {_inspect.getsource(x)} {err!r} {__import__("traceback").format_exception(err)}")


@harness("C10", bound="at most 3 positional arguments, 2 keyword arguments")
def positional_calls(H):
    """A call with positional arguments raises, does not run the body, and
    changes no store, no registration and no nesting."""
    b = common.Bodies(H)
    p = common.portal(H, "p")
    q = common.portal(H, "q")
    kind = KINDS[H.choose(5, "kind")]
    params = (["a=1", "b=2"], ["a=1", "**kw"], ["*", "a=1"], [])[
        H.choose(4, "parameters")]
    src = common.Bodies.src("f", params)
    f = getattr(H.pth, kind)(portal=p)(src)
    if H.flag("called before"):
        f()
        b.calls.clear()
    if not H.small and H.flag("entered"):
        q.__enter__()
    before = H.snapshot()
    nest = H.pth.BasicPortal.get_entered_portals()
    n = 1 + H.choose(3, "positional")
    args = [H.val("arg")] + [(None, (), H.val("arg"))[
        H.choose(2 if H.small else 3, "argument")] for _ in range(n - 1)]
    kw = {}
    if H.flag("keyword"):
        kw["a"] = H.val("a")
    r, err = H.attempt(lambda: f(*args, **kw))
    H.cover("called")
    H.check("raises", err is not None)
    H.check("body_not_run", not b.calls)
    now = H.snapshot()
    H.check("no_trace", len(now) == len(before) and all(
        x[0] is y[0] and x[2] is y[2] for x, y in zip(now, before)))
    H.check("nesting", H.pth.BasicPortal.get_entered_portals() == nest)


PROGRAMS = [
    ("a, b=2", "return (a, b)"),
    ("a, *, b=2", "return [b, a]"),
    ("**kw", "return dict(kw)"),
    ("a=None, **b", "return (a, sorted(b))"),
    ("a, b=(1, 'x')", "x = {'k': a}\n    x['l'] = b\n    return x"),
    ("a, b=3", "def g(z):\n        return (z, b)\n    return g(a)"),
    ("a, b=1", "if b == 1:\n        return a\n    raise ValueError(b)"),
    ("a=1, b=2", "pass"),
    ("*, b, a='q'", "for i in range(3):\n        a = (a, i)\n    return a"),
    ("b, a=0", "try:\n        return [][b]\n    except Exception as e:\n"
     "        return str(e) + 'a'"),
    ("a, /, b=2", "return (a, b)"),
    ("a, b=2, c=3", "return (a, b, c)"),
    ("a, b=2", "def f2(z):\n        return (z, b)\n    return f2(z=a)"),
    ("a=1, b=2", "def ff(f):\n        return f\n"
     "    return ('def f(a):', 'def f', ff(a), 'kwargs_f', 'resultf')"),
    ("a, b=2", "if b == 2:\n        return f(a=a, b=(a, 1))\n"
     "    return (b, a)"),
    ("a, b=2, **kw", "return (a, b, kw) if kw else a"),
    ("a=None, b=2, c=()", "return [a, [b, [c]]]"),
    ("a=0, b=0, c=0", "del a\n    return {1: b, 2: {3: c}}"),
]


@harness("C10", bound="a fixed collection of functions, 3 argument names")
def keyword_calls(H):
    """A call with keyword arguments returns, or raises, exactly what the
    original function does; arguments are passed on unchanged."""
    H.pth
    p = common.portal(H, "p")
    kind = KINDS[H.choose(5, "kind")]
    params, body = PROGRAMS[H.choose(len(PROGRAMS), "function")]
    src = f"def f({params}):\n    {body}\n"
    orig = function_from(src)
    f = getattr(H.pth, kind)(portal=p)(orig if H.flag("object") else src)
    names = [n for n in "abc"[:2 if H.small else 3] if H.flag(n)]
    if H.sym:
        kw = {n: H.val(n) if "b == 1" not in body and "][b]" not in body
              or n == "a" else 1 for n in names}
    else:
        kw = {n: H.val(n) for n in names}
    if H.flag("reversed"):
        kw = dict(reversed(list(kw.items())))
    r1, e1 = H.attempt(lambda: orig(**kw))
    r2, e2 = H.attempt(lambda: f(**kw))
    H.cover("called")
    H.check("same_exception", type(e1) is type(e2) or (
        kind == "pure" and e1 is not None and e2 is not None), f"{e1!r} {e2!r}")
    if e1 is None:
        H.check("same_result", H.same(r1, r2), f"{r1!r} {r2!r}")
        r3, e3 = H.attempt(lambda: f(**kw))
        H.check("same_again", e3 is None and H.same(r1, r3))
    else:
        H.check("same_message", str(e1).replace("f()", "") == "" or kind
                == "pure" or type(e1) is TypeError or e1.args == e2.args)
    H.check("nesting", not H.pth.BasicPortal.get_entered_portals())


PARAMETERS = ["self", "cls", "args", "kwargs", "kargs", "portal", "f", "pth",
              "a_fn", "a_func", "arguments", "frame", "result", "names_dict",
              "fn_name", "island_name", "data", "key", "value", "timeout",
              "other", "state", "_", "x1", "\u00e9"]


@harness("C10", bound="1 or 2 arguments with names from a fixed collection")
def names_of_parameters(H):
    """Parameters may have any names."""
    H.pth
    p = common.portal(H, "p")
    kind = KINDS[H.choose(5, "kind")]
    a = PARAMETERS[H.choose(len(PARAMETERS), "parameter")]
    c = "z" if H.small else PARAMETERS[H.choose(len(PARAMETERS), "another")]
    H.assume(a != c)
    f = getattr(H.pth, kind)(portal=p)(
        f"def f({a}, {c}=1):\n    return ({c}, {a})\n")
    v = H.val("v")
    kw = {a: v, c: 2} if H.flag("both") else {a: v}
    r, e = H.attempt(lambda: f(**kw))
    H.cover("called")
    H.check("same_result", e is None and H.same(r, (kw.get(c, 1), v)),
            f"{a} {c}: {e!r}")
    if kind == "pure":
        for how in (lambda: f.run(**kw).get(), lambda: f.swarm(**kw).execute(),
                    lambda: f.get_address(**kw).get(),
                    lambda: f.run_list([kw])[0].get()):
            r, e = H.attempt(how)
            H.check("same_result_by_address", e is None and H.same(
                r, (kw.get(c, 1), v)), f"{a}: {e!r}")
        H.check("can_be_executed", bool(f.can_be_executed(**kw)))


FUNCTIONS = ["sys", "Callable", "OrdinaryFn", "LoggingPortal", "Any",
             "get_hash_signature", "NeedsRandomization", "PortalAwareClass",
             "exec", "compile", "len", "list", "dict", "isinstance", "super",
             "names", "kwargs", "result", "portal", "f", "fn", "define",
             "\u00e9", "\u0416f", "_x", "resultf", "tmp_func_f"]


@harness("C10", bound="functions with names from a fixed collection")
def names_of_functions(H):
    """Functions may have any names and may call themselves; what they do
    with global names does not reach other functions."""
    H.pth
    p = common.portal(H, "p")
    kind = KINDS[H.choose(5, "kind")]
    name = FUNCTIONS[H.choose(len(FUNCTIONS), "name")]
    deco = getattr(H.pth, kind)
    if kind not in ("ordinary", "safe") and H.flag("odd island"):
        deco = functools.partial(deco, island_name="\u00cele d'If / 1")
    v = H.val("v")
    if H.flag("recursive"):
        f = deco(portal=p)(f"def {name}(x, n=3):\n    return [x] if n == 0 "
                           f"else {name}(x=x, n=n - 1) + [n]\n")
        want = lambda n: [v, *range(1, n + 1)]
    else:
        H.assume(kind in ("ordinary", "safe"))
        f = deco(portal=p)("def foreign(x, n=0):\n"
                           f"    global {name}\n    {name} = x\n"
                           f"    return {name}\n")
        want = lambda n: v
    H.cover("declared")
    for n in (0, 3, 1):
        r, e = H.attempt(f, x=v, n=n)
        H.check("same_result", e is None and H.same(r, want(n)),
                f"{name}: {e!r}")
    if want(1) is not v:
        r, e = H.attempt(f, x=v, n="a")
        H.check("same_exception", type(e) is TypeError, f"{name}: {e!r}")
    # others work as before
    g = deco(portal=p)("def other(a):\n    return [][a] if a else 1\n")
    r, e = H.attempt(g, a=0)
    H.check("others_work", e is None and r == 1, f"{name}: {e!r}")
    r, e = H.attempt(g, a=1)
    H.check("others_fail_as_they_should", type(e) is IndexError, repr(e))
    H.check("nesting", not H.pth.BasicPortal.get_entered_portals())
