"""C13: dependencies are the reflexive transitive closure of references."""
from pyvc import graphs, sym
from pyvc.api import harness
from . import common
from .C12 import Gen, Judge, SETS, Or

CG = "_060_autonomous_functions.call_graph_explorer"
NU = "_060_autonomous_functions.names_usage_analyzer"


def closure(edges, n):
    reach = {i: {i} for i in range(n)}
    while True:
        new = {i: set().union(*[reach[j] | {k for k in edges[j]}
                                for j in reach[i]]) | {i} for i in reach}
        if new == reach:
            return reach
        reach = new


def source(i, refs, names, extra):
    body = ["    import os", "    x = 1"]
    for k, j in enumerate(refs):
        body.append([f"    x = {names[j]}(y=x)",
                     f"    x = [{names[j]} for z in range(3)]",
                     f"    def inner(q):\n        return {names[j]}",
                     f"    if x:\n        return {names[j]}()"][(i + k) % 4])
    for e in extra:
        body.append(f"    x = {e}")
    return f"def {names[i]}(y):\n" + "\n".join(body) + "\n    return x\n"


NAMES = ["f", "g", "fg", "a_long_name", "_h", "F", "f1", "f2"]


def long_chain(H, deep):
    """Every function refers to the next one, now and then to another one."""
    n = 9 + H.choose(62, "length")
    names = [f"{'abcd'[H.choose(4, 'name')]}{i}" for i in range(n)]
    edges = {i: [i + 1] if i + 1 < n else [] for i in range(n)}
    for _ in range(H.choose(3, "shortcuts")):
        edges[H.choose(n, "from")].append(H.choose(n, "to"))
    got = H.ends("loop_ends", deep, [
        source(i, edges[i], names, []) for i in sorted(
            range(n), key=lambda i: H.choose(10 ** 6, "order"))])
    want = closure(edges, n)
    H.cover("long_chain")
    H.check("exactly_the_functions", set(got) == set(names), repr(got))
    for i in range(n):
        H.check("exactly_the_reachable_ones",
                got[names[i]] == {names[j] for j in want[i]},
                f"{names[i]}: {got[names[i]]}, references {edges}")


@harness("C13", bound="all reference graphs of up to 3 functions in all "
                      "orders; random graphs of up to 8 and chains of up to "
                      "70 in concrete runs")
def every_graph(H):
    """explore_call_graph_deep on functions with given references."""
    deep = H.get(CG, "explore_call_graph_deep")
    big = not H.sym and not H.ctx.replaying
    if big and H.choose(12, "chain") == 0:
        long_chain(H, deep)
        return
    n = 1 + H.choose(8 if big else 3, "functions")
    names = NAMES[:n]
    edges = {i: [j for j in range(n) if H.flag(f"{i} refers to {j}")]
             for i in range(n)} if not big else {
        i: [j for j in range(n) if H.choose(n, "edge") < 2]
        for i in range(n)}
    srcs = [source(i, edges[i], names, [["unknown"], [], ["len"]][i % 3])
            for i in range(n)]
    order = list(range(n))
    k = H.choose(3, "order")
    if k == 1:
        order.reverse()
    elif k == 2:
        order = order[1:] + order[:1]
    got = H.ends("loop_ends", deep, [srcs[i] for i in order])
    H.cover("explored")
    want = closure(edges, n)
    H.check("exactly_the_functions", set(got) == set(names), repr(got))
    for i in range(n):
        H.check("exactly_the_reachable_ones",
                got[names[i]] == {names[j] for j in want[i]},
                f"{names[i]}: {got[names[i]]}, references {edges}")


@harness("C13", bound="one collection in concrete form, all orders")
def reported_by_functions(H):
    """The dependencies property of declared functions, in any declaration
    and execution order."""
    p = common.portal(H, "p")
    b = common.Bodies(H)
    uses = [[], [0], [1, 3], [2], [4], [0, 3]]
    n = 4 + H.choose(3, "functions")
    kind = (H.pth.autonomous, H.pth.pure)[H.choose(2, "kind")]
    edges = {i: [j for j in uses[i] if j < n] for i in range(n)}
    rot = H.choose(n, "order")
    order = [(i + rot) % n for i in range(n)]
    if H.flag("reverse"):
        order.reverse()
    names = NAMES[:n]
    fs = {}
    for i in order:
        fs[i] = kind(portal=p)(b.src(names[i], uses=[
            f"x = {names[j]}" for j in edges[i]]))
    want = closure(edges, n)
    for i in order[::-1] if H.flag("run the last one first") else order:
        H.ends("loop_ends", fs[i])
    H.cover("run")
    for i in range(n):
        H.check("dependencies", list(fs[i].dependencies) == sorted(
            names[j] for j in want[i]), repr(fs[i].dependencies))


REFS = [
    ("def f(x):\n global g1\n return g1(x)", {"g1"}),
    ("def f(x):\n def a():\n  global g1, zz\n  return g1\n return a",
     {"g1", "zz"}),
    ("def f(x=g1):\n return x", {"g1"}),
    ("def f(x):\n def a(b=g1):\n  return zz.b\n return a", {"g1", "zz"}),
    ("def f(x):\n return (lambda g1: g1 + zz)(x)", {"zz"}),
    ("def f(x):\n class a(g1):\n  b = zz\n return a", {"g1", "zz"}),
    ("def f(x):\n def g1(): return 1\n return g1() + zz.f", {"zz"}),
    ("def f(x):\n return f(x) if x else [zz for zz in g1]", {"g1"}),
    ("def f(x):\n import g1\n from zz import b\n return g1.x(b)", set()),
    ("def f(x):\n @g1\n def a(): pass\n with zz: return a", {"g1", "zz"}),
    ("def f(x):\n return {g1: 1, **zz}[x:c]", {"g1", "zz", "c"}),
    ("def f(x):\n b = 1\n def a():\n  nonlocal b\n  b = g1\n a()", {"g1"}),
    ("def f(x):\n match x:\n  case g1(): return zz.a\n", {"g1", "zz"}),
    ("def f(x):\n try: pass\n except g1 as zz: return zz", {"g1"}),
    ("def f(x):\n return f'{g1} {x:{zz}}'", {"g1", "zz"}),
    ("def f(*g1, **zz):\n return g1, zz", set()),
    ("def f(x):\n x.g1 = x.zz\n return x(a=b)", {"b"}),
]


@harness("C13", bound="a fixed collection of functions; random functions in "
                      "concrete runs")
def references(H):
    """The references of real functions, judged by a reference analysis."""
    H.pth
    refs = H.get(CG, "get_referenced_names")
    if H.sym or H.ctx.replaying or H.flag("fixed"):
        src, want = REFS[H.choose(len(REFS), "function")]
        got, err = H.attempt(refs, src + "\n")
        H.cover("judged")
        H.check("no_error", err is None, src + repr(err))
        if err is None:
            H.check("expected", got == {"f": want | {"f"}}, src + repr(got))
        return
    src = Gen(H).function()
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            compile(src, "generated", "exec")
    except SyntaxError:
        return
    j = Judge(src)
    got, err = H.attempt(refs, src)
    H.cover("judged")
    H.check("no_error", err is None and list(got) == ["f"], src + repr(err))
    got = got["f"]
    H.check("unbound_names_are_references", j.reads - j.binds <= got,
            src + repr(got))
    H.check("only_names_that_are_read", got <= j.late | j.declared | {"f"},
            src + repr(got))


@harness("C13", replay=False, random=False)
def references_are_the_reported_names(H):
    """Whatever the analysis reports: the references of a function are itself
    and the names that are declared global or nonlocal, or are unclassified."""
    import z3
    from pyvc import names
    H.pth
    x = H.text("x")
    names.NameSet.x = x
    names.NameSet.witness = False
    sets = {k: z3.Bool("in_" + k) for k in SETS}
    A = H.get("_060_autonomous_functions.names_usage_analyzer",
              "NamesUsageAnalyzer")

    def analyze(f):
        a = A()
        for k, t in sets.items():
            if not hasattr(a.names, k):
                H.undecided("the analyzer has no set " + k)
            setattr(a.names, k, names.NameSet(t))
        a.names.function = "f"
        return dict(tree=None, analyzer=a, normalized_source=f)
    H.contract(NU, "analyze_names_in_function", analyze)
    H.ctx.approximate("the analysis reports arbitrary sets")
    got = H.get(CG, "get_referenced_names")("def f():\n    pass\n")
    H.cover("asked")
    H.check("the_function_only", list(got) == ["f"])
    m = names.NameSet.lift(got["f"])
    H.check("exactly_these_names", sym.SBool(m == Or(
        x.t == "f", sets[SETS[3]], sets[SETS[4]], sets[SETS[5]])))


@harness("C13", replay=False, random=False)
def any_graph(H):
    """explore_call_graph_deep on any number of functions with any
    references.  get_referenced_names is taken by its contract (decided by
    references_are_the_reported_names)."""
    deep = H.get(CG, "explore_call_graph_deep")
    G = graphs.Graph(H)
    G.install()
    H.contract(CG, "get_referenced_names", G.references)
    H.ctx.approximate("sets of unknown content")
    got = deep(G.functions())
    H.cover("explored")
    G.judge(got, G.R)


@harness("C13", replay=False, random=False)
def any_direct_references(H):
    """explore_call_graph_shallow on any number of functions."""
    shallow = H.get(CG, "explore_call_graph_shallow")
    G = graphs.Graph(H)
    G.install()
    H.contract(CG, "get_referenced_names", G.references)
    H.ctx.approximate("sets of unknown content")
    got = shallow(G.functions())
    H.cover("explored")
    G.judge(got, G.E)
