"""C24: a pure function travels with everything it needs."""
import ast
import itertools
from pyvc import ghost, session
from pyvc.api import harness
from . import common

PA = "_070_pure_functions.process_augmented_func_src"
CV = "_070_pure_functions.astkeywords_dict_convertors"


# ------------------------------------------------------------- literals
def literal(H, depth):
    """A literal with arbitrary leaves."""
    k = H.choose(9 if depth > 0 else 5 if depth == 0 else 1, "literal")
    if k == 0:
        return H.int("i")
    if k == 1:
        return H.text("s")
    if k == 2:
        return H.real("r")
    if k == 3:
        return H.bool("b")
    if k == 4 or depth < 0:
        return (None, b"bytes", True, -1, 2.5, 1j, "")[H.choose(7, "leaf")]
    n = H.choose(3, "length")
    items = [literal(H, depth - 1) for _ in range(n)]
    if k == 5:
        return items
    if k == 6:
        return tuple(items)
    if k == 7:
        return {("a", 5, (1, 2))[i]: x for i, x in enumerate(items)}
    return {("b", (2, 3), -7)[i] for i in range(n)}


@harness("C24", bound="nesting depth 2; values of any kind at the leaves")
def to_syntax_and_back(H):
    """Dictionaries of literals, converted to keywords and back."""
    to, back = (H.get(CV, "convert_dict_to_astkeywords"),
                H.get(CV, "convert_astkeywords_to_dict"))
    names = ("a", "island_name", "__x")[:H.choose(4, "keywords")]
    d = {k: literal(H, (2 - len(names) if H.small else 2))
         for k in names}
    H.cover("made")
    kw = to(d)
    H.check("keywords", [k.arg for k in kw] == list(names) and all(
        isinstance(k, ast.keyword) for k in kw))
    e = back(kw)
    H.check("same_names", list(e) == list(names))
    for k in names:
        H.check("same_values", type(e[k]) is type(d[k])
                and H.same(e[k], d[k]), (k, d[k], e[k]))
    back_again = back(to(e))
    for k in names:
        H.check("again", H.same(back_again[k], d[k]))


@harness("C24")
def keywords_with_any_values(H):
    """One keyword with an arbitrary constant."""
    to, back = (H.get(CV, "convert_dict_to_astkeywords"),
                H.get(CV, "convert_astkeywords_to_dict"))
    v = H.val("v")
    n = H.choose(3, "before")
    d = {f"k{i}": i for i in range(n)} | {"x": v} | {"y": None}
    H.cover("made")
    e = back(to(d))
    H.check("kept", list(e) == list(d) and H.same(e["x"], v)
            and all(e[f"k{i}"] == i for i in range(n)) and e["y"] is None)


TEXTS = ("0", "-3", "+4", "1_000", "0x1F", "1.5e3", "'q\\'s'", '"\\n"',
         "'é'", "b'\\x00'", "None", "True", "...", "1+2j", "-1-2j", "[]",
         "()", "{}", "(1,)", "[1, [2, (3, {'k': {4, 5}})]]", "{1: 'a', 'b': 2}",
         "{1, 2}", "'a' 'b'", "'''x\ny'''", "set()")
CODE = ("x", "f(1)", "1 + 2", "[x]", "lambda: 0", "{**{}}", "not True",
        "1 if True else 2", "[i for i in ()]", "__import__('os')", "(y := 3)",
        "f'{1}'", "a.b", "*x", "-'a'", "{1: x}")


@harness("C24", bound="a list of literal and other expressions")
def parsed_keywords(H):
    """Arguments as they stand in a source text."""
    back = H.get(CV, "convert_astkeywords_to_dict")
    good = H.choose(2, "literal")
    t = (CODE, TEXTS)[good]
    t = t[H.choose(len(t), "text")]
    if t == "*x":
        kw = ast.parse("f(**x)", mode="eval").body.keywords
    else:
        kw = ast.parse(f"f(u=1, v={t})", mode="eval").body.keywords
    H.cover("parsed")
    (e, err) = H.attempt(back, kw)
    if good:
        H.check("value", err is None and e["u"] == 1 and repr(e["v"])
                == repr(eval(t)) and len(e) == 2, (t, e, repr(err)))
    else:
        H.check("code_is_not_run", err is not None, (t, e))


# --------------------------------------------------------------- replaying
GOOD = ("@pth.pure()\ndef a(x):\n    return x\n",
        "@pth.autonomous(island_name='Thera')\ndef b():\n    pass\n",
        "@pth.strictly_autonomous()\ndef c(x):\n    return x\n",
        "@pth.pure(guards=['a'])\ndef d(x):\n    return a(x=x)\n")
NOT_FUNCTIONS = {
    "AsyncFunctionDef": "@pth.pure()\nasync def z(x):\n    return x\n",
    "ClassDef": "@pth.pure()\nclass z:\n    pass\n",
    "Return": None, "Delete": "x = 1\ndel x\n", "Assign": "z = 1\n",
    "TypeAlias": "type z = int\n", "AugAssign": "x = 1\nx += 1\n",
    "AnnAssign": "z: int = 1\n", "For": "for z in ():\n    pass\n",
    "AsyncFor": None, "While": "while False:\n    pass\n",
    "If": "if True:\n    @pth.pure()\n    def z(x):\n        return x\n",
    "With": "with z:\n    pass\n", "AsyncWith": None,
    "Match": "match 1:\n    case 1:\n        pass\n",
    "Raise": "raise ValueError\n",
    "Try": "try:\n    pass\nfinally:\n    pass\n",
    "TryStar": "try:\n    pass\nexcept* ValueError:\n    pass\n",
    "Assert": "assert True\n", "Import": "import os\n",
    "ImportFrom": "from os import path\n", "Global": "global z\n",
    "Nonlocal": "nonlocal z\n", "Expr": "'a text'\n", "Pass": "pass\n",
    "Break": "break\n", "Continue": "continue\n"}
# forms which cannot be parsed at module level are refused by the parser
UNPARSABLE = {"Return": "return\n", "AsyncFor":
              "async for z in y:\n    pass\n",
              "AsyncWith": "async with z:\n    pass\n"}
HEADS = ("", "@pth.pure()\n@pth.pure()\n", "@pth.pure\n", "@pure()\n",
         "@os.pure()\n", "@pth.pth.pure()\n", "@pth.no_such()\n",
         "@pth.safe()\n", "@pth.ordinary()\n", "@pth.PureFn()\n",
         "@pth.pure('Thera')\n", "@pth.pure()()\n", "@pth.pure(island=1)\n",
         "@pth.pure(island_name=name)\n", "@pth.pure(portal=None)\n",
         "@pth.pure(**{'island_name': 'Thera'})\n", "@(lambda f: f)\n",
         "@pth.pure()\n@staticmethod\n", "@staticmethod\n@pth.pure()\n",
         "@pth.autonomous(guards=['a'])\n", "@pth['pure']()\n")


def a_portal(H):
    """The portal replayed into, explicit or current."""
    p = common.portal(H, "p", ("PureCodePortal", "SwarmingPortal")[
        H.choose(2, "portal class")], **{}) if not H.small else common.portal(
            H, "p")
    how = H.choose(3, "how given")
    if how == 1:
        p.__enter__()
    elif how == 2:
        # given, while another one is the current one
        common.portal(H, "other").__enter__()
    return p, (None if how == 1 else p)


def replay(H, src, portal):
    f = H.get(PA, "process_augmented_func_src")
    return H.attempt(f, src, portal)


@harness("C24", bound="up to 2 allowed functions around the wrong statement")
def only_decorated_functions(H):
    """Every kind of statement and every kind of decoration."""
    p, given = a_portal(H)
    kinds = sorted(c.__name__ for c in ast.stmt.__subclasses__())
    k = H.choose(2, "statement")
    if k == 0:
        kinds = [x for x in kinds if x != "FunctionDef"]
        H.check("all_kinds", set(kinds) == set(NOT_FUNCTIONS),
                set(kinds) ^ set(NOT_FUNCTIONS))
        kind = kinds[H.choose(len(kinds), "kind")]
        bad = NOT_FUNCTIONS[kind] or UNPARSABLE[kind]
    else:
        bad = HEADS[H.choose(len(HEADS), "decorators")] + \
            "def z(x):\n    return x\n"
    at = H.choose(3, "position")
    good = [GOOD[0], GOOD[1]]
    src = "\n".join(good[:at] + [bad] + good[at:])
    H.cover("written")
    (_, err) = replay(H, src, given)
    H.check("refused", isinstance(err, Exception), bad)
    H.check("not_declared", all(
        "z" not in island for island in p.known_functions.values()), bad)


@harness("C24", bound="sources of up to 4 functions; anything but texts and "
                      "portals from a list")
def replayed(H):
    """Allowed functions, in any number; wrong arguments."""
    p, given = a_portal(H)
    n = H.choose(5, "functions")
    src = "\n".join(GOOD[:n])
    wrong = H.choose(4, "wrong")
    if wrong == 1:
        src = (b"", 5, None, [GOOD[0]])[H.choose(4, "source")]
    elif wrong == 2:
        given = ("QWERTY", 5, object())[H.choose(3, "given")]
    elif wrong == 3:
        src += "\n@pth.pure()\ndef y(:\n"
    H.cover("written")
    (_, err) = replay(H, src, given)
    if wrong:
        H.check("refused", isinstance(err, Exception))
        H.check("nothing_declared", p.known_functions == {"Samos": {}})
        return
    H.check("accepted", err is None, repr(err))
    got = {i: sorted(fs) for i, fs in p.known_functions.items()}
    want = {"Samos": [x for x in "acd" if x in "abcd"[:n]]}
    if n > 1:
        want["Thera"] = ["b"]
    H.check("declared", got == want, got)
    H.check("nowhere_else", not any(
        fs for q in H.pth.BasicPortal.all_portals.values()
        if q is not p for fs in q.known_functions.values()))
    fns = {k: f for fs in p.known_functions.values() for k, f in fs.items()}
    for k, f in fns.items():
        H.check("kind", f.fn_type == {"a": "pure", "b": "autonomous", "c":
                "strictly_autonomous", "d": "pure"}[k] and f.portal is p)
    if n > 3:
        H.check("guards", fns["d"].guards == ["a"]
                and fns["a"].guards is None)
    # again: the same functions, nothing new
    (_, err) = replay(H, src, given)
    H.check("repeatable", err is None, repr(err))
    H.check("same", all(p.known_functions[i][k] is fns[k]
                        for i in want for k in want[i]))


# ------------------------------------------------------- augmented sources
class Program:
    """Functions f0.. with calls, references and guards.

    calls[i], refs[i]: functions called, only referred to; guards[i];
    kind[i]: "pure", "autonomous" or "strict"."""

    def __init__(self, n, calls, refs, guards, kind, island=None):
        self.n, self.calls, self.refs = n, calls, refs
        self.guards, self.kind, self.island = guards, kind, island

    def name(self, i):
        # names whose alphabetical order differs from their numbers
        return ("main", "helper", "check", "zeta", "alpha")[i]

    def source(self, i):
        uses = [f"{self.name(j)}(x=x)" for j in self.calls.get(i, ())]
        uses += [f"_ = lambda: {self.name(j)}" for j in self.refs.get(i, ())]
        return common.Bodies.src(self.name(i), ["x"], uses)

    def needed(self, i):
        out, todo = set(), [i]
        while todo:
            k = todo.pop()
            if k not in out:
                out.add(k)
                todo += [*self.calls.get(k, ()), *self.refs.get(k, ()),
                         *self.guards.get(k, ())]
        return out

    def declare(self, H, p, order):
        fs = {}
        for i in order:
            d = {"pure": H.pth.pure, "autonomous": H.pth.autonomous,
                 "strict": H.pth.strictly_autonomous}[self.kind.get(
                     i, "pure")]
            kw = dict(portal=p)
            if self.island:
                kw["island_name"] = self.island
            if i in self.guards:
                g = [self.name(j) for j in self.guards[i]]
                kw["guards"] = g[0] if len(g) == 1 and len(
                    order) % 2 else g
            fs[i] = d(**kw)(self.source(i))
        return fs

    def orders(self):
        """All orders in which guards come before what they guard."""
        return [o for o in itertools.permutations(range(self.n)) if all(
            o.index(g) < o.index(i) for i in self.guards
            for g in self.guards[i])]


ISLAND = "\u00cele d'If \\ \"{x}\"\n# 1"
PROGRAMS = [
    Program(1, {}, {}, {}, {}),
    Program(1, {}, {0: [0]}, {}, {}),
    Program(2, {0: [1]}, {}, {}, {}),
    Program(3, {0: [1], 1: [2]}, {}, {}, {}, "Thera"),
    Program(2, {0: [1]}, {1: [0]}, {}, {}),
    Program(3, {0: [1]}, {1: [2], 2: [0]}, {}, {1: "autonomous"}),
    Program(2, {}, {}, {0: [1]}, {1: "strict"}),
    Program(3, {0: [1]}, {}, {1: [2]}, {2: "strict"}, "Thera"),
    Program(3, {1: [2]}, {}, {0: [1]}, {1: "autonomous"}),
    Program(3, {}, {}, {0: [1], 1: [2]}, {}),
    Program(4, {0: [1], 2: [3]}, {}, {1: [2]}, {3: "autonomous"}),
    Program(4, {0: [1]}, {3: [3]}, {1: [2], 2: [3]}, {3: "strict"}),
    Program(4, {0: [1, 3]}, {}, {0: [2], 1: [2]}, {2: "autonomous"}),
    Program(4, {0: [1], 1: [3]}, {}, {0: [2, 3]}, {}),
    Program(4, {2: [3]}, {}, {0: [1, 2], 1: [2]}, {}),
    Program(4, {}, {0: [1], 1: [0], 2: [1]}, {}, {}),
    Program(3, {0: [1]}, {}, {1: [2]}, {2: "strict"}, ISLAND),
]


def a_program(H):
    if H.sym or H.ctx.replaying:
        return PROGRAMS[H.choose(len(PROGRAMS), "program")]
    n = 1 + H.choose(5, "functions")
    calls = {i: [j for j in range(i + 1, n) if H.choose(3, "call") == 0]
             for i in range(n)}
    refs = {i: [j for j in range(n) if H.choose(6, "reference") == 0]
            for i in range(n)}
    kind = {i: ("pure", "pure", "autonomous")[H.choose(3, "kind")]
            for i in range(n)}
    guards = {}
    for i in range(n):
        if kind[i] == "pure":
            g = [j for j in range(i + 1, n) if H.choose(4, "guard") == 0]
            if g:
                guards[i] = g
        if not calls[i] and set(refs[i]) <= {i} and kind[i] == "autonomous" \
                and H.flag("strict"):
            kind[i] = "strict"
    return Program(n, calls, refs, guards, kind, (
        None, "Thera", ISLAND)[H.choose(3, "island")])


def an_order(H, orders, label="order"):
    """First and last one in symbolic runs."""
    if H.sym or H.ctx.replaying:
        orders = [orders[-1]] if len(orders) < 3 else [
            orders[len(orders) // 3], orders[-1]]
    return orders[H.choose(len(orders), label)]


def check_source(H, prog, fs, i):
    """The augmented source of one function."""
    f = fs[i]
    (src, err) = H.attempt(lambda: f.augmented_fn_source_code)
    H.check("available", err is None, repr(err))
    tree = ast.parse(src)
    H.check("only_functions", all(isinstance(x, ast.FunctionDef)
                                  for x in tree.body))
    got = [x.name for x in tree.body]
    want = {prog.name(j) for j in prog.needed(i)}
    H.check("exactly_what_is_needed", set(got) == want, (got, want))
    H.check("each_once", len(got) == len(set(got)), got)
    by = {prog.name(j): j for j in range(prog.n)}
    for x in tree.body:
        j = by[x.name]
        H.check("one_decorator", len(x.decorator_list) == 1)
        d = x.decorator_list[0]
        H.check("its_decorator", ast.unparse(d) == ast.unparse(ast.parse(
            fs[j].decorator[1:], mode="eval").body))
        x.decorator_list = []
        H.check("its_source", ast.dump(x) == ast.dump(ast.parse(
            fs[j].fn_source_code).body[0]))
        # guards come first
        for g in prog.guards.get(j, ()):
            H.check("guards_first", got.index(prog.name(g))
                    < got.index(x.name), got)
    return src


@harness("C24", bound="17 programs of up to 4 functions; random ones of up "
                      "to 5 in concrete runs")
def augmented_source(H):
    """Programs declared in two portals in two orders, and used."""
    prog = a_program(H)
    orders = prog.orders()
    out = []
    b = common.Bodies(H)
    for k in range(2):
        p = common.portal(H, f"p{k}")
        fs = prog.declare(H, p, an_order(H, orders) if k else orders[0])
        pure = [i for i in range(prog.n) if prog.kind.get(i, "pure")
                == "pure"]
        if H.flag("others first"):
            for i in reversed(range(prog.n)):
                H.attempt(fs[i].execute, x=1)
        srcs = {}
        for i in pure:
            fs[i].get_address(x=0)
            srcs[i] = check_source(H, prog, fs, i)
        out.append((srcs, {i: tuple(fs[i].get_address(x=0)) for i in pure}))
    H.cover("declared")
    H.check("independent_of_order", out[0][0] == out[1][0])
    H.check("same_addresses", out[0][1] == out[1][1])


@harness("C24", bound="17 programs of up to 4 functions; random ones of up "
                      "to 5 in concrete runs")
def execution_while_declaring(H):
    """Calls made while some of the needed functions are still missing."""
    prog = a_program(H)
    order = an_order(H, prog.orders())
    b = common.Bodies(H)
    p, q = common.portal(H, "p"), common.portal(H, "q")
    at = H.choose(prog.n, "called after")
    fs = {}
    for k, i in enumerate(order):
        fs.update(prog.declare(H, p, [i]) if not fs else prog.declare(
            H, p, [i]))
        if k == at:
            for j in list(fs):
                # branches which do not call what is missing
                n = len(b.calls)
                (_, err) = H.attempt(fs[j].execute, x=5)
                missing = not prog.needed(j) <= set(fs)
                H.check("missing_ones_are_noticed", not missing
                        or isinstance(err, Exception), (order, at, j))
    H.cover("declared")
    gs = prog.declare(H, q, prog.orders()[0])
    for i in range(prog.n):
        if prog.kind.get(i, "pure") != "pure":
            continue
        fs[i].get_address(x=0)
        gs[i].get_address(x=0)
        H.check("as_if_all_were_declared_first", check_source(
            H, prog, fs, i) == check_source(H, prog, gs, i))


# -------------------------------------------------------------- restoring
@harness("C24", bound="17 programs of up to 4 functions; random ones of up "
                      "to 5 in concrete runs; 2 sessions")
def restored(H):
    """A pure function pickled in one session and restored in another."""
    prog = a_program(H)
    v = H.val("result")
    b = common.Bodies(H)
    p = common.portal(H, "p")
    fs = prog.declare(H, p, an_order(H, prog.orders()))
    pure = [i for i in range(prog.n) if prog.kind.get(i, "pure") == "pure"]
    H.assume(len(pure) > 0)
    i = pure[0] if H.small else pure[H.choose(len(pure), "function")]
    name = prog.name(i)
    b.do[name] = lambda kw: (v, kw["x"])
    used = H.flag("used before")
    if used:
        (r, err) = H.attempt(fs[i].execute, x=4)
        H.check("works", err is None and H.same(r[0], v) and r[1] == 4,
                repr(err))
    calls_of_first = {n for n, _ in b.calls}
    a = fs[i].get_address(x=9)
    src = fs[i].augmented_fn_source_code
    form = ghost.freeze(fs[i])
    island = fs[i].island_name

    # another session: no portals, no functions, other storage or the same
    H.pth.BasicPortal._clear_all()
    how = H.choose(3, "session")
    q = common.portal(H, "q", **(dict(default_island_name="Paros")
                                 if how == 1 else {}))
    if how == 2:
        # some of the functions are already there
        orders = prog.orders()
        o = orders[0] if H.small else an_order(H, orders, "declared before")
        k = prog.n - H.choose(2 if H.small else prog.n + 1, "not declared")
        prog.declare(H, q, o[:k])
    with q:
        (g, err) = H.attempt(ghost.thaw, form)
    H.check("restored", err is None, repr(err))
    have = {k: f for k, f in q.known_functions[island].items()}
    H.check("all_needed_are_there", {prog.name(j) for j in prog.needed(i)}
            <= set(have), sorted(have))
    for j in prog.needed(i):
        f = have[prog.name(j)]
        H.check("same_kind", f.fn_type == {
            "pure": "pure", "autonomous": "autonomous",
            "strict": "strictly_autonomous"}[prog.kind.get(j, "pure")])
        H.check("same_guards", (getattr(f, "guards", None) or []) == sorted(
            prog.name(x) for x in prog.guards.get(j, ())))
        H.check("same_portal", f.portal is q)
    H.check("same_name", g.fn_name == name and g.island_name == island)
    H.check("same_source", g.augmented_fn_source_code == src)
    H.cover("restored")
    H.check("same_address", tuple(g.get_address(x=9)) == tuple(a))
    del b.calls[:]
    (r, err) = H.attempt(g.execute, x=4)
    H.check("same_result", err is None and H.same(r[0], v) and r[1] == 4,
            repr(err))
    if used:
        H.check("same_functions_run", {n for n, _ in b.calls}
                == calls_of_first, (b.calls, calls_of_first))


@harness("C24", bound="17 programs of up to 4 functions; random ones of up "
                      "to 5 in concrete runs; 2 sessions")
def restored_guards(H):
    """Guards of a restored function decide as they did."""
    prog = a_program(H)
    b = common.Bodies(H)
    p = common.portal(H, "p")
    fs = prog.declare(H, p, prog.orders()[0])
    guarded = [i for i in prog.guards]
    H.assume(len(guarded) > 0)
    i = guarded[H.choose(len(guarded), "function")]
    g = prog.guards[i][H.choose(len(prog.guards[i]), "guard")]
    fs[i].get_address(x=0)
    form = ghost.freeze(fs[i])
    H.pth.BasicPortal._clear_all()
    q = common.portal(H, "q")
    with q:
        f = ghost.thaw(form)
    H.cover("restored")
    refuse = H.flag("refuses")

    def guard(kw):
        if refuse:
            raise common.Boom("no")
    b.do[prog.name(g)] = guard
    (r, err) = H.attempt(f.execute, x=4)
    H.check("decides", (err is not None) == refuse, repr(err))
    if refuse:
        H.check("not_run", b.count(prog.name(i)) == 0)
    H.check("guard_was_asked", b.count(prog.name(g)) >= 1)


def described(H):
    """Sources, addresses of all programs (run in other sessions)."""
    out = {}
    common.Bodies(H)
    for k, prog in enumerate(PROGRAMS):
        p = common.portal(H, f"p{k}")
        fs = prog.declare(H, p, prog.orders()[-1])
        for i in range(prog.n):
            if prog.kind.get(i, "pure") == "pure":
                a = fs[i].get_address(x=0)
                out[f"{k}/{i}"] = [fs[i].augmented_fn_source_code, list(a)]
    return out


@harness("C24", bound="17 programs; 5 hash seeds", random=False)
def other_hash_seeds(H):
    """The enumeration order of sets differs from session to session."""
    H.choose(1, "programs")
    rs = session.run("C24", "described", [])
    H.cover("described")
    for r in rs:
        if "crash" in r:
            H.undecided(r["crash"])
        H.check("described", "result" in r, r.get("failed"))
        H.check("same_sources_and_addresses", r["result"] == rs[0]["result"])
