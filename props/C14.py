"""C14: a name in an island stands for one function during a session."""
from pyvc import sym
from pyvc.api import harness
from . import common

GUARDS = {"guarded": ["guard"], "guarded otherwise": ["other_guard"],
          "guarded twice": ["guard", "other_guard"]}
KINDS = ("autonomous", "strictly_autonomous", "pure", *GUARDS, "derived",
         "derived pure")
N = 6


def derived(H, base):
    """A user's own class of functions, declared like its base class."""
    class Derived(base):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw)
            self._begin_fn_registration()
    H.derived = getattr(H, "derived", {})
    return H.derived.setdefault(base, Derived)


def declare(H, p, kind, island, src):
    kw = {} if island is None else dict(island_name=island)
    if kind in GUARDS:
        return H.pth.pure(portal=p, guards=list(GUARDS[kind]), **kw)(src)
    if kind.startswith("derived"):
        return derived(H, H.pth.PureFn if kind.endswith("pure")
                       else H.pth.AutonomousFn)(src, portal=p, **kw)
    return getattr(H.pth, kind)(portal=p, **kw)(src)


def source(name, k):
    return common.Bodies.src(name, uses=[f"x = {k}"])


def guard(H, p, island=None):
    """Functions that can serve as guards in the island."""
    for n in ("guard", "other_guard"):
        declare(H, p, "strictly_autonomous", island, guard_source(n))


def guard_source(n):
    return f"def {n}(**kw):\n    return True\n"


@harness("C14", replay=False, random=False)
def one_more_declaration(H):
    """A declaration under a name that is taken by a function with any
    source text, of any kind, executed or not."""
    p = common.portal(H, "p")
    b = common.Bodies(H)
    guard(H, p)
    k1, k2 = (H.choose(len(KINDS), n) for n in ("kind", "new kind"))
    old = declare(H, p, KINDS[k1], None, source("f", 1))
    island = p.known_functions[p.default_island_name]
    first = island["f"]
    if k1 < N and H.flag("executed"):
        old()
    t = H.text("registered_source")
    first.fn_source_code = t
    before = dict(vars(first))
    new, err = H.attempt(declare, H, p, KINDS[k2], None, source("f", 1))
    H.cover("declared")
    s = H.pth.ordinary(portal=p)(source("f", 1)).fn_source_code
    ok = (t == s) if k1 == k2 else sym.SBool(False)
    H.check("accepted_exactly_if_the_same", sym.SBool(
        ok.t == sym.bterm(err is None)), repr(err))
    now = island.get("f")
    H.check("still_registered", now is first or err is None
            and type(now) is type(first) and H.eq(now.fn_source_code, t)
            and now.decorator == first.decorator)
    after = vars(first)
    H.check("unchanged", set(after) == set(before) and all(
        after[k] is before[k] or after[k] == before[k] for k in before))
    H.check("nothing_else_registered", set(island) == {"f", "guard", "other_guard"})
    if err is None:
        H.check("refers_to_the_registered_source", H.eq(
            new.fn_source_code, t))


NORMAL = {}


def normal(H, src):
    if src not in NORMAL:
        NORMAL[src] = H.pth.ordinary(portal=common.portal(H, "n"))(
            src).fn_source_code
    return NORMAL[src]


BODIES = ((0, 1), (1, 10), (0, "False"), ("0.0", "-0.0"), ("''", "' '"),
          ("'a b'", "'a  b'"), ("'A b'", "'a b'"), ("(1, 2)", "[1, 2]"),
          ("{1: 2}", "{1, 2}"), ("'''a\n b'''", "'''a\n  b'''"), ("'a'", "b'a'"),
          ("'a#b'", "'a#c'"), ("1 if 1 else 2", "1 if 2 else 1"))


class Model:
    def __init__(self, H):
        self.H = H
        self.ps = [common.portal(H, "p"), common.portal(H, "q")]
        self.known = {}
        self.objs = {}
        self.b = common.Bodies(H)
        for i, p in enumerate(self.ps):
            for isl in (None, "A"):
                guard(H, p, isl)
                for n in GUARDS["guarded twice"]:
                    self.known[(i, isl, n)] = ("strictly_autonomous", 0)
        self.bodies = (0, 1) if H.sym or H.ctx.replaying else \
            H.ctx.rng.choice(BODIES)

    def declare(self, i, isl, name, kind, k):
        H = self.H
        key = (i, isl, name)
        new, err = H.attempt(declare, H, self.ps[i], kind, isl,
                             source(name, self.bodies[k]))
        want = self.known.get(key) in (None, (kind, k))
        H.check("accepted_exactly_if_the_same", want == (err is None),
                f"{key} {kind} {k}: {err!r}; known {self.known}")
        if err is None:
            self.known[key] = (kind, k)
            self.objs.setdefault(key, []).append(new)

    def run(self, key, which):
        objs = self.objs.get(key)
        if not objs:
            return
        f = objs[which % len(objs)]
        self.b.do[key[2]] = lambda kw: self.mark(key)
        r, err = self.H.attempt(f)
        self.H.check("works", err is None and r == "result of " + key[2],
                     f"{key}: {err!r} {r!r}")

    def mark(self, key):
        return "result of " + key[2]

    def compare(self):
        H = self.H
        for i, p in enumerate(self.ps):
            for isl in (None, "A"):
                reg = p.known_functions.get(
                    isl or p.default_island_name, {})
                want = {n for (j, s, n) in self.known if (j, s) == (i, isl)}
                H.check("registered_names", set(reg) == want)
                for n in want:
                    kind, k = self.known[(i, isl, n)]
                    f = reg[n]
                    src = normal(H, guard_source(n) if "guard" in n else
                                 source(n, self.bodies[k]))
                    H.check("registered_function",
                            f.fn_source_code == src and f.fn_name == n
                            and f.fn_type == ("pure" if kind in GUARDS
                                              else kind)
                            and getattr(f, "guards", None) == GUARDS.get(
                                kind))


@harness("C14", bound="2 declarations and executions; 5 in concrete runs")
def histories(H):
    """Sequences of declarations and executions over two portals, two islands,
    two names, four kinds and two sources."""
    m = Model(H)
    n = 5 if not H.sym and not H.ctx.replaying else 2
    if n == 2:
        k = H.choose(N, "kind")
        m.declare(0, None, "f", KINDS[k], 0)
        runs = H.choose(3, "executions")
        if runs:
            m.run((0, None, "f"), 0)
        key = ((0, None, "f"), (1, None, "f"), (0, "A", "f"), (0, None, "g"))[
            H.choose(4, "second name")]
        m.declare(*key, KINDS[(k + H.choose(2, "another kind")) % N],
                  H.choose(2, "source"))
        if runs == 2:
            m.run(key, 0)
        n = 0
    for s in range(n):
        key = (H.choose(2, "portal"), (None, "A")[H.choose(2, "island")],
               ("f", "g")[H.choose(2, "name")])
        m.declare(*key, KINDS[H.choose(N, "kind")], H.choose(2, "source"))
        if H.flag("execute"):
            key = sorted(m.objs, key=repr)[H.choose(len(m.objs), "which")]
            m.run(key, H.choose(2, "object"))
    m.compare()
    for key in sorted(m.objs, key=repr):
        m.run(key, 0)
        m.run(key, -1)
    m.compare()
    H.cover("compared")


@harness("C14", bound="a few redeclarations of a function with dependencies")
def dependent_functions(H):
    """Redeclaring a function or its dependency after execution."""
    p = common.portal(H, "p")
    b = common.Bodies(H)
    kind = KINDS[(0, 2)[H.choose(2, "kind")]]
    b.do["g"] = lambda kw: 5
    srcg = b.src("g")
    srcf = b.src("f", uses=["y = g()"])

    def both():
        fs = {}
        for n in (("f", srcf), ("g", srcg))[::1 if H.flag("f first") else -1]:
            fs[n[0]] = declare(H, p, kind, None, n[1])
        return fs
    one = both()
    if H.flag("run"):
        one["f"]()
    elif H.flag("run g"):
        one["g"]()
    two, err = H.attempt(both)
    H.check("identical_declarations_accepted", err is None, repr(err))
    for d in (one, two)[::1 if H.flag("old first") else -1]:
        _, err = H.attempt(d["f"])
        H.check("works", err is None, repr(err))
    bad, err = H.attempt(declare, H, p, kind, None,
                         b.src("g", uses=["y = 1"]))
    H.check("changed_dependency_refused", err is not None)
    _, err = H.attempt(one["f"])
    H.check("still_works", err is None, repr(err))
    H.check("right_source", p.known_functions[p.default_island_name][
        "g"].fn_source_code == one["g"].fn_source_code)
    H.cover("done")


@harness("C14", bound="a fixed collection of pairs of functions")
def nearly_the_same(H):
    """Functions that differ in as little as possible."""
    b = common.Bodies(H)
    p = common.portal(H, "p")
    pair = BODIES[H.choose(len(BODIES), "pair")]
    kind = KINDS[H.choose(3, "kind")]
    one = declare(H, p, kind, None, source("f", pair[0]))
    if H.flag("executed"):
        one()
    _, err = H.attempt(declare, H, p, kind, None, source("f", pair[1]))
    H.cover("declared")
    H.check("refused", err is not None, pair)
    _, err = H.attempt(declare, H, p, kind, None, "\n" + source(
        "f", pair[0]).replace(" = ", "   =  ", 1) + "  # end\n\n")
    H.check("same_but_for_the_layout_accepted", err is None, repr(err))
    H.check("registered", p.known_functions[p.default_island_name][
        "f"].fn_source_code == one.fn_source_code)


@harness("C14", bound="one function with one dependency and a guard")
def restored_declarations(H):
    """A stored function declares itself and what it needs again when it is
    restored; if that is refused, what is known already keeps working."""
    b = common.Bodies(H)
    kind = H.choose(2, "kind of the dependency")
    srcf = "def f():\n    return g()\n"
    guarded = H.flag("guarded")

    def g(k):
        return declare(H, p, KINDS[2 * kind], None,
                       f"def g():\n    return {k}\n")

    def f():
        return declare(H, p, "guarded" if guarded else "pure", None, srcf)
    p = common.portal(H, "p")
    guard(H, p)
    g(1), f()
    with p:
        a = H.pth.ValueAddr(p.known_functions[p.default_island_name]["f"])
    key = a.prefix, a.hash_signature
    H.pth.BasicPortal._clear_all()
    p = common.portal(H, "p")
    if guarded or H.flag("guards known"):
        guard(H, p)
    order = H.choose(4, "declared")
    k = 1 + H.choose(2, "version")
    known = {}
    if order in (0, 1):
        known["g"] = g(k)
    if order in (0, 2, 3):
        known["f"] = f()
    if order == 3:
        known["g"] = g(k)
    run = "g" in known and "f" in known and H.flag("executed")
    if run:
        H.check("works_before", known["f"]() == k)
    island = p.known_functions[p.default_island_name] if known else {}
    before = {n: (o, o.fn_source_code) for n, o in island.items()}

    def restore():
        with p:
            return p.value_store[key]
    r, err = H.attempt(restore)
    H.cover("restored")
    other = "g" in known and k == 2
    H.check("accepted_exactly_if_the_same", (err is not None) == other,
            repr(err))
    H.check("nesting", not H.pth.BasicPortal.get_entered_portals())
    for n, (o, src) in before.items():
        now = p.known_functions[p.default_island_name].get(n)
        H.check("registered", now is not None and now.fn_source_code == src
                and now.decorator == o.decorator)
    if "g" in known:
        x, e = H.attempt(known["g"])
        H.check("dependency_works", e is None and x == k, repr(e))
        if "f" in known:
            x, e = H.attempt(known["f"])
            H.check("works", e is None and x == k, repr(e))
            x, e = H.attempt(f)
            H.check("declared_again", e is None)
    if err is None:
        x, e = H.attempt(r)
        H.check("restored_works", e is None and x == 1, repr(e))


@harness("C14", bound="two places with up to 3 functions each")
def places_apart(H):
    """What a function calls and depends on is a matter of its own island and
    portal, whatever the same names stand for elsewhere."""
    common.Bodies(H)
    p, q = common.portal(H, "p"), common.portal(H, "q")
    where = H.choose(2, "apart")
    places = ((p, None), (p, "A")) if where == 0 else ((p, None), (q, None))
    kind = KINDS[(0, 2)[H.choose(2, "kind")]]
    shape, out = [], []
    for i, (s, isl) in enumerate(places):
        # which functions there are, and whether g calls h
        h, g = H.flag(f"h in {i}"), H.flag(f"g in {i}")
        shape.append((g, h, g and H.flag(f"g calls h in {i}")))
    for name in ("f", "g", "h")[::-1 if H.flag("h first") else 1]:
        for i, (s, isl) in enumerate(places):
            g, h, deep = shape[i]
            if name == "f":
                src = f"def f():\n    return g() + ['f{i}']\n"
            elif name == "g" and g:
                src = f"def g():\n    return {'h()' * deep or []} + ['g{i}']\n"
            elif name == "h" and h:
                src = f"def h():\n    return ['h{i}']\n"
            else:
                continue
            out.append((i, declare(H, s, kind, isl, src)))
    first = H.choose(2, "run first")
    H.cover("declared")
    for k in (first, 1 - first, first):
        f = next(x for i, x in out if i == k and x.fn_name == "f")
        g, h, deep = shape[k]
        r, err = H.attempt(f)
        if not g or deep and not h:
            H.check("unknown_names_are_not_taken_from_elsewhere",
                    err is not None)
            continue
        H.check("works", err is None and r == [f"h{k}"] * deep + [
            f"g{k}", f"f{k}"], f"{err!r} {r!r}")
        H.check("dependencies", f.dependencies == ["f", "g"] + ["h"] * deep,
                f.dependencies)
        H.check("portal", f.portal is places[k][0])
    for i, f in out:
        H.check("island", f.island_name == (places[i][1] or "Samos"))
