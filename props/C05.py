"""C05: call addresses ignore argument order and packing."""
import itertools
from pyvc.api import harness
from pyvc.ordered import user_value
from . import common

NAMES = ["zeta", "alpha", "mid"]


def arguments(H, n=None):
    """[(name, value)] in any order of up to three names."""
    n = H.choose(4, "arguments") if n is None else n
    perms = list(itertools.permutations(NAMES[:n]))
    order = perms[H.choose(len(perms), "order")]
    values = {k: H.val(k) for k in sorted(order)}
    return [(k, values[k]) for k in order]


def Kw(H):
    return H.get("_070_pure_functions.kw_args", "SortedKwArgs")


@harness("C05", bound="at most 2 arguments of any content")
def packing(H):
    """Packing replaces every value by its address, unpacking restores it;
    both are idempotent, keep the names, sort them, and change nothing in
    the original."""
    H.pth
    p, q = (common.portal(H, n) for n in "pq")
    A = H.pth.ValueAddr
    args = arguments(H, H.choose(3, "arguments"))
    given = [(k, A(v, portal=(p, q)[k == "mid"])
              if H.flag("as address") else v) for k, v in args]
    d = Kw(H)(**dict(given))
    names = sorted(k for k, _ in args)
    H.check("sorted", list(d) == names)
    for k, g in given:
        H.check("content_kept", d[k] is g or H.same(d[k], g))
    if H.flag("entered"):
        q.__enter__()
    packed = d.pack(p)
    H.cover("packed")
    H.check("names_kept", list(packed) == names)
    for k, v in args:
        H.check("stored", isinstance(packed[k], A)
                and packed[k] in p.value_store)
        H.check("replaced_by_address", bool(packed[k] == A(v, portal=p)))
    for k, g in given:
        H.check("original_unchanged", d[k] is g or H.same(d[k], g))
    again = packed.pack((p, q)[H.choose(2, "again in")])
    H.check("packing_twice", list(again) == names and all(
        bool(again[k] == packed[k]) for k in names))
    un = packed.unpack()
    H.check("names_restored", list(un) == names)
    for k, v in args:
        H.check("value_restored", H.same(un[k], v))
        H.check("packed_unchanged", isinstance(packed[k], A))
    un2 = un.unpack()
    H.check("unpacking_twice", list(un2) == names)
    for k, v in args:
        H.check("value_kept", H.same(un2[k], v))
    re = un.pack(p)
    H.check("packed_again", list(re) == names and all(
        bool(re[k] == packed[k]) for k in names))
    mixed = d.unpack()
    for k, v in args:
        H.check("mixed_unpacked", H.same(mixed[k], v))


def build(H, f, kw):
    how = H.choose(3 if H.small else 6, "built by")
    if how == 0:
        return f.get_address(**kw)
    if how == 1:
        return H.get("_070_pure_functions.pure_core_classes",
                     "PureFnExecutionResultAddr")(f, kw)
    if how == 2:
        return f.swarm(**kw)
    if how == 3:
        return f.swarm_list([kw])[0]
    if how == 4:
        return f.run(**kw)
    return f.run_list([kw])[0]


@harness("C05", bound="at most 3 arguments of any content")
def call_address(H):
    """Order and packing of the arguments, the way the address is made, what
    is entered and what happened before do not matter."""
    b = common.Bodies(H)
    p, q = (common.portal(H, n) for n in "pq")
    src = b.src("f", ["**kw"]).replace("dict()", "kw")
    f = H.pth.pure(portal=p)(src)
    b.do["f"] = lambda kw: 1
    n = H.choose(3 if H.small else 4, "arguments")
    args = arguments(H, n)
    canon = f.get_address(**{k: v for k, v in sorted(args)})
    before = canon.str_chain
    given = {}
    for k, v in args:
        given[k] = H.pth.ValueAddr(v, portal=(p, q)[H.choose(2, "of")]) \
            if H.flag("as address") else v
    if H.flag("executed_before"):
        f.execute(**dict(args))
    if H.flag("entered"):
        q.__enter__()
    a = build(H, f, given)
    H.cover("built")
    H.check("equal", bool(a == canon))
    H.check("prefix", a.prefix == "f_Samos")
    H.check("canonical_kept", canon.str_chain is before)
    H.check("function", a.function.fn_name == "f")
    un = a.kwargs
    H.check("argument_names", list(un) == sorted(k for k, _ in args))
    for k, v in args:
        H.check("argument_values", H.same(un[k], v))


@harness("C05", bound="2 arguments of any content")
def different_calls_differ(H):
    """The address depends on the function, the names and the contents."""
    b = common.Bodies(H)
    p = common.portal(H, "p")
    f = H.pth.pure(portal=p)(b.src("f", ["**kw"]).replace("dict()", "kw"))
    A = f.get_address
    v, w = H.val("v"), H.val("w")
    same = bool(H.same(v, w))
    k = H.choose(6, "difference")
    H.cover("compared")
    if k == 0:
        H.check("content", bool(A(a=v) == A(a=w)) == same)
    elif k == 1:
        H.check("which_argument",
                bool(A(a=v, b=w) == A(a=w, b=v)) == same)
    elif k == 2:
        H.check("name", bool(A(a=v) != A(b=v)))
    elif k == 3:
        H.check("number", bool(A(a=v) != A(a=v, b=v)))
        H.check("none", bool(A() != A(a=v)))
    elif k == 4:
        g = H.pth.pure(portal=p)(b.src("g", ["**kw"]).replace(
            "dict()", "kw"))
        H.check("function_name", bool(A(a=v) != g.get_address(a=v)))
    else:
        how = H.choose(3, "declared")
        src = b.src("f", ["**kw"]).replace("dict()", "kw")
        if how == 0:
            src = src.replace("pyvc_body\n", "pyvc_body\n    x = 1\n")
        q = common.portal(H, "q")
        g = H.pth.pure(portal=q, **(
            {"island_name": "Other"} if how == 1 else {}))(src)
        eq = bool(A(a=v) == g.get_address(a=v))
        H.check("same_function_elsewhere", eq == (how == 2), how)


@harness("C05", bound="at most 3 arguments, nested containers of any content")
def container_arguments(H):
    """Arguments that are collections are addressed by content, too."""
    b = common.Bodies(H)
    p = common.portal(H, "p")
    f = H.pth.pure(portal=p)(b.src("f", ["**kw"]).replace("dict()", "kw"))
    v, w, u = H.val("v"), H.val("w"), H.val("u")
    x = [{"k": v, "l": (u, [3])}, None]
    y = [{"l": (u, [3]), "k": v}, None]
    a = f.get_address(d=x, e=w)
    c = f.get_address(e=w, d=y)
    H.cover("built")
    H.check("equal", bool(a == c))
    z = [{"k": w, "l": (u, [3])}, None]
    same = bool(H.same(v, w))
    H.check("differs", bool(a == f.get_address(d=z, e=w)) == same)


POOLS = [("a", "A", "B"), ("Z", "_", "z9"), ("x10", "x2", "X"),
         ("n\u00e9", "ne", "\u03b2"), ("self_", "value", "kwargs"),
         ("k", "v", "portal"), ("self", "kargs", "cls"), ("name_b", "nameb", "name_B")]


def some_names(H):
    if H.small or H.flag("listed"):
        return POOLS[H.choose(4 if H.small else len(POOLS), "names")]
    r, out = H.ctx.rng, set()
    while len(out) < 4:
        out.add("".join(r.choice("aAbBzZ_") for _ in range(r.randrange(1, 4)))
                + r.choice(["", "", "0", "1", "10", "\u00e9"]))
    out = {n for n in out if n.isidentifier()} - {"as"}
    return tuple(sorted(out, key=lambda n: r.random()))


@harness("C05", bound="at most 4 arguments with sampled names")
def argument_names(H):
    """The order of the arguments does not matter whatever their names."""
    b = common.Bodies(H)
    p = common.portal(H, "p")
    f = H.pth.pure(portal=p)(b.src("f", ["**kw"]).replace("dict()", "kw"))
    names = some_names(H)
    values = {k: i for i, k in enumerate(names)}
    perms = list(itertools.permutations(names)) if len(names) < 4 else [
        tuple(sorted(names, key=lambda n: H.ctx.rng.random()))
        for _ in range(4)]
    canon = f.get_address(**{k: values[k] for k in sorted(names)})
    one = perms[H.choose(len(perms), "order")]
    given = {k: values[k] for k in one}
    how = H.choose(4, "of")
    H.cover("built")
    if how == 0:
        H.check("sorted", list(Kw(H)(**given)) == sorted(names))
    elif how == 1:
        H.check("packed_sorted", list(
            Kw(H)(**given).pack(p)) == sorted(names))
    elif how == 2:
        H.check("unpacked_sorted", list(
            Kw(H)(**given).pack(p).unpack()) == sorted(names))
    else:
        H.check("equal", bool(f.get_address(**given) == canon), one)
    shorter = dict(list(given.items())[1:])
    H.check("fewer_names", bool(f.get_address(**shorter) != canon))


def ghost_kw(H):
    """SortedKwArgs of the real source over the ghost base class."""
    import types
    from pyvc import rt
    from pyvc.ordered import Ordered
    from pyvc.world import code_of
    m = H.mod("_070_pure_functions.kw_args")
    g = types.ModuleType(m.__name__)
    g.__dict__.update({"__file__": m.__file__, "__package__": m.__package__,
                       "__builtins__": m.__dict__["__builtins__"],
                       "vc__": rt.RT, "dict": Ordered})
    exec(code_of(m.__file__, m.__name__), g.__dict__)
    return g.SortedKwArgs


def many_names(H):
    r, out = H.ctx.rng, set()
    n = r.choice([0, 1, 2, 5, 8, 9, 10, 17, 33, 60])
    while len(out) < n:
        out.add(r.choice("abXYz_") + "".join(
            r.choice("aAbBzZ_019") for _ in range(r.randrange(5))))
    out = sorted(out) + r.sample(["self", "cls", "kargs", "portal"],
                                 r.randrange(5))
    r.shuffle(out)
    return out


@harness("C05")
def any_number_of_arguments(H):
    """Any number of arguments with any names: sorting, packing, unpacking
    do to every argument x what they should, whatever the others are."""
    H.pth
    p = common.portal(H, "p")
    A = H.pth.ValueAddr
    v = H.val("v")
    packed_already = H.flag("x is an address")
    q = common.portal(H, "q") if H.flag("of another portal") else p
    if H.sym:
        from pyvc.ordered import Ordered, Theory, given_names
        x, has = H.text("x"), given_names()

        def any_value(k):
            w = H.val("other_value")
            return A(w, portal=q) if H.flag("other is an address") else w
        Theory(H, x, has, None, any_value)
        K = ghost_kw(H)
    given_x = A(v, portal=q) if packed_already else v
    if H.sym:
        given = Ordered.full("given", given_x)
        H.assume(has(x))
        make = lambda d: K(vc__kw=d._vc_kw())
        order = lambda d: d.order == "sorted" and d.state == "full"
        at = lambda d: d.entry
        kind = lambda d: isinstance(d, K)
    else:
        K = Kw(H)
        names = many_names(H) + ["x"]
        H.ctx.rng.shuffle(names)
        given = {n: H.ctx.rng.choice([i, A(i, portal=q), "s%d" % i])
                 for i, n in enumerate(names)}
        x = names[H.ctx.rng.randrange(len(names))]
        given[x] = given_x
        make = lambda d: K(**d)
        order = lambda d: list(d) == sorted(names)
        at = lambda d: d[x]
        kind = lambda d: isinstance(d, K)
    d = make(given)
    H.cover("sorted")
    H.check("sorted", order(d))
    H.check("content_kept", at(d) is given_x)
    packed = d.pack(p)
    H.check("packed_is_sorted", order(packed) and kind(packed))
    H.check("stored", isinstance(at(packed), A)
            and at(packed) in p.value_store)
    H.check("replaced_by_address", bool(at(packed) == A(v, portal=p)))
    H.check("original_unchanged", order(d) and at(d) is given_x)
    again = packed.pack(p)
    H.check("packing_twice", order(again) and bool(at(again) == at(packed)))
    un = packed.unpack()
    H.check("unpacked_is_sorted", order(un) and kind(un))
    H.check("value_restored", H.same(at(un), v))
    H.check("packed_unchanged", isinstance(at(packed), A) and order(packed))
    twice = un.unpack()
    H.check("unpacking_twice", order(twice) and H.same(at(twice), v))
    mixed = d.unpack()
    H.check("mixed_unpacked", order(mixed) and H.same(at(mixed), v))


@harness("C05")
def calls_with_any_number_of_arguments(H):
    """Two calls with any number of arguments that agree in what an arbitrary
    name x stands for have the same address, in any order, packed or not;
    they have different ones if they do not agree."""
    b = common.Bodies(H)
    p = common.portal(H, "p")
    given_as = H.choose(3, "value, address, address of another portal")
    q = common.portal(H, "q") if given_as == 2 else p
    A = H.pth.ValueAddr
    src = b.src("f", ["**kw"]).replace("dict()", "kw")
    f = H.pth.pure(portal=p)(src)
    v = user_value(H, "v")
    another = given_as < 2 and H.flag("another call")
    w = user_value(H, "w") if another else v
    given_x = A(v, portal=q) if given_as else v
    core = H.mod("_070_pure_functions.pure_core_classes")
    if H.sym:
        from pyvc.ordered import Ordered, Theory, given_names
        x, has = H.text("x"), given_names()

        def any_value(k):
            u = user_value(H, "other_value")
            return A(u, portal=q) if given_as else u
        Theory(H, x, has, None, any_value)
        real, K = core.SortedKwArgs, ghost_kw(H)
        for m in H.world.modules.values():
            for n, o in list(vars(m).items()):
                if o is real:
                    setattr(m, n, K)
        H.assume(has(x))
        canon = f.get_address(vc__kw=Ordered.full("sorted", w))
        given = Ordered.full("given", given_x)
        kw = dict(vc__kw=given)
        at = lambda d: d.entry
        order = lambda d: d.order == "sorted" and d.state == "full"
    else:
        names = many_names(H) + ["x"]
        H.ctx.rng.shuffle(names)
        plain = {n: H.ctx.rng.choice([i, "s%d" % i])
                 for i, n in enumerate(names)}
        x = names[H.ctx.rng.randrange(len(names))]
        canon = f.get_address(**{n: w if n == x else plain[n]
                                 for n in sorted(names)})
        given = {n: A(o, portal=q) if H.ctx.rng.random() < 0.5 else o
                 for n, o in plain.items()}
        given[x] = given_x
        kw = given
        at = lambda d: d[x]
        order = lambda d: list(d) == sorted(names)
    how = 0 if another else H.choose(3 if H.sym else 4, "built by")
    if how == 0:
        a = f.get_address(**kw)
    elif how == 1:
        a = core.PureFnExecutionResultAddr(f, given)
    elif how == 2:
        a = f.swarm(**kw)
    else:
        a = f.swarm_list([given])[0]
    H.cover("built")
    H.check("equal", bool(a == canon) == bool(H.same(v, w)))
    un = a.kwargs
    H.check("argument_names", order(un))
    H.check("argument_value", H.same(at(un), v))
    H.check("given_unchanged", at(given) is given_x)


@harness("C05", bound="at most 3 arguments of any content")
def unretrievable(H):
    """An address whose value is nowhere is never handed out as a value."""
    H.pth
    A = H.pth.ValueAddr
    v, w = H.val("v"), H.val("w")
    lost = A(v, portal=common.portal(H, "elsewhere"))
    H.pth.BasicPortal._clear_all()
    p, q = (common.portal(H, n) for n in "pq")
    addr = A.from_strings(prefix=lost.prefix, portal=p,
                          hash_signature=lost.hash_signature,
                          assert_readiness=False)
    H.assume(~H.same(v, w) if H.sym else not H.same(v, w))
    d = Kw(H)(**{n: addr if n == "mid" else w for n in
                 NAMES[:H.choose(3, "arguments")] + ["mid"]})
    un, e = H.attempt(d.unpack)
    H.cover("unpacked")
    H.check("refused", isinstance(e, Exception))
    A(v, portal=q)
    H.check("available_again", H.same(d.unpack()["mid"], v))
