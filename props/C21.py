"""C21: pickling never carries portals or cached data."""
import copy
import pickle
from pyvc import ghost
from pyvc.api import harness
from . import common

PORTALS = ("BasicPortal", "LoggingPortal", "DataPortal",
           "OrdinaryCodePortal", "SafeCodePortal", "AutonomousCodePortal",
           "PureCodePortal", "SwarmingPortal")


def leaves(f):
    """Every part of a pickled form."""
    if isinstance(f, tuple) and len(f) == 2 and f[0] in ("sym", "pkl"):
        yield from leaves(f[1])
    elif isinstance(f, ghost.Frozen):
        if f.kind == "dict":
            for k, v in f.a:
                yield from leaves(k)
                yield from leaves(v)
        elif f.kind == "seq":
            for v in f.a:
                yield from leaves(v)
        elif f.kind == "ref":
            yield f.a
        else:
            yield f.cls
            if f.a and f.a[0] == "d":
                for k, v in f.a[1]:
                    yield from leaves(k)
                    yield from leaves(v)
            elif f.a and f.a[0] == "s":
                yield f.a[1]
            if f.b is not None:
                yield from leaves(f.b)
    else:
        yield f


def same_form(H, a, b):
    """Two pickled forms are the same, part by part and in order."""
    if not H.sym:
        return a == b
    xs, ys = list(leaves(a)), list(leaves(b))
    if len(xs) != len(ys):
        return False
    cs = []
    for x, y in zip(xs, ys):
        if x is y:
            continue
        if isinstance(x, type) or isinstance(y, type):
            return False
        cs.append(H.same(x, y))
    return H.all(*cs) if cs else True


def contains(H, form, marks):
    """Does the pickled form contain one of these values or a portal?"""
    if not H.sym:
        return any(m in form[1] for m in marks)
    for x in leaves(form):
        if any(x is m for m in marks):
            return True
        if isinstance(x, type) and any(
                c.__name__ == "BasicPortal" for c in x.__mro__):
            return True
    return False


def refuses(H, x, what):
    r, e = H.attempt(ghost.freeze, x)
    H.check("refused", e is not None and isinstance(e, Exception), what)
    r, e = H.attempt(ghost.freeze, [1, {"k": x}])
    H.check("refused_inside_others", e is not None, what)
    r, e = H.attempt(x.__setstate__, {})
    H.check("restoring_is_refused", e is not None, what)


@harness("C21")
def refusal_in_any_state(H):
    """Nothing about the object is known: any use of its state stops."""
    which = H.choose(3, "kind")
    if which == 0:
        cls = getattr(H.pth, PORTALS[H.choose(len(PORTALS), "class")])
    elif which == 1:
        cls = H.get("_800_persidict_extensions.overlapping_multi_dict",
                    "OverlappingMultiDict")
    else:
        cls = getattr(H.pth, ("OrdinaryFn", "SafeFn")[H.choose(2, "class")])
    x = object.__new__(cls)
    H.cover("asked")
    for f in (lambda: x.__getstate__(), lambda: x.__setstate__({})):
        r, e = H.attempt(f)
        if isinstance(e, AttributeError):
            H.undecided("depends on the state of the object")
        H.check("refused", e is not None, (cls.__name__, r))


@harness("C21", bound="portals of every class, fresh, entered and used; "
         "their multi-type dictionaries; functions before and after a call")
def refusal(H):
    B = common.Bodies(H)
    which = H.choose(2, "kind")
    if which == 0:
        n = PORTALS[H.choose(len(PORTALS), "class")]
        kw = {"n_background_workers": 0} if n == "SwarmingPortal" else {}
        p = getattr(H.pth, n)(**kw) if n == "BasicPortal" else \
            common.portal(H, "r", n, **kw)
        use = H.choose(3, "state")
        if use == 1:
            p.__enter__()
        elif use == 2 and hasattr(p, "value_store"):
            H.pth.ValueAddr(5, portal=p)
        H.cover("portal")
        refuses(H, p, n)
        for k, v in list(p.__dict__.items()):
            if type(v).__name__ == "OverlappingMultiDict":
                refuses(H, v, k)
        return
    p = common.portal(H, "r")
    kind = ("ordinary", "safe")[H.choose(2, "function")]
    f = getattr(H.pth, kind)(portal=p)(B.src("f", ("x",)))
    if H.flag("used"):
        with p:
            f(x=1)
    H.cover("function")
    refuses(H, f, kind)


def havoc(H, x, caches):
    """Any of the caches may hold anything."""
    marks = []
    for n in sorted(caches):
        if H.flag("cache " + n):
            v = H.val("cached " + n) if H.sym else "MARK" + n
            x.__dict__[n] = v
            marks.append(v if H.sym else v.encode())
    return marks


def cached_names(H, p):
    """The attributes that use of addresses and signatures adds."""
    key = "C21caches"
    got = getattr(H.ctx.ex, key, None) if H.sym else None
    if got is None:
        B = common.Bodies(H)
        f = H.pth.pure(portal=p)(B.src("f", ("x",)))
        out = {}
        with p:
            v = H.pth.ValueAddr([1], portal=p)
            w = type(v).from_strings(prefix=v.prefix,
                                     hash_signature=v.hash_signature,
                                     portal=p)
            names = set(w.__dict__)
            w.ready, w.get()
            out["value"] = (set(v.__dict__) | set(w.__dict__)) - names
            a = H.pth.PureFnExecutionResultAddr(f, dict(x=1))
            b = type(a).from_strings(
                prefix=a.prefix, hash_signature=a.hash_signature, portal=p,
                assert_readiness=False)
            names = set(b.__dict__)
            b.function, b.arguments, b.ready
            b.execute()
            b.get()
            out["result"] = (set(a.__dict__) | set(b.__dict__)) - names
        got = out
        if H.sym:
            setattr(H.ctx.ex, key, got)
    return got


@harness("C21")
def addresses_in_any_state(H):
    """An address of any prefix and hash, bound to any of the portals, with
    anything in its caches."""
    p, q = common.portal(H, "p"), common.portal(H, "q")
    kind = ("value", "result")[H.choose(2, "kind")]
    cls = H.pth.ValueAddr if kind == "value" else \
        H.pth.PureFnExecutionResultAddr
    caches = cached_names(H, p)[kind]
    prefix, hs = H.safe_text("prefix"), H.safe_text("hash")

    def fresh(portal):
        with portal:
            return cls.from_strings(prefix=prefix, hash_signature=hs,
                                    portal=portal, assert_readiness=False)
    form = ghost.freeze(fresh(p))
    x = fresh((p, q)[H.choose(2, "portal")])
    marks = havoc(H, x, caches)
    got = ghost.freeze(x)
    H.cover("pickled")
    H.check("same_form_in_every_state", same_form(H, form, got))
    H.check("no_portal_and_no_cache", not contains(H, got, marks))
    new = (p, q)[H.choose(2, "current portal")]
    with (p, q)[H.choose(2, "outer portal")]:
        with new:
            y = ghost.thaw(got)
    H.check("same_class", type(y) is cls)
    H.check("same_identity", H.all(
        H.same(y.prefix, prefix), H.same(y.hash_signature, hs),
        len(list(y.str_chain)) == len(list(x.str_chain))))
    H.check("current_portal", y.portal is new)
    H.check("nothing_cached", not (set(y.__dict__) & set(caches)))
    with x.portal:
        z = copy.copy(x)
    H.check("copy_has_the_same_identity", H.all(
        H.same(z.prefix, prefix), H.same(z.hash_signature, hs)))
    H.check("copy_keeps_the_portal", z.portal is x.portal)
    H.check("copy_has_nothing_cached",
            not (set(z.__dict__) & set(caches)))


@harness("C21")
def signatures(H):
    """The signature of a call: any function and arguments addresses with
    anything in their caches."""
    p, q = common.portal(H, "p"), common.portal(H, "q")
    cls = H.get("_070_pure_functions.pure_core_classes",
                "PureFnCallSignature")
    caches = cached_names(H, p)["value"]
    texts = [H.safe_text(n) for n in
             ("fn hash", "args hash", "name", "island")]

    def an_address(i, portal):
        with portal:
            return H.pth.ValueAddr.from_strings(
                prefix="abc", hash_signature=texts[i], portal=portal,
                assert_readiness=False)

    def signature(portal, spoil):
        s = cls.__new__(cls)
        f, a = an_address(0, portal), an_address(1, portal)
        marks = havoc(H, f, caches) + havoc(H, a, caches) if spoil else []
        with portal:
            s.__setstate__(dict(fn_name=texts[2], fn_addr=f,
                                island_name=texts[3], args_addr=a))
        return s, marks
    form = ghost.freeze(signature(p, False)[0])
    s, marks = signature((p, q)[H.choose(2, "portal")], True)
    got = ghost.freeze(s)
    H.cover("pickled")
    H.check("same_form_in_every_state", same_form(H, form, got))
    H.check("no_portal_and_no_cache", not contains(H, got, marks))
    new = (p, q)[H.choose(2, "current portal")]
    with new:
        y = ghost.thaw(got)
    H.check("current_portal", y.portal is new and y.fn_addr.portal is new
            and y.args_addr.portal is new)
    H.check("same_parts", H.all(
        H.same(y.fn_name, texts[2]), H.same(y.island_name, texts[3]),
        H.same(y.fn_addr.hash_signature, texts[0]),
        H.same(y.args_addr.hash_signature, texts[1])))
    H.check("nothing_cached", not (
        (set(y.fn_addr.__dict__) | set(y.args_addr.__dict__))
        & set(caches)))


SRC = {
    "plain": "def f(x):\n    return g(x=x) + 1\n",
    "g": "def g(x):\n    return x * 2\n",
    "alone": "def f(x):\n    return x * 2 + 1\n",
}


def declare(H, kind, p, guard=False):
    """f in a new portal state, as a fresh declaration."""
    if kind == "strict":
        return H.pth.strictly_autonomous(portal=p)(SRC["alone"])
    if kind == "autonomous":
        H.pth.autonomous(portal=p)(SRC["g"])
        return H.pth.autonomous(portal=p)(SRC["plain"])
    if guard:
        H.pth.strictly_autonomous(portal=p)(
            "def ok(x):\n    return x < 100\n")
    H.pth.pure(portal=p)(SRC["g"])
    kw = {"guards": ["ok"]} if guard else {}
    return H.pth.pure(portal=p, **kw)(SRC["plain"])


@harness("C21", bound="one function with one dependency and one guard, up "
         "to 2 uses before it is pickled (the second one an execution), 2 "
         "portals")
def functions(H):
    """Autonomous and pure functions in all states of use."""
    kind = ("strict", "autonomous", "pure", "pure")[k := H.choose(4, "kind")]
    p = common.portal(H, "p")
    f = declare(H, kind, p, k == 3)
    form = None
    if H.flag("pickled before as well"):
        form = ghost.freeze(f)
    secret = 7654321
    for i in range(2):
        what = H.choose(6 if i == 0 else 2, "use")
        if what == 0:
            break
        with p:
            if what == 1:
                H.check("result", f.execute(x=secret) == secret * 2 + 1)
            elif what == 2 and kind == "pure":
                a = f.get_address(x=secret)
                a.request_execution()
            elif what == 3:
                H.attempt(f.execute, x="text")
            elif what == 4 and kind == "pure":
                H.pth.ValueAddr(f)
                f.run_list([dict(x=3)])
            elif what == 5:
                declare(H, kind, p, k == 3)
    got = ghost.freeze(f)
    H.cover("pickled")
    if form is not None:
        H.check("same_form_in_every_state", same_form(H, form, got))
    else:
        with common.portal(H, "other") as o:
            H.check("same_form_as_elsewhere", same_form(
                H, ghost.freeze(declare(H, kind, o, k == 3)), got))
    if H.sym:
        H.check("no_portal_and_no_cache", not contains(H, got, []) and all(
            isinstance(x, (str, type, bool, type(None))) or type(x) is int
            and x != secret for x in leaves(got)))
    else:
        H.check("no_portal_and_no_cache", not contains(
            H, got, [b"7654321", pickle.dumps(secret)[-6:-1]]))
    q = common.portal(H, "q") if H.flag("in another portal") else p
    if kind == "autonomous" and q is not p:
        H.pth.autonomous(portal=q)(SRC["g"])
    with q:
        r = ghost.thaw(got)
        H.check("current_portal", r.portal is q)
        H.check("same_function", type(r) is type(f)
                and r.fn_name == f.fn_name
                and r.fn_source_code == f.fn_source_code
                and r.island_name == f.island_name
                and r.strictly_autonomous == f.strictly_autonomous
                and r.decorator == f.decorator)
        H.check("same_address", str(H.pth.ValueAddr(r).hash_signature)
                == str(H.pth.ValueAddr(f).hash_signature))
        H.check("works", r.execute(x=20) == 41)
    H.check("same_form_once_restored", same_form(H, got, ghost.freeze(r)))


@harness("C21", bound="one pure function, up to 2 uses of the address, 2 "
         "portals")
def addresses_of_real_calls(H):
    """Addresses of values and results restored in another portal work
    there."""
    B = common.Bodies(H)
    p, q = common.portal(H, "p"), common.portal(H, "q")
    f = H.pth.pure(portal=p)(B.src("f", ("x",)))
    B.do["f"] = lambda kw: kw["x"] + 1
    secret = 7654321
    is_value = H.flag("value")
    with p:
        a = H.pth.ValueAddr(secret) if is_value else f.get_address(x=secret)
    form = ghost.freeze(a)
    ran = False
    for i in range(2):
        what = H.choose(4, "use")
        if what == 0:
            break
        with (p, q)[H.choose(2, "used in")]:
            if what == 1 and not is_value:
                a.execute()
                ran = True
            elif what == 2 and not is_value:
                a.request_execution()
            elif what == 3:
                a.ready
                if is_value or ran:
                    H.check("value", a.get() == (
                        secret if is_value else secret + 1))
    got = ghost.freeze(a)
    H.cover("pickled")
    H.check("same_form_in_every_state", same_form(H, form, got))
    H.check("no_value", not contains(
        H, got, [secret] if H.sym else [b"7654321",
                                        pickle.dumps(secret)[-6:-1]]))
    with (p, q)[H.choose(2, "outer")]:
        with q:
            b = ghost.thaw(got)
            H.check("current_portal", b.portal is q)
            H.check("equal", b == a)
            if not is_value and H.flag("asked what it is"):
                for x in (b, a) if H.flag("first the restored") else (a, b):
                    H.check("same_call", H.all(
                        H.eq(x.fn_name, "f"),
                        H.eq(x.island_name, f.island_name),
                        H.eq(x.fn_source_code, f.fn_source_code),
                        list(x.kwargs) == ["x"],
                        H.same(x.kwargs["x"], secret),
                        list(x.arguments.unpack()) == ["x"]))
            if is_value:
                H.check("works", b.ready and b.get() == secret)
            elif ran:
                n = B.count("f")
                H.check("works", b.ready and b.get() == secret + 1)
                H.check("not_run_again", B.count("f") == n)
            else:
                H.check("not_ready", not b.ready)
                H.check("runs", b.execute() == secret + 1)
