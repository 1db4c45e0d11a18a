"""C02: a value's address is determined by its type and content."""
import copy
import os
import subprocess
import sys
from pyvc import ghost
from pyvc.api import harness
from . import common

CLASSES = ("DataPortal", "PureCodePortal")


def some_value(H, name):
    """A value of any type, or a collection of such."""
    k = H.choose(5 if H.sym else 6, "structure of " + name)
    if k == 5:
        if H.flag("object"):
            return common.Outer.Inner(H.choose(3, "content"))
        import numpy
        return numpy.arange(6.0).reshape(
            [(6,), (2, 3), (1, 2, 3), (3, 2)][H.choose(4, "shape")])
    if k == 0:
        return H.val(name, features=True)
    if k == 1:
        return (H.val(name + "0"), H.val(name + "1"))
    if k == 2:
        return [H.val(name + "0")]
    if k == 3:
        return {"a": H.val(name + "0"), "b": H.val(name + "1")}
    return {"deep": [(H.val(name + "0"), {"x": H.val(name + "1")}), None]}


def again(H, v, memo=None):
    """The same content in another object, built in another order."""
    memo = {} if memo is None else memo
    if id(v) not in memo:
        if type(v) is dict:
            memo[id(v)] = {k: again(H, v[k], memo) for k in reversed(list(v))}
        elif type(v) in (list, tuple):
            memo[id(v)] = type(v)([again(H, i, memo) for i in v])
        else:
            memo[id(v)] = v if H.sym else copy.deepcopy(v)
    return memo[id(v)]


def texts(a):
    return (a.prefix, a.hash_signature)


def length_of(H, v):
    if H.sym:
        from pyvc import rt
        return rt.b_str(rt.b_len(v))
    return str(len(v))


@harness("C02")
def texts_of_an_address(H):
    """prefix = lower-cased type name; signature = (shape or length)
    followed by a URL-safe signature of the content."""
    H.pth
    p = common.portal(H, "p", CLASSES[H.choose(2, "class")])
    sig = H.get("_820_strings_signatures_converters.hash_signatures",
                "get_hash_signature")
    if H.sym:
        sig = ghost.signature_contract
    v = some_value(H, "v")
    a = H.pth.ValueAddr(v, portal=p)
    H.cover("built")
    tn = v.__class__.__name__.lower()
    H.check("prefix", H.eq(a.prefix, tn))
    s = a.hash_signature
    e = sig(v)
    from pyvc import rt
    has = rt.b_hasattr if H.sym else hasattr
    call = rt.b_callable if H.sym else callable
    if not has(v, "shape"):
        if has(v, "__len__") and call(v.__len__):
            want = "len_" + length_of(H, v) + "_" + e
        else:
            want = e
        H.check("signature", H.eq(s, want))
    else:
        if H.sym:
            H.check("signature_of_shaped", s.endswith(e))
        else:
            H.check("signature_of_shaped", s == "shape_" + "_x_".join(
                str(n) for n in v.shape) + "_" + e, s)
    H.check("two_texts", len(a.str_chain) == 2)


class Shaped:
    """A user's array: any number of dimensions."""

    def __init__(self, dims, listed):
        self.shape = list(dims) if listed else tuple(dims)


@harness("C02", bound="at most 7 dimensions")
def texts_of_an_array(H):
    """The signature of a value with a shape begins with all its dimensions,
    in their order."""
    H.pth
    p = common.portal(H, "p", CLASSES[1])
    if H.sym:
        from pyvc import rt
        H.ctx.most_dimensions = 7
        v = H.val("v", features=True)
        H.assume(rt.b_hasattr(v, "shape"))
        shape, to_text = v._vc_getattr("shape"), rt.b_str
        e = ghost.signature_contract(v)
        safe = ghost.replace_unsafe_chars
    else:
        import persidict
        import numpy
        dims = [(1, 2, 3, 10)[H.choose(4, "dimension")]
                for _ in range(1 + H.choose(7, "dimensions"))]
        v = numpy.zeros(dims) if H.flag("numpy") else Shaped(
            [(d, -d, None, f"{d}/{d}", 0.5, "..", "\u00e9 b\n")[
                H.choose(7, "other dimension")] for d in dims]
            if H.flag("not numbers") else dims, H.flag("list"))
        shape, to_text = v.shape, str
        e = H.get("_820_strings_signatures_converters.hash_signatures",
                  "get_hash_signature")(v)
        safe = persidict.replace_unsafe_chars
    s = H.pth.ValueAddr(v, portal=p).hash_signature
    H.cover("built")
    want = None
    for n in shape:
        want = to_text(n) if want is None else want + "_x_" + to_text(n)
    if want is None:
        H.check("signature_of_empty_shape", s.endswith(e))
    else:
        H.check("all_dimensions", H.eq(s, safe(
            "shape_" + want + "_", replace_with="_") + e), s)
    if not H.sym:
        H.check("url_safe", all(c.isascii() and c.isalnum()
                                or c in "()_-~.=" for c in s), s)


@harness("C02")
def only_the_content_matters(H):
    """Same content: same texts, through any portal, whatever is entered or
    stored, however the value was built."""
    H.pth
    p, q = (common.portal(H, n, CLASSES[1]) for n in "pq")
    V = H.pth.ValueAddr
    v = some_value(H, "v")
    w = again(H, v)
    a = V(v, portal=p if H.flag("explicit") else None)
    k = H.choose(4, "in between")
    if k & 1:
        V(H.val("z"), portal=q)
    if k & 2:
        q.__enter__()
    b = V(w, portal=(p, q, None)[H.choose(3, "portal")])
    H.cover("both")
    H.check("same_prefix", H.eq(a.prefix, b.prefix))
    H.check("same_signature", H.eq(a.hash_signature, b.hash_signature))
    eq = bool(a == b)
    H.check("equal", eq)
    H.check("ne_is_not_eq", bool(a != b) != eq)


@harness("C02")
def different_content_different_address(H):
    """Values of different content have different addresses."""
    H.pth
    p = common.portal(H, "p", CLASSES[1])
    V = H.pth.ValueAddr
    v, w = some_value(H, "v"), some_value(H, "w")
    same = bool(H.same(v, w))
    a, b = V(v, portal=p), V(w, portal=p)
    H.cover("both")
    H.check("equal_iff_same_content", bool(a == b) == same)
    if same:
        H.check("same_prefix", H.eq(a.prefix, b.prefix))
        H.check("same_signature", H.eq(a.hash_signature, b.hash_signature))


def other_kinds(H, p):
    """Classes of addresses."""
    return [H.pth.ValueAddr,
            H.get("_070_pure_functions.pure_core_classes",
                  "PureFnExecutionResultAddr")]


@harness("C02")
def equality_of_addresses(H):
    """Equal exactly when of the same kind with the same two texts."""
    H.pth
    p, q = (common.portal(H, n, CLASSES[1]) for n in "pq")
    ks = other_kinds(H, p)
    ca, cb = ks[H.choose(2, "kind1")], ks[H.choose(2, "kind2")]
    x = [H.safe_text(n) for n in ("pre1", "sig1", "pre2", "sig2")]
    a = ca.from_strings(prefix=x[0], hash_signature=x[1], portal=p,
                        assert_readiness=False)
    b = cb.from_strings(prefix=x[2], hash_signature=x[3],
                        portal=q if H.flag("other_portal") else p,
                        assert_readiness=False)
    same = bool(x[0] == x[2]) and bool(x[1] == x[3])
    H.cover("compared")
    H.check("prefix_kept", H.eq(a.prefix, x[0]))
    H.check("signature_kept", H.eq(a.hash_signature, x[1]))
    H.check("equal_iff", bool(a == b) == (same and ca is cb))
    H.check("unequal_iff", bool(a != b) == (not (same and ca is cb)))
    H.check("symmetric", bool(a == b) == bool(b == a))
    H.check("reflexive", bool(a == a))
    H.check("not_its_texts", not (a == (x[0], x[1])))
    H.check("not_a_plain_tuple", bool(a != ghost.SafeStrTuple(x[0], x[1])))


@harness("C02")
def rebuilt_addresses(H):
    """Rebuilding from texts, copying, pickling, and asking for the address
    of an address give an equal address."""
    H.pth
    p, q = (common.portal(H, n, CLASSES[H.choose(2, "class")])
            for n in "pq")
    V = H.pth.ValueAddr
    v = H.val("v") if H.sym else some_value(H, "v")
    a = V(v, portal=p)
    used = H.choose(3, "used")
    if used == 1:
        a.get()
    if used == 2:
        a._invalidate_cache()
    if H.flag("entered"):
        q.__enter__()
    how = H.choose(7, "how")
    if how == 0:
        b = V.from_strings(prefix=a.prefix, hash_signature=a.hash_signature,
                           portal=q if H.flag("other") else p)
    elif how == 1:
        b = V.from_strings(prefix=a.prefix, hash_signature=a.hash_signature,
                           assert_readiness=False)
    elif how == 2:
        b = a.__copy__() if H.sym else copy.copy(a)
    elif how == 3:
        b = ghost.thaw(ghost.freeze(a))
    elif how == 4:
        b = a.get_ValueAddr()
    elif how == 5:
        b = V(a, portal=q if H.flag("other") else None)
    else:
        b = ghost.thaw(ghost.freeze([a, {"k": a}]))[1]["k"]
    H.cover("rebuilt")
    H.check("kind", type(b) is V)
    H.check("equal", bool(a == b))
    H.check("prefix", H.eq(a.prefix, b.prefix))
    H.check("signature", H.eq(a.hash_signature, b.hash_signature))
    H.check("original_unchanged", H.same(a.get(), v))
    if how not in (3, 6) or b.portal is not None:
        H.check("address_of_address_again", bool(V(b) == a))


SCRIPT = r"""
import sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
sys.dont_write_bytecode = True
from pythagoras._820_strings_signatures_converters.hash_signatures import (
    get_hash_signature)
from pythagoras._030_data_portals.hash_addresses import HashAddr
vals = [1, -1, True, None, "text", "", 2.5, b"b", (), (1, 2), [1, [2]],
        {"a": 1, "b": [2]}, {"b": [2], "a": 1}, {"x", "y", "zz"},
        {1: {"u", "v"}}, 10 ** 40, float("inf"),
        range(5), {"n": {"m": {"o", "p"}}}, complex(1, 2), int, slice(1, 2)]
class Same:
    def __init__(self, x):
        self.x = x
    def __eq__(self, other):
        return isinstance(other, Same)
    def __hash__(self):
        return 1
    def __repr__(self):
        return "Same()"
    __str__ = __repr__
# one by one, as they do not live at the same time; different from each other
near = [lambda: 1, lambda: 2 ** 64, lambda: "a", lambda: " a", lambda: "a ",
        lambda: "A", lambda: "a\n", lambda: "\u00e9", lambda: "e\u0301",
        lambda: 0.0, lambda: -0.0, lambda: 1e-320, lambda: (1,),
        lambda: (True,), lambda: (1.0,), lambda: ("1",), lambda: ((1,),),
        lambda: [1], lambda: [True], lambda: [[1]], lambda: {"a": 1},
        lambda: {"a": True}, lambda: {1: "a"}, lambda: {True: "a"},
        lambda: {"a": {"b": 1}}, lambda: {"a": {"b": 1.0}}, lambda: {1},
        lambda: {True}, lambda: Same(1), lambda: Same(2), lambda: Same("1"),
        lambda: [Same(1)], lambda: [Same(2)], lambda: (0.1 + 0.2,),
        lambda: (0.3,), lambda: b"a", lambda: b"A", lambda: bytearray(b"a")]
near += [lambda i=i: [i, "x"] for i in range(20, 60)]
near += [lambda i=i: {"k": (i,)} for i in range(20, 60)]
near += [lambda i=i: 10.0 ** i for i in range(-30, 30)]
near += [lambda i=i: "x" * 1000 + str(i) + "y" * 1000 for i in range(30)]
near += [lambda i=i: list(range(300)) + [i] for i in range(20)]
make = [lambda v=v: v for v in vals] + near
if sys.argv[3] == "frozen":
    make = [lambda: frozenset(["p", "q", "r"])]
order = list(range(len(make)))
if sys.argv[4] == "77":
    order.reverse()
out = {}
for i in order:
    v = make[i]()
    out[i] = HashAddr._build_prefix(v) + " " + HashAddr._build_hash_signature(v)
    del v
for i in sorted(out):
    print(out[i])
"""
VALUES = 22                       # the others are all different


def in_two_processes(H, what):
    from pyvc import world
    shim = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "shim")
    outs, ps = [], []
    for seed in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        ps.append(subprocess.Popen(
            [sys.executable, "-c",
             ("import numpy\n" if seed == "77" else "") + SCRIPT,
             shim, world.REPO, what, seed], env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True))
    for p in ps:
        o, e = p.communicate(timeout=60)
        if p.returncode:
            H.undecided("child: " + e[-500:])
        outs.append(o.splitlines())
    return outs


def concrete_once(H, f):
    if H.sym or H.ctx.replaying or f in DONE:
        H.check("concrete_only", True)
        H.cover("skipped")
        return False
    DONE.add(f)
    return True


DONE = set()


@harness("C02", bound="some 250 values, two processes with different hash "
                      "seeds, opposite orders, numpy loaded in one of them")
def other_processes(H):
    """Addresses do not depend on the process, or on what was addressed
    before; nearly the same values differ (concrete runs only)."""
    if not concrete_once(H, "other"):
        return
    outs = in_two_processes(H, "all")
    H.cover("compared")
    for a, b in zip(*outs):
        H.check("same_in_every_process", a == b, f"{a} / {b}")
    H.check("dict_order", outs[0][11] == outs[0][12])
    seen = {}
    for i, a in enumerate(outs[0][VALUES:]):
        H.check("nearly_the_same_values_differ", a not in seen,
                f"values {seen.get(a)} and {i}: {a}")
        seen[a] = i


@harness("C02", bound="one frozenset of three texts, two processes")
def frozensets(H):
    """The same for a frozenset (concrete runs only)."""
    if not concrete_once(H, "frozen"):
        return
    outs = in_two_processes(H, "frozen")
    H.cover("compared")
    H.check("frozenset_in_every_process", outs[0] == outs[1], outs)


@harness("C02", bound="one value with a part occurring twice")
def shared_parts(H):
    """A part that occurs twice may be one object or two equal ones
    (concrete runs only)."""
    if H.sym:
        H.check("concrete_only", True)
        H.cover("skipped")
        return
    H.pth
    p = common.portal(H, "p")
    t, u = (1, "b"), tuple([1, "b"])
    a, b = H.pth.ValueAddr([t, t], portal=p), H.pth.ValueAddr([t, u], portal=p)
    H.cover("compared")
    H.check("sharing_of_parts_does_not_matter", a == b)


class Thing:
    def __init__(self, x):
        self.x = x


ODD = [type(n, (Thing,), {"__module__": __name__}) for n in (
    "A_b", "\u00c9t\u00e9", "\u00e8t\u00e9", "\u0416", "X" * 100, "\u540d1")]
globals().update({c.__name__: c for c in ODD})


@harness("C02", bound="names of classes from a list")
def classes_of_any_name(H):
    """Objects of classes with any names have addresses like others."""
    p = common.portal(H, "p", "DataPortal")
    c, d = (ODD[H.choose(len(ODD), n)] for n in ("class", "another"))
    v = H.val("v")
    r, err = H.attempt(lambda: [H.pth.ValueAddr(x, portal=p)
                                for x in (c(v), c(v), c((v,)), d(v))])
    H.cover("made")
    H.check("made", err is None, repr(err))
    if err is not None:
        return
    H.check("same_content_same_address", bool(r[0] == r[1]))
    H.check("different_content_different_address", bool(r[0] != r[2]))
    H.check("different_class_different_address",
            bool(r[0] == r[3]) == (c is d))
    with p:
        H.check("stored", H.same(p.value_store[r[0]].x, v))
