"""C07: portal selection and enumeration."""
from pyvc.api import harness
from . import common
from .C06 import distinct

CLASSES = ("LoggingPortal", "DataPortal", "PureCodePortal")
ALL = ("BasicPortal", "LoggingPortal", "DataPortal", "OrdinaryCodePortal",
       "SafeCodePortal", "AutonomousCodePortal", "PureCodePortal",
       "SwarmingPortal")


FN_MODULES = ("_040_ordinary_functions.ordinary_core_classes",
              "_050_safe_functions.safe_core_classes",
              "_060_autonomous_functions.autonomous_core_classes",
              "_070_pure_functions.pure_core_classes")


def make_portal(H, name, cls):
    if cls == "SwarmingPortal":
        return common.portal(H, name, cls, n_background_workers=0)
    return common.portal(H, name, cls)


def world_of_portals(H, n_max, steps):
    """Any portals, created, entered and left in any order; sometimes
    everything starts afresh."""
    mixed = not H.small and H.flag("mixed")
    cls = CLASSES[H.choose(len(CLASSES), "class")]
    ps, model = [], []
    for _ in range(steps):
        ops = ["stop", "enter"]
        if len(ps) < n_max:
            ops.append("create")
        if not H.small:
            ops += ["leave", "enter", "fresh"]
        op = ops[H.choose(len(ops), "step")]
        if op == "stop" and (H.small or H.flag("really")):
            break
        if op == "create":
            c = ALL[H.choose(len(ALL), "class")] if mixed else cls
            ps.append(make_portal(H, f"p{len(ps)}", c))
        elif op == "enter" and ps:
            p = ps[H.choose(len(ps), "enter")]
            p.__enter__()
            model.append(p)
        elif op == "leave" and model:
            model.pop().__exit__(None, None, None)
        elif op == "fresh" and H.flag("really"):
            H.pth.BasicPortal._clear_all()
            ps, model = [], []
    return [getattr(H.pth, c) for c in ALL if all(
        isinstance(p, getattr(H.pth, c)) for p in ps)], ps, model


def same_objects(a, b):
    return len(a) == len(b) and all(any(x is y for y in b) for x in a) \
        and len({id(x) for x in a}) == len(a)


@harness("C07", bound="at most 3 portals and 4 steps (5 and 12 in concrete "
                      "runs)")
def selection_and_lists(H):
    """Best portal, most recent portals, entered and noncurrent portals after
    any creations and entries."""
    H.pth
    Ks, ps, model = world_of_portals(H, *((3, 4) if H.small else (5, 14)))
    B = H.pth.BasicPortal
    H.cover("world")
    cur = model[-1] if model else None
    for K in Ks:
        H.check("most_recently_entered",
                K.get_most_recently_entered_portal() is cur)
        H.check("most_recently_added", K.get_most_recently_added_portal()
                is (ps[-1] if ps else None))
        got = K.get_entered_portals()
        want = distinct(model)
        H.check("entered_portals", len(got) == len(want) and all(
            a is b for a, b in zip(got, want)))
        H.check("noncurrent_portals", same_objects(
            K.get_noncurrent_portals(), [p for p in ps if p is not cur]))
        for p in ps:
            H.check("explicit", K.get_best_portal_to_use(p) is p)
        if ps:
            H.check("best", K.get_best_portal_to_use() is (
                cur if cur is not None else ps[-1]))
            H.check("best_none", K.get_best_portal_to_use(None) is (
                cur if cur is not None else ps[-1]))
    H.check("portals_kept", same_objects(
        list(B.all_portals.values()), ps))


class AnyRegistry:
    """The register of known portals: any number of them, `known` among them
    in this order, any other given by `other()`; `last` was added last."""

    def __init__(self, H, known, other, last):
        self.H, self.known, self.other, self.last = H, known, other, last
        self.n = H.int("number_of_portals", len(known))

    def portals(self):
        from pyvc.many import Witnessed
        return Witnessed(self.H, self.known, self.other, lambda p: [
            *self.H.env.fs.live], "known portal")

    def ids(self):
        return self.portals()._vc_comp("list", id, None, True)

    def _vc_len(self):
        return self.n

    def __getitem__(self, k):
        for p in self.known + [self.other(), self.last]:
            if id(p) == k:
                return p
        self.H.undecided("an unknown key of the register")

    def _vc_comp(self, kind, f, cond, flat):
        return self.ids()._vc_comp(kind, f, cond, flat)

    def _vc_loop(self, rt, qual, loc, names):
        return self.ids()._vc_loop(rt, qual, loc, names)

    def values(self):
        return self.portals()

    def keys(self):
        return self.ids()

    def _vc_list(self):
        return self.ids()

    def _vc_reversed(self):
        return self

    def _vc_next(self):
        if self.n == 0:
            raise StopIteration
        return id(self.last)

    def _stop(self, *a):
        self.H.undecided("the register is used in another way")
    __iter__ = __len__ = __reversed__ = __setitem__ = items = copy = \
        __bool__ = __contains__ = _stop


@harness("C07", random=False)
def among_any_number(H):
    """However many portals are known and entered, however deeply: the
    noncurrent portals are all but the current one, in their order; the
    current one is used by default, else the one added last."""
    from .C06 import any_nesting
    cls = ("PureCodePortal", "LoggingPortal")[H.choose(2, "class")]
    p1, p2, q = (common.portal(H, n, cls) for n in ("p1", "p2", "q"))
    B = H.pth.BasicPortal
    any_nesting(H, B, [p1, p2, q])
    st = B.entered_portals_stack
    last = (p2, q)[H.choose(2, "added last")]
    B.all_portals = AnyRegistry(H, [p1, p2], lambda: q, last)
    K = getattr(H.pth, (cls, "BasicPortal")[H.choose(2, "asked through")])
    what = H.choose(4, "asked")
    if what == 0:
        got = K.get_noncurrent_portals()
        if not hasattr(got, "known"):
            H.undecided("the list is made in another way")
        cur = st[-1] if bool(st._vc_len() > 0) else None
        want = [p for p in (p1, p2) if p is not cur]
        H.check("noncurrent", len(got.known) == len(want) and all(
            a is b for a, b in zip(got.known, want)))
        x = got.make()
        H.check("only_portals_that_are_not_current", x is not cur
                and x is q)
    elif what == 1:
        got = K.get_most_recently_entered_portal()
        cur = st[-1] if bool(st._vc_len() > 0) else None
        H.check("most_recently_entered", got is cur)
    elif what == 2:
        H.check("most_recently_added",
                K.get_most_recently_added_portal() is last)
    else:
        got = K.get_best_portal_to_use(None)
        cur = st[-1] if bool(st._vc_len() > 0) else None
        H.check("best", got is (last if cur is None else cur))
        for p in (p1, q):
            H.check("explicit", K.get_best_portal_to_use(p) is p)
    H.cover("answered")


@harness("C07")
def default_portal(H):
    """Only if no portal exists, the default local portal is used; it is one
    and the same object."""
    D = H.pth.DefaultLocalPortal
    K = getattr(H.pth, ALL[H.choose(len(ALL), "class")])
    existing = H.choose(3, "existing")
    p = common.portal(H, "p") if existing == 1 else None
    d = D() if existing == 2 else None
    best = K.get_best_portal_to_use()
    H.cover("chosen")
    H.check("default_used_iff_none", (type(best) is D) == (existing != 1))
    H.check("existing_used", best is p or existing != 1)
    H.check("single_object", existing == 1 or (
        D() is best and (d is None or d is best)))
    H.check("registered_once", len(H.pth.BasicPortal.all_portals) == 1)


def bound_object(H, kind, portal, copied=False):
    if kind == 0:
        return H.pth.ValueAddr(H.val("x"), portal=portal)
    if kind == 5:
        f = H.pth.pure(portal=portal)(common.Bodies.src("f", ["a"]))
        return f.get_address(a=1)
    if kind == 6:
        a = H.pth.ValueAddr(H.val("x"), portal=portal)
        return H.pth.ValueAddr.from_strings(
            prefix=a.prefix, hash_signature=a.hash_signature, portal=portal)
    if kind >= 7:                        # the classes behind the decorators
        name = ("OrdinaryFn", "SafeFn", "AutonomousFn", "PureFn")[kind - 7]
        cls = H.get(FN_MODULES[kind - 7], name)
        f = common.Bodies.src("f", ["a"])
        if copied:
            f = cls(f, portal=list(H.pth.BasicPortal.all_portals.values())[1])
        return cls(f, portal=portal)
    deco = (H.pth.ordinary, H.pth.safe, H.pth.autonomous,
            H.pth.pure)[kind - 1]
    return deco(portal=portal)(common.Bodies.src("f", ["a"]))


@harness("C07", bound="3 portals")
def objects_keep_their_portal(H):
    """An object bound to a portal keeps using it, whatever is entered."""
    b = common.Bodies(H)
    ps = [common.portal(H, f"p{i}") for i in range(3)]
    kind = H.choose(11, "kind")
    given = H.choose(4, "given")
    entered = H.choose(4, "entered")
    if entered < 3:
        ps[entered].__enter__()
    copied = kind >= 7 and H.flag("from a function object")
    o = bound_object(H, kind, ps[given] if given < 3 else None, copied)
    own = ps[given] if given < 3 else ps[entered] if entered < 3 else ps[2]
    H.cover("bound")
    H.check("bound_to_the_chosen_portal", o.portal is own)
    later = H.choose(3, "later")
    before = H.snapshot()
    with ps[later]:
        H.check("portal_kept", o.portal is own)
        if kind in (0, 6):
            H.attempt(o.get)
        elif not copied:
            inside = []
            b.do["f"] = lambda kw: inside.append(
                H.pth.BasicPortal.get_most_recently_entered_portal())
            if kind == 5:
                r, err = H.attempt(o.execute)
            else:
                r, err = H.attempt(o, a=1)
            H.check("call_works", err is None, repr(err))
            if kind not in (1, 2, 7, 8):
                H.check("runs_in_its_portal", inside == [own])
        H.check("portal_kept_after_use", o.portal is own)
    # nothing was written anywhere else
    for parts, ftype, blob in H.snapshot():
        if not any(parts is x[0] for x in before):
            H.check("only_own_storage_written", parts[0] == own.root_dict
                    .base_dir.parts[0], str(parts))
