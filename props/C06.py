"""C06: portal contexts nest like a stack and never swallow exceptions."""
from pyvc.api import harness
from . import common

CLASSES = ("BasicPortal", "LoggingPortal", "DataPortal", "SwarmingPortal")


class LazyList:
    """A list of unknown length; elements appear when they are looked at."""

    def __init__(self, H, name, element):
        self.H, self.name, self.element = H, name, element
        self.base = H.int("len_" + name, 0)
        self.items = []
        self.seen = []        # elements taken from the unknown part, top first

    def _take(self):
        if self.base <= 0:
            raise IndexError("list index out of range")
        self.base = self.base - 1
        x = self.element()
        self.seen.append(x)
        self.items.insert(0, x)

    def _vc_len(self):
        return self.base + len(self.items)

    def __len__(self):
        self.H.undecided("native len")

    def __bool__(self):
        return bool(self.items) or bool(self.base > 0)

    def __getitem__(self, i):
        if not isinstance(i, int) or i >= 0:
            self.H.undecided("index from the bottom")
        while len(self.items) < -i:
            self._take()
        return self.items[i]

    def __setitem__(self, i, v):
        self[i]
        self.items[i] = v

    def append(self, x):
        self.items.append(x)

    def pop(self, i=-1):
        x = self[i]
        del self.items[i]
        return x

    def __delitem__(self, i):
        self.pop(i)

    def __iter__(self):
        self.H.undecided("iteration over an unbounded list")
    __reversed__ = index = copy = __iter__

    def _vc_contains(self, x):
        self.H.undecided("search in an unbounded list")

    def state(self):
        return self.base, list(self.items)


def any_nesting(H, B, ps):
    """Puts the real class into a state with any number of entered portals:
    the innermost one is any of ps or another portal, entered any number of
    times in a row."""
    if not (isinstance(getattr(B, "entered_portals_stack", None), list)
            and isinstance(getattr(B, "entered_portals_counters_stack", None),
                           list)):
        H.undecided("the nesting is represented in another way")

    def an_entered_portal():
        k = H.choose(len(ps), "innermost")
        return ps[k]

    def a_count():
        return H.int("entered_times", 1)
    st = LazyList(H, "portals", an_entered_portal)
    ct = LazyList(H, "counters", a_count)
    H.assume(st.base == ct.base)
    B.entered_portals_stack, B.entered_portals_counters_stack = st, ct
    return st, ct


def unchanged(H, B, name, before, stack):
    """The list holds what it held before, whatever was looked at."""
    if not any(stack is x for x in (B.entered_portals_stack,
                                    B.entered_portals_counters_stack)):
        H.undecided("the lists are replaced")
    n0, x0 = before
    H.check(name + "_length", stack.base + len(stack.items) == n0 + len(x0))
    want = list(reversed(stack.seen)) + x0 if len(
        stack.seen) + len(x0) == len(stack.items) else None
    H.check(name + "_known_part", want is not None)
    for a, b in zip(want, stack.items):
        H.check(name + "_elements", a is b or (not hasattr(
            a, "root_dict") and a == b))


@harness("C06", random=False)
def block_in_any_nesting(H):
    """From any nesting of any depth: entering a portal and leaving it again,
    normally or by an exception, restores the nesting; the current portal is
    the entered one in between.  With the block's own inner blocks covered by
    induction this holds for any nesting of blocks.  What leaving a block
    logs is replaced by the contract that it does not touch the nesting (see
    `histories`, which checks it)."""
    cls = CLASSES[H.choose(4, "class")]
    kw = dict(n_background_workers=0) if cls == "SwarmingPortal" else {}
    p, q = (common.portal(H, n, cls, **kw) for n in ("p", "q"))
    B = H.pth.BasicPortal
    H.get("_020_logging_portals.logging_portals", "LoggingPortal"
          )._exception_logger = staticmethod(lambda *a, **k: None)
    H.ctx.ex.assumed.add("LoggingPortal._exception_logger: frame only")
    st, ct = any_nesting(H, B, [p, q])
    before = st.state(), ct.state()
    r = p.__enter__()
    H.check("enter_returns_the_portal", r is p)
    H.check("current_inside", B.get_most_recently_entered_portal() is p)
    e = common.some_exception(H) if H.flag("raises") else None
    if e is None:
        out = p.__exit__(None, None, None)
    else:
        out = p.__exit__(type(e), e, None)
    H.cover("left")
    H.check("not_swallowed", not out)
    unchanged(H, B, "portals", before[0], st)
    unchanged(H, B, "counters", before[1], ct)


@harness("C06", random=False)
def foreign_exit_in_any_nesting(H):
    """From any nesting: leaving a portal that is not the current one is
    refused and changes nothing."""
    cls = CLASSES[H.choose(4, "class")]
    kw = dict(n_background_workers=0) if cls == "SwarmingPortal" else {}
    p, q = (common.portal(H, n, cls, **kw) for n in ("p", "q"))
    B = H.pth.BasicPortal
    st, ct = any_nesting(H, B, [p, q])
    if st.base > 0:
        H.assume(st[-1] is q)
    before = st.state(), ct.state()
    st.seen.clear()
    _, err = H.attempt(p.__exit__, None, None, None)
    H.cover("refused")
    H.check("refused", err is not None)
    unchanged(H, B, "portals", before[0], st)
    unchanged(H, B, "counters", before[1], ct)


def distinct(model):
    out = []
    for p in reversed(model):
        if not any(p is x for x in out):
            out.append(p)
    return out


def agrees(H, B, model, where):
    cur = B.get_most_recently_entered_portal()
    H.check("current_" + where, cur is (model[-1] if model else None))
    got = B.get_entered_portals()
    want = distinct(model)
    H.check("entered_" + where, len(got) == len(want)
            and all(a is b for a, b in zip(got, want)))


def unwind(H, B, model, where="end"):
    """The whole nesting, observed by leaving it portal by portal."""
    model = list(model)
    while model:
        agrees(H, B, model, where)
        model.pop().__exit__(None, None, None)
    agrees(H, B, model, where)


@harness("C06", bound="histories of at most 4 operations on 2 portals "
                      "(12 on 4 in concrete runs)")
def histories(H):
    """Any history of entering, leaving and leaving all."""
    k = 2 if H.small else 4
    cls = CLASSES[1 + H.choose(3, "class") if not H.small else 1]
    kw = dict(n_background_workers=0) if cls == "SwarmingPortal" else {}
    ps = [common.portal(H, f"p{i}", cls, **kw) for i in range(k)]
    B = H.pth.BasicPortal
    model = []
    for _ in range(4 if H.small else 12):
        op = H.choose(2 * k + 2, "op")
        if op == 2 * k:
            break
        if op < k:
            ps[op].__enter__()
            model.append(ps[op])
        elif op == 2 * k + 1:
            B.__exit_all__()
            model = []
        else:
            p = ps[op - k]
            e = common.Boom("x") if H.flag("raising") else None
            out, err = H.attempt(p.__exit__, type(e) if e else None, e, None)
            if model and model[-1] is p:
                H.check("leaving_accepted", err is None, repr(err))
                H.check("not_swallowed", not out)
                model.pop()
            else:
                H.check("foreign_leaving_refused", err is not None)
        agrees(H, B, model, "step")
    H.cover("history")
    unwind(H, B, model)


@harness("C06", bound="3 nested blocks over 2 portals, one storage failure")
def blocks(H):
    """Nested `with` blocks whose bodies end in any way: the exception that
    comes out is the one raised, and the nesting is restored - the latter
    also when the storage fails while the block is left."""
    cls = CLASSES[1 + H.choose(3, "class")]
    kw = dict(n_background_workers=0) if cls == "SwarmingPortal" else {}
    ps = [common.portal(H, f"p{i}", cls, **kw) for i in range(2)]
    B = H.pth.BasicPortal
    failed = common.faults(H) if H.flag("failing_storage") else []
    model = []

    def run(depth):
        e = None
        if depth and H.flag("nested"):
            p = ps[H.choose(2, "portal")]
            model.append(p)
            try:
                with p:
                    agrees(H, B, model, "inside")
                    run(depth - 1)
            except BaseException as x:
                from pyvc.core import EngineSignal
                if isinstance(x, EngineSignal):
                    raise
                e = x
            model.pop()
            agrees(H, B, model, "after")
            if e is not None:
                if not failed:
                    H.check("same_exception", any(e is r for r in raised), e)
                if not failed:
                    H.check("propagates", len(raised) == 1 and
                            e is raised[0])
                raise e
            elif not failed:
                H.check("not_swallowed", not raised)
        elif H.flag("raise"):
            e = common.some_exception(H)
            raised.append(e)
            raise e
    raised = []
    _, err = H.attempt(run, 3)
    H.cover("done")
    agrees(H, B, [], "end")
    if not failed and not H.hooks.get("storage"):
        H.check("outcome", err is (raised[0] if raised else None))


@harness("C06", random=False)
def leaving_all_in_any_nesting(H):
    """Exiting all portals, whatever is entered, leaves none entered: every
    step of the loop leaves the nesting shorter or its top counter smaller,
    and the loop ends only when nothing is entered."""
    p, q = common.portal(H, "p", "LoggingPortal"), common.portal(
        H, "q", "LoggingPortal")
    B = H.pth.BasicPortal
    st, ct = any_nesting(H, B, [p, q])

    class Inv:
        def entry(self, loc):
            self.m = None

        def havoc(self, name, v):
            return v

        def assume(self, loc):
            # an arbitrary iteration
            st.items.clear()
            ct.items.clear()
            st.base = H.int("portals_left", 0)
            ct.base = H.int("counters_left", 0)
            H.assume(st.base == ct.base)
            self.n = st.base

        def back_edge(self, loc):
            a, b = st.base + len(st.items), ct.base + len(ct.items)
            H.check("lists_stay_together", a == b)
            shorter = a < self.n
            if not shorter:
                H.check("same_length", a == self.n)
                H.check("smaller_counter", ct[-1] == ct.seen[-1] - 1)
                H.check("counter_stays_positive", ct[-1] >= 1)
    used = []

    def whil(qual, names, loc):
        if "exit_all" in qual:
            used.append(1)
            H.ctx.approximate("loop invariant")
            return Inv()
    H.world.hooks["while"] = whil
    _, err = H.attempt(B.__exit_all__)
    H.cover("left")
    H.check("no_exception", err is None, repr(err))
    st = B.entered_portals_stack
    H.check("none_entered", (st.base + len(st.items) == 0)
            if isinstance(st, LazyList) else len(st) == 0)
    if not used:
        H.undecided("no loop to cut")
