"""C15: pure-function results are computed once and reused everywhere."""
from pyvc import sym
from pyvc.api import harness
from . import common


class Sum:
    """Two portals with the same function f(a); what its body does and what
    the random generators give is up to the harness."""

    def __init__(self, H, n=2, p="any", around=False):
        self.H = H
        self.p = None
        kw = {}
        if p == "any" and H.flag("checks configured"):
            self.p = H.real("p", 0, 1)
            kw = dict(p_consistency_checks=self.p)
        elif p != "any":
            self.p = p
            kw = dict(p_consistency_checks=p)
        if around and not H.sym:
            common.bystanders(H, "x", "PureCodePortal")
        self.ps = [common.portal(H, f"p{i}", **(kw if i == 0 else {}))
                   for i in range(n)]
        if around and not H.sym:
            common.bystanders(H, "y", "PureCodePortal")
        self.b = common.Bodies(H)
        self.src = common.Bodies.src("f", ["a"])
        self.drawn = []
        self.forced = self.shared = None
        H.hooks["draw"] = self.draw
        self.fs = [H.pth.pure(portal=q)(self.src) for q in self.ps]

    def any_number(self):
        """From now on any number of portals is known: an arbitrary other
        one, and portals like the third one, which holds no result."""
        if not self.H.sym:
            return
        own, other, rest = self.ps

        def frame(q):
            return [e for e in self.H.env.fs.live
                    if e.parts[1] != "crash_history"] + list(
                        self.H.pth.BasicPortal.entered_portals_stack)
        common.many_known(self.H, own, [other], lambda: rest, frame)

    def draw(self, lo, hi, what):
        """A generator's draw: any number in its range, or a forced one."""
        if self.forced is not None:
            return self.forced
        if self.H.sym and what == "module":
            # the dictionaries' own checks (C04) do not depend on each other
            if self.shared is None:
                self.shared = self.H.real("shared_draw", 0, 1, strict_hi=True)
                self.drawn.append(self.shared)
            return self.shared
        x = self.H.real("draw", lo, hi, strict_hi=True)
        self.drawn.append(x)
        return x

    def runs(self):
        return self.b.count("f")

    def stored(self, i):
        """The result files of a portal and what they refer to."""
        q = self.ps[i]
        return [(k, a) for k, a in q.execution_results.items()]

    def result(self, i, addr):
        """The stored result of the call in portal i: (value,) or ()."""
        q = self.ps[i]
        with q:
            if addr not in q.execution_results:
                return ()
            return (q.value_store[q.execution_results[addr]],)

    def check_p(self):
        H = self.H
        q = self.ps[0]
        H.check("probability_kept", H.same(
            q.get_params().get("p_consistency_checks"),
            self.params["p_consistency_checks"]))
        H.check("probability_of_the_results_kept", self.same_p(
            getattr(q.execution_results, "_p_consistency_checks", 0)))

    def same_p(self, x):
        """None and 0 mean the same."""
        a, b = (0 if y is None else y for y in (x, self.p))
        return self.H.eq(a, b)

    def remember(self):
        self.params = self.ps[0].get_params()


def call(H, f, x, how=None):
    how = H.choose(4, "how") if how is None else how
    if how == 0:
        return f(a=x)
    if how == 1:
        return f.execute(a=x)
    if how == 2:
        return f.run(a=x).get()
    return f.get_address(a=x).execute()


@harness("C15")
def call_not_made_before(H):
    """However many portals are known, whatever the body does, whatever the
    check probability and the draws: a call whose result no portal holds."""
    a_call(H, 0)


@harness("C15")
def call_made_here_before(H):
    """The same, if the portal itself, and maybe another one, holds the
    result."""
    a_call(H, 1 + 2 * H.choose(2, "another"))


@harness("C15")
def call_made_elsewhere_before(H):
    """The same, if another portal holds the result."""
    a_call(H, 2)


def a_call(H, held):
    S = Sum(H, 3, around=True)
    f, g = S.fs[:2]
    x, v, w = H.val("x"), H.val("v"), H.val("w")
    S.remember()
    S.forced = 1
    S.b.do["f"] = lambda kw: v
    if held & 1:
        f(a=x)
    if held & 2:
        g(a=x)
    S.forced = None
    there = S.runs()
    H.check("set_up", there == (0, 1, 1, 1)[held])
    fails = H.flag("body fails")
    err0 = common.Boom("from the body")

    def body(kw):
        H.check("argument", set(kw) == {"a"} and H.same(kw["a"], x))
        if fails:
            raise err0
        return w
    S.b.do["f"] = body
    if held == 2 and S.p is None and H.flag("arguments known elsewhere"):
        S.fs[2].get_address(a=x)
    addr = f.get_address(a=x)
    before = S.result(1, addr)
    S.drawn = []
    if not H.small and H.flag("another portal is entered"):
        S.ps[1 + H.choose(2, "entered")].__enter__()
    S.any_number()
    r, err = H.attempt(call, H, f, x, 3 * H.choose(2, "how")
                       if fails or not held else None)
    n = S.runs() - there
    H.cover("called")
    S.check_p()
    now = S.result(0, addr)
    H.check("body_at_most_once", n <= 1)
    other = S.result(1, addr)
    H.check("other_portal_kept", len(other) == len(before) and (
        not other or H.same(other[0], before[0])))
    H.check("no_result_elsewhere", S.result(2, addr) == ())
    if not held:
        H.check("body_ran", n == 1)
        if fails:
            H.check("failed", err is err0, repr(err))
            H.check("nothing_stored", now == ())
        else:
            H.check("worked", err is None, repr(err))
            H.check("returned", H.same(r, w))
            H.check("stored", len(now) == 1 and H.same(now[0], w))
        return
    # held somewhere
    H.check("stored_result_kept", len(now) == 1 and H.same(now[0], v))
    if n == 0:
        H.check("reused", err is None and H.same(r, v), repr(err))
    else:
        H.check("only_if_a_check_is_drawn", S.p is not None
                and H.eq(S.p > 0, True))
        some = False
        for d in S.drawn:
            some = some | (d < S.p)
        H.check("drawn_below_p", some)
        if fails:
            H.check("failure_of_the_check", err is err0, repr(err))
        else:
            H.check("difference_detected", sym.SBool(sym.bterm(
                H.same(w, v)) == sym.bterm(err is None)) if H.sym
                else bool(H.same(w, v)) == (err is None), repr(err))
            if err is None:
                H.check("same_result", H.same(r, w))


@harness("C15", bound="2 portals")
def certain_checks(H):
    """With probability 1 every reuse is a check; with 0 or None none is."""
    k = H.choose(3, "p")
    S = Sum(H, p=(None, 0, 1)[k])
    f, g = S.fs
    x, v, w = H.val("x"), H.val("v"), H.val("w")
    S.remember()
    S.b.do["f"] = lambda kw: v
    (f, g)[H.choose(2, "held by")](a=x)
    S.b.do["f"] = lambda kw: w
    r, err = H.attempt(call, H, f, x, 3 * H.choose(2, "how"))
    H.cover("called")
    H.check("checked_iff_certain", S.runs() == (2 if k == 2 else 1))
    if k == 2:
        H.check("difference_detected", bool(H.same(v, w)) == (err is None))
    else:
        H.check("reused", err is None and H.same(r, v))
    S.check_p()


@harness("C15", bound="3 portals, 3 calls (8 in concrete runs)")
def histories(H):
    """Calls of one function with two arguments in any order in any portals;
    bodies that fail now and then."""
    n = 3
    S = Sum(H, n, p=None)
    S.remember()
    args, value = [(1, "a"), [2]], [{"r": 1}, None]
    if not H.sym:
        args, value = ([H.val(n) for n in ab] for ab in ("xy", "vw"))
        if H.same(*args):
            return
    known = [[], []]          # portals that hold the result
    fail = [False]

    def body(kw):
        if fail[0]:
            raise common.Boom("body")
        return value[0 if bool(H.same(kw["a"], args[0])) else 1]
    S.b.do["f"] = body
    k = 0
    for step in range(3 if H.small else 8):
        i = H.choose(min(n, step + 1) if H.small else n, "portal")
        k = H.choose(2, "argument") if step else 0
        fail[0] = H.flag("fails")
        before = S.runs()
        r, err = H.attempt(call, H, S.fs[i], args[k], 0 if H.small else None)
        ran = S.runs() - before
        if known[k]:
            H.check("reused", ran == 0 and err is None and H.same(
                r, value[k]), repr(err))
            known[k].append(i)
        else:
            H.check("ran_once", ran == 1)
            H.check("fails_with_the_body", (err is not None) == fail[0])
            if err is None:
                H.check("returned", H.same(r, value[k]))
                known[k].append(i)
    H.cover("history")
    for i in range(n):
        for j in range(2):
            a = S.fs[i].get_address(a=args[j])
            got = S.result(i, a)
            H.check("held_where_it_was_used", len(got) == (
                1 if i in known[j] else 0))
            if got:
                H.check("the_result", H.same(got[0], value[j]))


@harness("C15", bound="recursion to depth 6")
def recursion(H):
    """A recursive function runs once for each argument."""
    p = common.portal(H, "p")
    n = H.choose(7, "n")
    seen = []

    def note(kw):
        seen.append(kw["n"])
    b = common.Bodies(H)
    b.do["fib"] = note
    fib = H.pth.pure(portal=p)(
        "def fib(n):\n    import pyvc_body\n"
        "    pyvc_body.call('fib', dict(n=n))\n"
        "    if n < 2:\n        return n\n"
        "    return fib(n=n-1) + fib(n=n-2)\n")
    want = [0, 1, 1, 2, 3, 5, 8][n]
    for _ in range(2):
        H.check("result", fib(n=n) == want)
        H.check("each_once", sorted(seen) == (
            list(range(n + 1)) if n > 1 else [n]), seen)
    H.cover("computed")
