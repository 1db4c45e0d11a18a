"""C19: guards decide whether a pure function may run."""
import itertools
from pyvc import core, sym
from pyvc.api import harness
from pyvc.many import Witnessed
from . import common

NAMES = ("g1", "g2", "g3")


def guard_src(name):
    return common.Bodies.src(name, ["a", "b"])


class Guarded:
    def __init__(self, H, n, **kw):
        self.H = H
        self.p = common.portal(H, "p", **kw)
        self.b = common.Bodies(H)
        self.log = []
        self.fails = {}
        gs = {}
        for name in NAMES[:n]:
            gs[name] = H.pth.strictly_autonomous(portal=self.p)(
                guard_src(name))
            self.b.do[name] = self.guard(name)
        order = list(itertools.permutations(NAMES[:n]))[
            H.choose(6 if n == 3 else n, "order")] if n > 1 else NAMES[:n]
        form = H.choose(3, "guards given as") if n < 3 or not H.small else 2
        guards = [gs[x] if form == 1 or form == 2 and i % 2 else x
                  for i, x in enumerate(order)]
        if n == 1 and H.flag("not in a list"):
            guards = guards[0]
        self.names = NAMES[:n]
        self.f = H.pth.pure(portal=self.p, guards=guards)(
            common.Bodies.src("f", ["a", "b"]))
        self.b.do["f"] = self.body

    def guard(self, name):
        def run(kw):
            self.log.append((name, kw))
            e = self.fails.get(name)
            if e is not None:
                raise e
        return run

    def body(self, kw):
        self.log.append(("f", kw))
        return "result"


@harness("C19", bound="at most 3 guards")
def guarded_calls(H):
    """Any guards, listed in any order as names or objects, each passing or
    failing; the call made or asked about in any way."""
    n = 1 + H.choose(3, "guards")
    G = Guarded(H, n)
    x = H.val("x")
    args = dict(a=x, b=5)
    for name in G.names:
        if H.flag(name + " fails"):
            G.fails[name] = common.Boom(name) if H.small else \
                common.some_exception(H)
    addr = G.f.get_address(**args)
    ask = H.choose(3, "asked") if n < 3 or not H.small else 2
    if ask:
        r, err = H.attempt(lambda: G.f.can_be_executed(**args) if ask == 1
                           else addr.can_be_executed)
        H.check("answers", err is None and r is (not G.fails), repr(err))
        H.check("asking_runs_no_body", all(m != "f" for m, _ in G.log))
        G.log.clear()
    how = H.choose(4, "how") if not H.small else H.choose(
        2 if n < 3 else 1, "how")
    call = (lambda: G.f(**args), addr.execute,
            lambda: G.f.run(**args).get(), lambda: G.f.execute(**args))[how]
    nest = list(H.pth.BasicPortal.entered_portals_stack)
    r, err = H.attempt(call)
    H.cover("called")
    H.check("portals_restored",
            nest == list(H.pth.BasicPortal.entered_portals_stack))
    ran = [m for m, _ in G.log]
    for m, kw in G.log:
        H.check("actual_arguments", set(kw) == {"a", "b"}
                and H.same(kw["a"], x) and kw["b"] == 5)
    with G.p:
        stored = addr in G.p.execution_results
    if G.fails:
        H.check("body_not_run", "f" not in ran)
        H.check("raises", err is not None)
        H.check("nothing_stored", not stored)
    else:
        H.check("works", err is None and r == "result", repr(err))
        H.check("body_once_and_last", ran.count("f") == 1
                and ran[-1] == "f")
        H.check("every_guard_first", set(ran[:-1]) == set(G.names))
        H.check("stored", stored)
    # the guards are asked anew for another call
    G.fails = {} if G.fails else {G.names[0]: common.Boom("now")}
    r, err = H.attempt(G.f, a=x, b=6)
    H.check("asked_for_every_call", (err is None) == (not G.fails))
    # and for the same call, if it has no result yet
    G.log.clear()
    r, err = H.attempt(addr.execute)
    H.check("retried", err is None and r == "result", repr(err))


@harness("C19", bound="2 guards")
def arguments_given_as_addresses(H):
    """The guards get the values of the arguments even if addresses are
    passed."""
    G = Guarded(H, 2)
    x = H.val("x")
    addr = H.pth.ValueAddr(x, portal=G.p)
    how = H.choose(4, "how")
    if H.flag("a guard fails"):
        G.fails["g2"] = common.Boom("g2")
    call = (lambda: G.f(a=addr, b=5),
            lambda: G.f.get_address(a=addr, b=5).execute(),
            lambda: G.f.can_be_executed(a=addr, b=5),
            lambda: G.f.get_address(a=addr, b=5).can_be_executed)[how]
    r, err = H.attempt(call)
    H.cover("called")
    H.check("guards_asked", {m for m, _ in G.log} >= set(G.names[:1]))
    for m, kw in G.log:
        H.check("values", H.same(kw["a"], x) if not hasattr(
            type(kw["a"]), "get_ValueAddr") else False, f"{how} {m} {kw}")
    if how > 1:
        H.check("answer", err is None and r is (not G.fails))
    else:
        H.check("outcome", (err is None) == (not G.fails))


@harness("C19")
def any_number_of_guards(H):
    """One guard among any number of others, each passing or failing, before
    it or after it.  What holds for this one holds for each."""
    p = common.portal(H, "p")
    b = common.Bodies(H)
    log, fails = [], {}

    def guard(name):
        def run(kw):
            log.append((name, kw))
            if name in fails:
                raise fails[name]
            return (None, True, False)[how % 3]
        return run
    how = H.choose(4, "how")
    ask = H.choose(3, "asked")
    around = [0, 1] if H.sym else [2, 2] if H.ctx.replaying else [
        H.choose(7, "before"), H.choose(7, "after")]
    names = [f"{'az'[i]}{j}" for i in range(2) for j in range(around[i])]
    for n in names + ["g"]:
        H.pth.strictly_autonomous(portal=p)(guard_src(n))
        b.do[n] = guard(n)
    f = H.pth.pure(portal=p, guards=["g"] + ([] if H.sym else names))(
        common.Bodies.src("f", ["a", "b"]))
    b.do["f"] = lambda kw: log.append(("f", kw)) or "result"
    x = H.val("x")
    args = dict(a=x, b=5)
    addr = f.get_address(**args)
    if H.flag("fails"):
        fails["g"] = common.some_exception(H)
    others = not H.sym and not H.ctx.replaying and bool(
        names) and H.flag("another fails")
    if others:
        fails[names[H.choose(len(names), "failing")]] = common.Boom("other")
    if H.sym:
        def other():
            if H.flag("this one fails"):
                fails["z0"] = common.Boom("other")
            return "z0"

        def frame(q):
            return [*(e for e in H.env.fs.live
                      if e.parts[1] == "execution_results"),
                    *H.pth.BasicPortal.entered_portals_stack,
                    len([m for m, _ in log if m != q])]
        f.guards = AnyGuards(H, ["g"], other, frame, "guard")

    def judge(call, what):
        del log[:]
        nest = list(H.pth.BasicPortal.entered_portals_stack)
        r, err = H.attempt(call)
        ran = [m for m, _ in log]
        bad = any(m in fails for m in ran)
        H.check("portals_restored",
                nest == list(H.pth.BasicPortal.entered_portals_stack))
        for m, kw in log:
            H.check("actual_arguments", set(kw) == {"a", "b"}
                    and H.same(kw["a"], x) and kw["b"] == 5)
        if what == "ask":
            H.check("asking_runs_no_body", "f" not in ran)
            H.check("answers", err is None and r is (not bad), repr(err))
            H.check("yes_only_if_all_have_passed",
                    r is False or "g" in ran and "g" not in fails)
            return
        with p:
            stored = addr in p.execution_results
        if "f" in ran:
            k = ran.index("f")
            H.check("guard_first", "g" in ran[:k])
            H.check("every_guard_first", set(names) <= {"z0"} and H.sym
                    or set(names) <= set(ran[:k]))
            H.check("none_has_failed", not bad and "g" not in fails)
            H.check("body_once_and_last", ran.count("f") == 1
                    and k == len(ran) - 1)
            H.check("works", err is None and r == "result", repr(err))
            H.check("stored", stored)
        else:
            H.check("only_for_a_failed_guard", bad, ran)
            H.check("raises", err is not None)
            H.check("nothing_stored", not stored)
    if ask:
        judge((lambda: f.can_be_executed(**args), lambda:
               addr.can_be_executed)[ask - 1], "ask")
        fails.pop("z0", None)
    judge((lambda: f(**args), addr.execute, lambda: f.run(**args).get(),
           lambda: f.execute(**args))[how], "call")
    H.cover("called")


@core.opaque
class AnyGuards(Witnessed, list):
    """The names of any number of guards."""

    def _vc_content(self):
        return sym.content(list(self.known))


KINDS = ("strictly_autonomous", "autonomous", "pure", "ordinary", "safe")


@harness("C19")
def accepted_guards(H):
    """Which objects and names are accepted as guards."""
    p, q = common.portal(H, "p"), common.portal(H, "q")
    common.Bodies(H)
    H.pth.strictly_autonomous(portal=p)(guard_src("known"))
    H.pth.strictly_autonomous(portal=p, island_name="A")(
        guard_src("elsewhere"))
    isl = (None, "A")[H.choose(2, "island of f")]
    here = ("known", "elsewhere")[isl == "A"]
    there = ("elsewhere", "known")[isl == "A"]
    what = H.choose(4, "what")
    ok = False
    if what == 0:
        kind = KINDS[H.choose(len(KINDS), "kind")]
        own = (p, q)[H.choose(2, "portal of the guard")]
        gi = (None, "A")[H.choose(2, "island of the guard")]
        if H.flag("a function of this name is known here"):
            H.pth.strictly_autonomous(portal=p, **(
                {} if isl is None else dict(island_name=isl)))(
                    guard_src("guard"))
            if own is p and gi == isl:
                kind = "strictly_autonomous"
        kw = {} if kind in ("ordinary", "safe") else dict(island_name=gi)
        g = getattr(H.pth, kind)(portal=own, **kw)(guard_src("guard"))
        ok = kind == "strictly_autonomous" and own is p and (
            gi == isl)
    elif what == 1:
        g, ok = here, True
    elif what == 2:
        g = there
    else:
        g = ("unknown", 5, print, b"known", "")[H.choose(5, "other")]
    form = H.choose(3, "form")
    guards = (g, [g], [here, g])[form]
    kw = {} if isl is None else dict(island_name=isl)
    f, err = H.attempt(lambda: H.pth.pure(portal=p, guards=guards, **kw)(
        common.Bodies.src("f", ["a", "b"])))
    H.cover("declared")
    H.check("accepted_iff_allowed", (err is None) == ok, repr(err))
    if ok:
        want = {g if isinstance(g, str) else g.fn_name} | (
            {here} if form == 2 else set())
        H.check("guards", set(f.guards) == want)
    r, err = H.attempt(lambda: H.pth.pure(portal=p, **kw)(
        common.Bodies.src("h", ["a", "b"])))
    H.check("others_can_still_be_declared", err is None)


@harness("C19", bound="2 guards")
def runs_for_a_check(H):
    """A call that is run again to check its stored result is guarded, too."""
    G = Guarded(H, 2, p_consistency_checks=1)
    x = H.val("x")
    addr = G.f.get_address(a=x, b=5)
    H.check("works", G.f(a=x, b=5) == "result")
    G.log.clear()
    if H.flag("fails"):
        G.fails[NAMES[H.choose(2, "failing")]] = common.some_exception(H)
    r, err = H.attempt((lambda: G.f(a=x, b=5), addr.execute)[
        H.choose(2, "how")])
    H.cover("called")
    ran = [m for m, _ in G.log]
    if "f" in ran:
        H.check("guards_first", not G.fails and set(
            ran[:ran.index("f")]) == set(G.names))
    if err is None:
        H.check("same_result", r == "result")
    else:
        H.check("only_for_a_failed_guard", bool(G.fails), repr(err))
    with G.p:
        H.check("result_kept", H.same(
            G.p.execution_results[addr].get(), "result"))


@harness("C19", bound="2 guards")
def order_does_not_matter(H):
    """The listing order changes neither the answers nor the identity."""
    p, q = common.portal(H, "p"), common.portal(H, "q")
    b = common.Bodies(H)
    fs = []
    for i, s in enumerate((p, q)):
        for n in NAMES[:2]:
            H.pth.strictly_autonomous(portal=s)(guard_src(n))
        fs.append(H.pth.pure(portal=s, guards=list(
            NAMES[:2] if i == 0 else NAMES[1::-1]))(
                common.Bodies.src("f", ["a", "b"])))
    H.check("same_guards", fs[0].guards == fs[1].guards)
    x = H.val("x")
    a, c = (f.get_address(a=x, b=1) for f in fs)
    H.check("same_address", bool(a == c))
    H.check("same_decorator", fs[0].decorator == fs[1].decorator)
    fails = H.flag("fails")

    def bad(kw):
        if fails:
            raise common.Boom("g")
    b.do["g1"] = bad
    H.cover("declared")
    for d in (a, c):
        H.check("same_answer", d.can_be_executed is (not fails))
