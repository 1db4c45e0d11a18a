"""C17: when a call is offered for execution."""
from pyvc import ghost, sym
from pyvc.api import harness
from pyvc.many import Records
from . import common


def set_up(H, n=2):
    ps = [common.portal(H, f"p{i}") for i in range(n)]
    b = common.Bodies(H)
    src = common.Bodies.src("f", ["a"])
    fs = [H.pth.pure(portal=p)(src) for p in ps]
    return ps, b, fs


def due(H, n, latest, now):
    """The policy."""
    if H.sym and not isinstance(n, int):
        pause = sym.SInt(sym.z3.IntVal(10)) * (2 ** n)
    else:
        pause = 10 * 2 ** n
    return (n == 0) | ((n <= 5) & (now - latest > pause))


def abstract_attempts(H):
    r = Records(H, "attempts")
    r.wrap = ghost.SafeStrTuple

    def attempts(d):
        parts = d.base_dir.parts
        return parts[-1] == "attempts" and parts[0] == "p0" and \
            d.file_type == "json"
    H.hooks["enumerate"] = lambda d: r if attempts(d) else None
    H.hooks["timestamp"] = lambda d, k: r.time(ghost.SafeStrTuple(k)[-1]) \
        if attempts(d) else None
    return r


class Few:
    """The same in storage, for concrete runs."""

    def __init__(self, H, a):
        self.n = H.int("number_of_attempts", 0, 7)
        self.latest = H.real("latest_of_attempts", 0, 400)
        old = H.real("oldest_of_attempts", -100, 0)
        for i in range(min(self.n, 2000)):
            H.env.clock = self.latest if i == self.n // 2 else min(
                old, self.latest)
            a.execution_attempts[f"run{i}_a"] = {"hostname": "h"}


@harness("C17")
def any_number_of_attempts(H):
    """Any number of attempt records with any times, any current time."""
    ps, b, fs = set_up(H)
    a = fs[0].get_address(a=1)
    if H.sym:
        r = abstract_attempts(H)
    else:
        r = Few(H, a)
    now = H.real("now", None if H.sym else 0, None if H.sym else 800)
    H.env.clock = now
    got = a.needs_execution
    H.cover("answered")
    want = due(H, r.n, r.latest, now)
    H.check("policy", sym.SBool(sym.bterm(got) == sym.bterm(want))
            if H.sym else bool(got) == bool(want))


@harness("C17", bound="at most 8 attempts")
def attempts_one_by_one(H):
    """Attempt records with arbitrary times, in storage; a result available
    nowhere, in the own portal or in another one."""
    ps, b, fs = set_up(H)
    a = fs[0].get_address(a=1)
    where = H.choose(3, "available")
    if where:
        fs[where - 1](a=1)
        for e in list(H.env.fs.live):
            if "attempts" in e.parts:
                H.env.fs.live.remove(e)
    n = H.choose(9 if not where else 2, "attempts")
    base = 0 if H.sym else 1.7e9
    now = H.real("now", base, base + 10 ** 4)
    H.env.clock = now
    times = []
    for i in range(n):
        H.env.clock = t = now - H.real("age", -5, 400)
        times.append(t)
        a.execution_attempts[f"run{i}_a"] = {"hostname": "h"}
    # attempts of another call and of this call elsewhere do not count
    if H.flag("other attempts"):
        H.env.clock = now
        c = fs[0].get_address(a=2)
        c.execution_attempts["run9_a"] = {}
        c = fs[1].get_address(a=1)
        c.execution_attempts["run9_a"] = {}
    H.env.clock = now
    if n == 0:
        want = sym.SBool(True) if H.sym else True
    else:
        latest = times[0]
        for t in times[1:]:
            if H.sym:
                latest = sym.SReal(sym.z3.If(sym.bterm(t > latest), t.t,
                                             latest.t))
            else:
                latest = max(latest, t)
        want = due(H, n, latest, now)
    if where:
        want = sym.SBool(False) if H.sym else False
    got = a.needs_execution
    H.cover("answered")
    H.check("policy", sym.SBool(sym.bterm(got) == sym.bterm(want))
            if H.sym else bool(got) == bool(want))


@harness("C17", bound="7 real attempts, failing")
def real_attempts(H):
    """Attempts made by really running the function."""
    ps, b, fs = set_up(H, 1)
    a = fs[0].get_address(a=1)

    def fails(kw):
        raise common.Boom("no")
    b.do["f"] = fails
    now = H.real("now", 10 ** 6, 10 ** 9)
    H.env.clock = now
    H.check("offered_first", bool(a.needs_execution))
    for n in range(1, 8):
        _, err = H.attempt(a.execute)
        H.check("fails", err is not None)
        H.check("attempts_recorded", b.count("f") == n)
        last = H.env.clock
        dt = H.real("dt", 0, 500)
        H.env.clock = last + dt
        H.check("policy", bool(a.needs_execution) == (
            n <= 5 and bool((last + dt) - last > 10 * 2 ** n)))
    H.cover("seven")
    b.do["f"] = lambda kw: 7
    a.execute()
    H.check("not_offered_when_done", not a.needs_execution)
    H.check("not_offered_anew", fs[0].get_address(
        a=1).needs_execution == False)
