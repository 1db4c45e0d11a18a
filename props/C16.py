"""C16: execution requests are pending exactly until the result exists."""
from pyvc import sym
from pyvc.api import harness
from pyvc.loops import NumLoop
from . import common

KEPT = ("value_store", "execution_results")


class Calls:
    """f declared in two portals; calls of p0's f with some arguments."""

    def __init__(self, H):
        self.H = H
        self.ps = [common.portal(H, n) for n in ("p0", "p1")]
        self.b = common.Bodies(H)
        src = common.Bodies.src("f", ["a"])
        self.f, self.g = (H.pth.pure(portal=p)(src) for p in self.ps)
        self.fail = False
        self.value = {}
        self.b.do["f"] = self.body

    def body(self, kw):
        if self.fail:
            raise common.Boom("body")
        return "result"

    def pending(self, i=0):
        return list(self.ps[i].execution_requests.keys())

    def is_pending(self, a, i=0):
        n = sum(bool(k == a.str_chain) for k in (
            x.str_chain for x in self.pending(i)))
        self.H.check("requested_once", n <= 1)
        return n == 1


def available(S, a, i):
    with S.ps[i]:
        return a in S.ps[i].execution_results


@harness("C16", bound="3 requests and executions of 2 calls in 2 portals "
                      "(8 in concrete runs)")
def pending_requests(H):
    """Any sequence of requests and executions."""
    S = Calls(H)
    x, y = ("x", ("y",)) if H.sym else (H.val("x"), H.val("y"))
    if not H.sym and H.same(x, y):
        return
    args = (x, y)
    want = [False, False]
    have = [False, False]
    n = 3 if H.small else 8
    addr = [S.f.get_address(a=v) for v in args]
    if not H.small and H.flag("entered"):
        S.ps[H.choose(2, "entered")].__enter__()
    for s in range(n):
        k = H.choose(2, "call") if s == n - 1 or not H.small else 0
        S.fail = False
        op = H.choose(4 if H.small else 9, "operation")
        before = S.b.count("f")
        a = addr[k] if op != 6 and (s < n - 1 and H.small or H.flag(
            "same address")) \
            else S.f.get_address(a=args[k])
        if op in (0, 4, 5, 6):
            if op == 0:
                a.request_execution()
            elif op == 4:
                a = S.f.swarm(a=args[k])
            elif op == 5:
                a = S.f.swarm_list([dict(a=args[k])])[0]
            else:
                with S.ps[H.choose(2, "inside")]:
                    a = S.f.swarm(a=args[k])
            want[k] = not have[k]
            H.check("requesting_runs_nothing", S.b.count("f") == before)
        elif op in (1, 2, 7):
            S.fail = op == 2
            r, err = H.attempt(a.execute if op < 7 else S.f, **(
                {} if op < 7 else dict(a=args[k])))
            if S.fail and not have[k]:
                H.check("fails", err is not None)
                want[k] = True
            else:
                H.check("works", err is None, repr(err))
                have[k] = True
                want[k] = False
        elif op == 3:
            S.g(a=args[k])
            H.check("only_own_portal", not S.is_pending(addr[k], 1))
            have[k] = True
            if want[k] and not H.sym:
                want[k] = None
        elif op == 8:
            # a failing call in the other portal
            S.fail = True
            r, err = H.attempt(S.g, a=args[k])
            if available(S, addr[k], 1):
                H.check("reused", err is None)
            continue
        H.cover("operation")
        for j in (0, 1):
            if want[j] is not None and not (op == 3 and j == k):
                H.check("pending_as_expected",
                        S.is_pending(addr[j]) == want[j],
                        f"{s} {op} {k} {j} {want} {have}")
                H.check("execution_requested", bool(
                    addr[j].execution_requested) == want[j])


@harness("C16")
def asked_inside_another_portal(H):
    """Whatever portal is entered: an address is ready if and only if some
    portal holds the result, waiting returns it, and requesting it leaves a
    pending request only if none does."""
    S = Calls(H)
    x, v = H.val("x"), H.val("v")
    S.b.do["f"] = lambda kw: v
    where = H.choose(3, "available")
    if where:
        (S.f, S.g)[where - 1](a=x)
    a = S.f.get_address(a=x)
    n = S.b.count("f")
    with S.ps[H.choose(2, "inside")]:
        how = H.choose(3, "how")
        if how == 0:
            r, err = H.ends("waiting_ends", H.attempt, a.get, timeout=0)
            H.check("there_or_timeout", H.same(r, v) if where
                    else isinstance(err, TimeoutError), repr(err))
        elif how == 1:
            H.check("ready_iff_available", a.ready is (where != 0))
        else:
            a.request_execution()
        H.cover("asked")
        p = S.is_pending(a)
        H.check("pending", p == (where == 0 and how != 1))
    H.check("runs_nothing", S.b.count("f") == n)


@harness("C16")
def request_of_any_call(H):
    """Requesting, executing and failing for any argument and result."""
    S = Calls(H)
    x, v, y = H.val("x"), H.val("v"), H.val("y")
    H.assume(~sym.same(x, y)) if H.sym else None
    if not H.sym and H.same(x, y):
        return
    S.b.do["f"] = lambda kw: v
    other = S.f.get_address(a=y)
    if H.flag("other requested"):
        other.request_execution()
    others = S.is_pending(other)
    a = S.f.get_address(a=x)
    where = H.choose(3, "available")
    if where:
        (S.f, S.g)[where - 1](a=x)
    a.request_execution()
    H.cover("requested")
    H.check("pending_iff_not_available", S.is_pending(a) == (where == 0))
    H.check("runs_nothing", S.b.count("f") == (1 if where else 0))
    boom = common.Boom("b")

    def fails(kw):
        raise boom
    b = S.f.get_address(a=x)
    if H.flag("fails first"):
        S.b.do["f"] = fails
        r, err = H.attempt(b.execute)
        if where == 0:
            H.check("failed", err is boom)
        H.check("still_pending", S.is_pending(a) == (where == 0))
        S.b.do["f"] = lambda kw: v
    r = b.execute()
    H.check("none_after_execution", not S.is_pending(a))
    H.check("result", H.same(r, v))
    n = S.b.count("f")
    c = (a, b, S.f.get_address(a=x))[H.choose(3, "waiting")]
    r = c.get(timeout=H.choose(2, "timeout"))
    H.check("result_by_waiting", H.same(r, v) and S.b.count("f") == n)
    H.check("others_kept", S.is_pending(other) == others)


@harness("C16", bound="lists of at most 2 calls (5 in concrete runs)")
def lists_of_calls(H):
    """Requesting or running a list or a grid of calls is requesting or
    running each of them, whatever their order; the addresses are listed in
    the order of the calls."""
    S = Calls(H)
    some = ["x", ("y",), 3] if H.sym else [H.val("x"), 2, (3,)]
    S.b.do["f"] = lambda kw: (kw["a"], "result")
    grid = H.flag("grid")
    n = H.choose(3 if H.small else 6, "number")
    ks = list(range(min(n, 3))) if grid else [
        H.choose(2 if H.small else 3, "call") for _ in range(n)]
    if not H.sym and any(H.same(some[0], x) for x in some[1:]):
        return

    def shuffle(xs):
        n = len(xs) if H.small else H.choose(len(xs) + 1, "shuffled")
        xs[:] = xs[n:][::-1] + xs[:n]
    H.hooks["shuffle"] = shuffle
    have = set()
    if H.flag("one available"):
        (S.f, S.g)[0 if H.small else H.choose(2, "where")](a=some[0])
        have = {0}
    bad = None
    if H.flag("one fails"):
        bad = 1 if H.small else H.choose(2, "failing")

        def body(kw):
            if H.same(kw["a"], some[bad]):
                raise common.Boom("body")
            return kw["a"], "result"
        S.b.do["f"] = body
    runs = S.b.count("f")
    kws = [dict(a=some[k]) for k in ks]
    act = H.choose(2, "run")
    g = dict(a=[some[k] for k in ks])
    got, err = H.attempt((lambda: S.f.swarm_grid(g), lambda: S.f.run_grid(g))[
        act] if grid else (S.f.swarm_list, S.f.run_list)[act],
        *([] if grid else [kws]))
    H.cover("asked")
    new = S.b.count("f") - runs
    fails = act == 1 and bad in ks and bad not in have
    H.check("fails_iff_a_body_fails", isinstance(err, common.Boom) if fails
            else err is None, repr(err))
    if act == 0:
        H.check("requesting_runs_nothing", new == 0)
    elif not fails:
        H.check("each_run_once", new == len(set(ks) - have))
    if err is None:
        H.check("addresses_in_order", len(got) == len(ks) and all(
            bool(a == S.f.get_address(a=some[k]))
            for a, k in zip(got, ks)))
    for k in set(range(3)):
        a = S.f.get_address(a=some[k])
        done = bool(a.ready)
        if k in ks and not fails:
            H.check("available", done == (act == 1 or k in have))
        if k not in ks or k == bad:
            H.check("nothing_else_run", done == (k in have))
        H.check("pending", S.is_pending(a) == (k in ks and not done))
        if done:
            H.check("the_result", H.same(a.get(timeout=0),
                                         (some[k], "result")))


class Waiting:
    """Another process may make the result available during any sleep."""

    def __init__(self, H):
        self.H = H
        self.S = S = Calls(H)
        self.v = ("the", ["result"]) if H.sym else H.val("v")
        self.done = H.choose(3, "appears in")      # never, p0, p1
        S.b.do["f"] = lambda kw: self.v
        self.files = []
        fs = H.env.fs
        if self.done:
            i = self.done - 1
            before = list(fs.live)
            f = (S.f, S.g)[i]
            f(a=1)
            for e in list(fs.live):
                if not any(e is x for x in before):
                    fs.live.remove(e)
                    if e.parts[0] == f"p{i}" and e.parts[1] in KEPT:
                        self.files.append(e)
        self.runs = S.b.count("f")
        self.addr = S.f.get_address(a=1)
        self.appeared = False
        self.after_stop = False
        self.start = H.real("now", 1, 10 ** 10)
        H.env.clock = self.start
        self.stop = None
        H.hooks["sleep"] = self.sleep

    def appear(self):
        self.appeared = True
        self.H.env.fs.live.extend(
            e for e in self.files
            if self.H.env.fs.find(e.parts, e.ftype) is None)

    def maybe(self, label):
        if self.done and not self.appeared and self.H.flag(label):
            self.appear()

    def sleep(self, d):
        H = self.H
        H.check("sleeps_some_time", d >= 0)
        H.env.clock = H.env.clock + d
        self.maybe("appears")

    def get(self, timeout):
        if self.stop is None:
            return self.H.attempt(self.addr.get, timeout)
        return self.H.ends("waiting_ends", self.H.attempt, self.addr.get,
                           timeout)

    def finish(self, r, err):
        H, S = self.H, self.S
        H.cover("returned")
        H.check("nothing_run", S.b.count("f") == self.runs)
        if err is None:
            H.check("available", self.appeared)
            H.check("the_result", H.same(r, self.v))
            return
        H.check("timeout_error", isinstance(err, TimeoutError), repr(err))
        H.check("only_with_a_timeout", self.stop is not None)
        H.check("not_available", not self.appeared)
        slack = 0 if H.sym else 1e-3
        H.check("not_before_the_timeout", H.env.clock >= self.stop - slack)
        H.check("soon_after_the_timeout",
                H.env.clock <= self.stop + 1 + slack)
        H.check("request_left", S.is_pending(self.addr))


@harness("C16", random=False)
def waiting(H):
    """get(timeout) for any timeout, any number of rounds, any backoff and any
    moment at which the result appears."""
    W = Waiting(H)
    timeout = H.real("timeout", 0) if H.flag("timeout") else None
    if timeout is not None:
        W.stop = W.start + timeout
    W.maybe("at once")
    if H.flag("request pending"):
        W.addr.request_execution()
    env = H.env

    def facts(nums):
        out = {"clock>=start": env.clock >= W.start}
        ready = hasattr(W.addr, "_ready")
        if W.stop is not None:
            out["clock<=stop"] = ready or env.clock <= W.stop
        for n, x in nums.items():
            out[n + ">=1"] = x >= 1
            out[n + ">0"] = x > 0
            out[n + "==clock"] = H.eq(x, env.clock)
            out[n + "<=clock"] = x <= env.clock
            if W.stop is not None:
                b = (x <= 1) | (x + env.clock <= W.stop)
                out[n + "fits"] = b if not ready else True
                out[n + "==stop"] = H.eq(x, W.stop)
        return out

    def world():
        env.clock = H.real("clock")
        W.head = env.clock
        W.maybe("before")
        if W.appeared and H.flag("noticed"):
            W.addr.ready

    def after():
        H.check("loop_request_pending", W.appeared or W.S.is_pending(W.addr))
        H.check("loop_nothing_run", W.S.b.count("f") == W.runs)
        H.check("loop_progress", env.clock > W.head)
    if H.sym:
        H.world.hooks["while"] = lambda qual, names, loc: NumLoop(
            H, qual, names, loc, facts, world, after) \
            if qual.endswith("PureFnExecutionResultAddr.get") else None
    r, err = W.get(timeout)
    W.finish(r, err)


@harness("C16", bound="at most 4 rounds of waiting (any in concrete runs)")
def waiting_unrolled(H):
    """The same, round by round."""
    W = Waiting(H)
    if H.sym:
        timeout = H.real("timeout", 0, 6)
    else:
        timeout = H.real("timeout", 0, H.choose(4, "scale") * 20 + 1)
        if not W.done:
            pass
        elif H.flag("no timeout"):
            timeout = None
    if timeout is not None:
        W.stop = W.start + timeout
    if H.flag("request pending"):
        W.addr.request_execution()
    W.maybe("at once")
    if timeout is None:
        n = [0]
        late = W.maybe

        def maybe(label):
            n[0] += 1
            if n[0] > 6 and not W.appeared:
                W.appear()
            else:
                late(label)
        W.maybe = maybe
    r, err = W.get(timeout)
    W.finish(r, err)
