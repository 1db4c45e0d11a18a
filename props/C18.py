"""C18: every run of a pure function is bracketed and fully recorded."""
from pyvc.api import harness
from . import common


class Machine:
    """What a run must leave as it was."""

    def __init__(self, H):
        self.H = H
        self.s, self.log = H.world.sys, H.world.logging

    def take(self, fs=()):
        B = self.H.pth.BasicPortal
        return (self.s.stdout, self.s.stderr, list(self.log.root.handlers),
                list(B.entered_portals_stack),
                list(B.entered_portals_counters_stack),
                [list(f.call_stack) for f in fs])

    def compare(self, before, fs=(), where=""):
        H = self.H
        now = self.take(fs)
        for i, n in enumerate(("stdout", "stderr")):
            H.check("streams_restored" + where, now[i] is before[i], n)
        H.check("handlers_restored" + where, len(now[2]) == len(before[2])
                and all(a is b for a, b in zip(now[2], before[2])))
        H.check("portals_restored" + where, len(now[3]) == len(before[3])
                and all(a is b for a, b in zip(now[3], before[3]))
                and now[4] == before[4])
        H.check("call_stack_restored" + where, len(now[5]) == len(
            before[5]) and all(len(a) == len(b) and all(
                x is y for x, y in zip(a, b))
                for a, b in zip(now[5], before[5])))

    def say(self, how, text):
        if how == 0:
            self.s.stdout.write(text)
        elif how == 1:
            self.s.stderr.write(text)
        else:
            if self.H.sym:
                self.log.root.log(50, text)
            else:
                self.log.root.critical(text)
            text += "\n"
        return text


class Quiet:
    """Streams of a concrete run, so that its output goes nowhere."""

    def __init__(self):
        self.text = []

    def write(self, t):
        self.text.append(t)

    def flush(self):
        pass


def quiet(H, M):
    M.s.stdout, M.s.stderr = Quiet(), Quiet()
    if not H.sym:
        M.log.root.handlers = []
        h = M.log.StreamHandler(Quiet())
        M.log.root.addHandler(h)


def runs_of(H, a):
    """{run id: (attempts, outputs, results, crashes)} of a call, from the
    storage."""
    out = {}
    base = a.portal.root_dict.base_dir.parts + ("run_history",) + tuple(
        a.str_chain)
    for i, (kind, ftype, suffix) in enumerate((
            ("attempts", "json", "_a"), ("outputs", "txt", "_output"),
            ("results", "pkl", ""), ("crashes", "json", None))):
        for e in H.env.fs.live:
            if e.ftype != ftype or len(e.parts) != len(base) + 2 or e.parts[
                    :len(base)] != base or e.parts[-2] != kind:
                continue
            k = e.parts[-1]
            if suffix is None:
                r = next((p for p in k.split("_") if p.startswith("run")),
                         k)
            else:
                H.check("record_names", k.endswith(suffix), k)
                r = k[:len(k) - len(suffix)]
            with a.portal:
                v = H.thaw(e)
            out.setdefault(r, ([], [], [], []))[i].append(v)
    return out


def check_runs(H, a, want):
    """want: list of (said, value or None, exception or None), any order;
    said texts are unique to their runs."""
    got = runs_of(H, a)
    H.check("one_set_of_records_per_run", len(got) == len(want),
            f"{len(got)} sets, {len(want)} runs")
    recs = {r.session_id: r for r in a.execution_records}
    H.check("execution_records", set(recs) == set(got))
    for said, value, exc in want:
        mine = [r for r in got if got[r][1] and got[r][1][0].startswith(said)
                and (said or got[r][1][0] == "" or exc is not None)]
        H.check("output_holds_what_was_said", len(mine) >= 1,
                f"{said!r}: {[g[1] for g in got.values()]}")
        r = mine[0]
        at, ou, re, cr = got.pop(r)
        H.check("one_attempt", len(at) == 1)
        H.check("one_output", len(ou) == 1)
        if exc is None:
            H.check("nothing_else_in_the_output", ou[0] == said)
        H.check("result_iff_succeeded", len(re) == (1 if exc is None else 0))
        H.check("crash_iff_raised", len(cr) == (0 if exc is None else 1),
                f"{len(cr)} crashes, {exc!r}")
        if exc is None:
            with a.portal:
                H.check("the_result", H.same(re[0].get(), value[0]))
        else:
            H.check("the_exception", type(cr[0].get("exception"))
                    is type(exc))
            H.check("crash_names_the_run", cr[0].get("session_id", r) == r)
        rec = recs[r]
        H.check("record_output", rec.output == ou[0])
        H.check("record_context", isinstance(rec.attempt_context, dict))
        H.check("record_crashes", len(rec.crashes) == len(cr))
        if exc is None:
            H.check("record_result", H.same(rec.result, value[0]))
        else:
            x, err = H.attempt(lambda: rec.result)
            H.check("record_has_no_result", err is not None)


@harness("C18", random=False)
def any_successful_run(H):
    """One run in any nesting of portals, whatever it prints, logs and
    returns.  What earlier writes leave in the capturer is a text (C20), here
    an arbitrary one."""
    any_run(H, False)


@harness("C18", random=False)
def any_failing_run(H):
    """The same, whatever it raises."""
    any_run(H, True)


def any_run(H, raises):
    from .C06 import any_nesting, unchanged
    M = Machine(H)
    p, q = common.portal(H, "p"), common.portal(H, "q")
    B = H.pth.BasicPortal
    b = common.Bodies(H)
    f = H.pth.pure(portal=p)(common.Bodies.src("f", ["a"]))
    x, v = H.val("x"), H.val("v")
    exc = common.some_exception(H, note=True) if raises else None
    which = H.choose(3, "stream") if type(exc) in (
        type(None), common.Boom) else 0
    how = H.choose(4, "how") if which == 0 else 0
    a = f.get_address(a=x)
    quiet(H, M)
    before, text = H.text("said before"), H.text("text")
    inner = []

    def body(kw):
        H.check("arguments", H.same(kw["a"], x))
        M.s.stdout.write(before)
        inner.append(before + M.say(which, text))
        H.check("running", len(f.call_stack) == 1)
        if exc is not None:
            raise exc
        return v
    b.do["f"] = body
    there = H.snapshot()
    st, ct = any_nesting(H, B, [p, q])
    common.many_entered(H, p, True, lambda: q, lambda q: [
        e for e in H.env.fs.live if e.parts[1] != "crash_history"])
    nest = st.state(), ct.state()
    now = (M.s.stdout, M.s.stderr, list(M.log.root.handlers))
    r, err = H.attempt(*[(lambda: f(a=x),), (f.execute,), (a.execute,),
                         (lambda: f.run(a=x).get(),)][how], **(
                             dict(a=x) if how == 1 else {}))
    H.cover("ran")
    H.check("outcome", err is exc and (exc is not None or H.same(r, v)),
            repr(err))
    H.check("ran_once", len(inner) == 1)
    H.check("streams_restored", M.s.stdout is now[0] and M.s.stderr is now[1])
    H.check("handlers_restored", len(M.log.root.handlers) == len(
        now[2]) and all(x is y for x, y in zip(M.log.root.handlers, now[2])))
    H.check("call_stack_restored", f.call_stack == [])
    unchanged(H, B, "portals", nest[0], st)
    unchanged(H, B, "counters", nest[1], ct)
    H.check("nothing_lost", [k for k in H.snapshot()][:len(there)] == there)
    got = runs_of(H, a)
    H.check("one_set_of_records_per_run", len(got) == 1, repr(len(got)))
    (run, (at, ou, re, cr)), = got.items()
    H.check("one_attempt", len(at) == 1)
    H.check("one_output", len(ou) == 1)
    if exc is None:
        H.check("output_holds_what_was_said", H.same(ou[0], inner[0]))
        H.check("the_result", len(re) == 1 and H.same(p.value_store[re[0]],
                                                      v))
        H.check("no_crash", cr == [])
    else:
        H.check("output_holds_what_was_said", ou[0].startswith(inner[0]))
        H.check("no_result", re == [])
        H.check("one_crash", len(cr) == 1, repr(len(cr)))
        H.check("crash_names_the_run", cr[0].get("session_id") == run)


@harness("C18", bound="at most 3 outputs")
def one_run(H):
    """One run, whatever it prints, logs, returns or raises."""
    M = Machine(H)
    p, q = common.portal(H, "p"), common.portal(H, "q")
    b = common.Bodies(H)
    f = H.pth.pure(portal=p)(common.Bodies.src("f", ["a"]))
    x, v = H.val("x"), H.val("v")
    f.get_address(a=x)
    exc = common.some_exception(H, note=True) if H.flag("raises") else None
    said = [""]
    quiet(H, M)
    if H.flag("in another portal"):
        q.__enter__()

    def body(kw):
        for i in range(2 if H.small else 3):
            k = H.choose(4, "output")
            if k == 3:
                break
            said[0] += M.say(k, f"<{i} é\n")
        H.check("running", len(f.call_stack) == 1)
        if exc is not None:
            raise exc
        return v
    b.do["f"] = body
    before = M.take([f])
    r, err = H.attempt(f, a=x)
    H.cover("ran")
    M.compare(before, [f])
    H.check("outcome", err is exc and (exc is not None or H.same(r, v)),
            repr(err))
    a = f.get_address(a=x)
    check_runs(H, a, [(said[0], (v,), exc)])


@harness("C18", bound="14 outcomes, one or two runs each, long outputs")
def every_outcome(H):
    """Runs that end in all sorts of ways; the identifiers of the runs are
    nearly the same."""
    M = Machine(H)
    p = common.portal(H, "p")
    b = common.Bodies(H)
    common.nearly_the_same_signatures(H)
    f = H.pth.pure(portal=p)(common.Bodies.src("f", ["a"]))
    quiet(H, M)
    from .C08 import Alike, Quiet as Untrue
    ends = [None, 0, False, "", [], common.Boom("b"), KeyboardInterrupt(),
            SystemExit(3), GeneratorExit(), StopIteration(1), Untrue(),
            Alike("a"), MemoryError(), ExceptionGroup("g", [ValueError()])]
    now = {}

    def body(kw):
        now["said"] = ""
        for k in range(3):
            now["said"] += M.say(k, f"<{kw['a']} {now['n']} {k} {'é' * 70001}>")
        e = ends[kw["a"]]
        if isinstance(e, BaseException):
            now["raised"] = type(e)(*e.args)
            raise now["raised"]
        return e
    b.do["f"] = body
    before = M.take([f])
    wants = []
    for n, e in enumerate(ends):
        fails, want = isinstance(e, BaseException), []
        for k in range(2 if fails else 1):
            now["n"] = k
            r, err = H.attempt(f, a=n)
            H.check("outcome", err is now["raised"] if fails
                    else err is None and H.same(r, e), repr(err))
            want.append((now["said"], (e,), err))
        M.compare(before, [f])
        wants.append((n, want))
    H.cover("ran")
    for n, want in wants:
        check_runs(H, f.get_address(a=n), want)


@harness("C18", bound="4 runs of 2 calls (6 in concrete runs)")
def histories(H):
    """Runs of the same call and of others, failing or not, directly and from
    inside other runs: no records are mixed up."""
    M = Machine(H)
    p = common.portal(H, "p")
    b = common.Bodies(H)
    f = H.pth.pure(portal=p)(common.Bodies.src("f", ["a"]))
    g = H.pth.pure(portal=p)(common.Bodies.src("g", ["a"], uses=[
        "import pyvc_body", "pyvc_body.call('before', dict(a=a))", "f(a=a)"]))
    quiet(H, M)
    want = {}
    count = [0]
    told = []                 # texts collected by the running runs

    def tell(t):
        for x in told:
            x.append(t)

    def token():
        count[0] += 1
        t = M.say(H.choose(3, "stream") if not H.small else count[0] % 3,
                  f"[{count[0]}]")
        tell(t)
    done = set()
    fails = {"f": False, "g": False}

    def body(name):
        def run(kw):
            token()
            if fails[name]:
                raise common.Boom(name)
            return name
        return run
    b.do["f"], b.do["g"] = body("f"), body("g")
    b.do["before"] = lambda kw: token()

    def run_f(x, out):
        """What a call of f does, according to the property."""
        if ("f", x) in done:
            return
        t = []
        out.append(("f", x, t))
        return t
    for _ in range(3 if H.small else 6):
        which, x = H.choose(2, "function"), H.choose(
            1 if H.small else 2, "argument")
        fails["f"], fails["g"] = H.flag("f fails"), \
            which == 1 and H.flag("g fails")
        name = "fg"[which]
        before = M.take([f, g])
        sessions = {}

        class Spy:
            pass
        # every run gets its own list of the texts said while it runs
        stack = []

        def enter(n):
            stack.append([])
            told.append(stack[-1])
        texts = {}
        if (name, x) not in done:
            enter(name)
            texts[name] = stack[-1]
        if name == "g" and ("g", x) not in done and ("f", x) not in done:
            texts["f"] = []
            orig = b.do["f"]

            def inner(kw):
                told.append(texts["f"])
                try:
                    return orig(kw)
                finally:
                    told.remove(texts["f"])
            b.do["f"] = inner
        r, err = H.attempt((f, g)[which], a=x)
        b.do["f"] = body("f")
        told.clear()
        M.compare(before, [f, g])
        if name not in texts:
            H.check("reused", err is None and r == name)
            continue
        f_runs = "f" in texts
        f_failed = f_runs and fails["f"]
        H.check("outcome", (err is not None) == (
            f_failed or name == "g" and fails["g"]), repr(err))
        if f_runs:
            want.setdefault(("f", x), []).append(
                ("".join(texts["f"]), ("f",), common.Boom("f")
                 if f_failed else None))
            if not f_failed:
                done.add(("f", x))
        if name == "g":
            raised = f_failed or fails["g"]
            want.setdefault(("g", x), []).append(
                ("".join(texts["g"]), ("g",),
                 "old" if f_failed else common.Boom("g") if raised
                 else None))
            if not raised:
                done.add(("g", x))
    H.cover("history")
    for (n, x), runs in want.items():
        a = (f if n == "f" else g).get_address(a=x)
        check_history(H, a, runs)


def check_history(H, a, runs):
    old = [r for r in runs if r[2] == "old"]
    if not old:
        check_runs(H, a, runs)
        return
    # an exception which an inner run raised and recorded
    got = runs_of(H, a)
    H.check("one_set_of_records_per_run", len(got) == len(runs))
    for said, value, exc in runs:
        mine = [g for g in got.values() if g[1]
                and g[1][0].startswith(said)]
        H.check("output_holds_what_was_said", len(mine) == 1)
        H.check("one_attempt_and_output",
                len(mine[0][0]) == 1 and len(mine[0][1]) == 1)
        H.check("result_iff_succeeded",
                len(mine[0][2]) == (1 if exc is None else 0))
        if exc != "old":
            H.check("crash_iff_raised",
                    len(mine[0][3]) == (0 if exc is None else 1))


@harness("C18", bound="recursion to depth 3")
def recursion(H):
    """A function that calls itself, with failures at any level, handled by
    the level above or not."""
    M = Machine(H)
    p = common.portal(H, "p")
    b = common.Bodies(H)
    f = H.pth.pure(portal=p)(
        "def f(n):\n    import pyvc_body\n    pyvc_body.call('say', dict(n=n))\n"
        "    if n > 0:\n        if pyvc_body.call('handles', dict(n=n)):\n"
        "            try:\n                f(n=n-1)\n"
        "            except Exception:\n                pass\n"
        "        else:\n            f(n=n-1)\n"
        "    pyvc_body.call('end', dict(n=n))\n    return n\n")
    quiet(H, M)
    top = 1 + H.choose(2, "depth")
    raises = [H.flag(f"{n} raises") for n in range(top + 1)]
    handles = [False] + [H.flag(f"{n} handles") for n in range(1, top + 1)]
    texts = {}
    live = []

    def say(kw):
        texts[kw["n"]] = ""
        live.append(kw["n"])
        put(f"[in {kw['n']}]")

    def put(t):
        M.say(len(t) % 3, t)
        for n in live:
            texts[n] += t + ("\n" if len(t) % 3 == 2 else "")

    def end(kw):
        n = kw["n"]
        # whatever ran inside has ended
        while live[-1] != n:
            live.pop()
        put(f"[out {n}]")
        if raises[n]:
            raise common.Boom(n)
    b.do.update(say=say, handles=lambda kw: handles[kw["n"]], end=end)
    before = M.take([f])
    r, err = H.attempt(f, n=top)
    H.cover("ran")
    M.compare(before, [f])
    # the exception that leaves each level: (level where it arose) or None
    arose = None
    for n in range(top + 1):
        ended = arose is None or handles[n]
        inner = arose
        if ended:
            arose = n if raises[n] else None
        a = f.get_address(n=n)
        got = runs_of(H, a)
        H.check("one_run_each", len(got) == 1)
        (rid, (at, ou, re, cr)), = got.items()
        H.check("records", len(at) == 1 and len(ou) == 1
                and len(re) == (arose is None) and len(cr) == (arose == n),
                f"level {n} of {top}: {len(re)} results, {len(cr)} crashes")
        for c in cr:
            H.check("crash_of_this_level", c["exception"].args == (n,)
                    and c.get("session_id", rid) == rid)
        H.check("output", ou[0].startswith(f"[in {n}]"))
    H.check("outcome", (err is None) == (arose is None))


@harness("C18", bound="one storage operation fails, any of them, or all from "
                      "then on")
def storage_failures(H):
    """Whatever storage operation fails, everything is put back."""
    M = Machine(H)
    p = common.portal(H, "p")
    b = common.Bodies(H)
    f = H.pth.pure(portal=p)(common.Bodies.src("f", ["a"]))
    g = H.pth.pure(portal=p)(common.Bodies.src("g", ["a"], uses=["f(a=a)"]))
    quiet(H, M)
    variant = H.choose(3, "variant")
    raises = variant == 1

    def body(kw):
        M.say(0, "something")
        if raises:
            raise common.Boom("body")
        return 5
    b.do["f"] = body
    outer = variant == 2
    call = g if outer else f
    addr = call.get_address(a=1)
    n = [0]
    last = 110 if outer else 60
    at = H.choose(last, "failing operation")
    lasting = H.flag("everything fails from then on")
    if at % 2:
        p.__enter__()
    hit = []

    def storage(op, d, path, *v):
        n[0] += 1
        if n[0] == at + 1 or lasting and n[0] > at:
            hit.append((op, path))
            from pyvc import ghost
            raise ghost.StorageFault("broken")
    before = M.take([f, g])
    H.hooks["storage"] = storage
    r, err = H.attempt(call, a=1)
    del H.hooks["storage"]
    H.cover("ended")
    H.check("covered_all_operations", n[0] <= last or bool(hit), n[0])
    M.compare(before, [f, g])
    if err is None:
        H.check("result", r == 5 or outer)
    # the next call works as usual
    raises = False
    r, err = H.attempt(call, a=1)
    H.check("usable_afterwards", err is None, f"{err!r} {hit}")
    M.compare(before, [f, g], "_again")
    for h in (f, g):
        a = h.get_address(a=1)
        for run, (at_, ou, re, cr) in runs_of(H, a).items():
            H.check("records_of_one_run", len(at_) <= 1 and len(ou) <= 1
                    and len(re) <= 1 and len(cr) <= 1)
