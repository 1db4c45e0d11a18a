"""C08: every escaping exception is recorded once per entered portal."""
from pyvc.api import harness
from pyvc.core import EngineSignal
from . import common
from .C06 import distinct

ALL = "__CATCH_ALL__"
SUPPRESS = "__suppress_logging__"


def name_of(p):
    return p.root_dict.base_dir.parts[0]


def records(H, p):
    """The records in the common catch-all log of a portal."""
    return [e for e in H.env.fs.live if len(e.parts) > 2
            and e.parts[0] == name_of(p) and e.parts[1] == "crash_history"
            and e.parts[2] == ALL]


def crash_files(H):
    return [e for e in H.env.fs.live if len(e.parts) > 1
            and e.parts[1] == "crash_history"]


def portals(H, n, cls=None):
    cls = cls or ("LoggingPortal", "PureCodePortal", "DataPortal")[
        H.choose(2 if H.small else 3, "class")]
    return [common.portal(H, f"p{i}", cls) for i in range(n)]


def enter_some(H, ps):
    """Any nesting of at most one entry more than there are portals."""
    model = []
    for _ in range(len(ps) + 1):
        k = H.choose(len(ps) + 1, "enter")
        if k == len(ps):
            break
        ps[k].__enter__()
        model.append(ps[k])
    return model


class Alike(Exception):
    """Equal to every other one."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Quiet(Exception):
    """False as a truth value."""

    def __bool__(self):
        return False


class Échec(Exception):
    """Of a name that is not plain ASCII."""


def exception_in_any_state(H):
    """An exception with or without notes; (exception, seen before)."""
    e = [common.Boom("b", 1), KeyboardInterrupt(), KeyError("k"),
         common.Fatal("f"), StopIteration(2), SystemExit(3), GeneratorExit(),
         Alike("a"), Quiet(), ExceptionGroup("g", [common.Boom("i")]),
         StopAsyncIteration(), MemoryError(), RuntimeWarning("w")][
             H.choose(2 if H.small else 13, "exception")]
    if not H.small and H.flag("a consequence of a recorded one"):
        # a new exception, and how it came about
        old = common.Boom("recorded")
        q = list(H.pth.BasicPortal.all_portals.values())[0]
        with q:
            q.__enter__()
            q.__exit__(type(old), old, None)
        H.env.fs.live[:] = [x for x in H.env.fs.live
                            if x.parts[1] != "crash_history"]
        if H.flag("cause"):
            e.__cause__ = old
        else:
            e.__context__ = old
    if not H.small and H.flag("note about the log"):
        e.add_note(("see __suppress_logging__", "__suppress_logging__ = 0",
                    "suppress_logging", "__SUPPRESS_LOGGING__", "")[
                        H.choose(5, "note")])
    notes = (0, 3, 1, 2)[H.choose(2 if H.small else 4, "notes")]
    if notes & 1:
        e.add_note("a note")
    if notes & 2:
        e.add_note("another note")
    return e


def touched(H, e):
    """What handlers may do to an exception before they raise it again."""
    k = H.choose(2 if H.small else 4, "meanwhile")
    if k == 1:
        e.add_note("added meanwhile")
    elif k == 2:
        e.args = ("other", "arguments")
    elif k == 3:
        e.__cause__ = common.Boom("cause")
        e.__traceback__ = None


def is_record_of(H, entry, e):
    v = H.thaw(entry)
    return isinstance(v, dict) and type(v.get("exception")) is type(e)


@harness("C08", bound="at most 3 entries of 2 portals (5 of 4 in concrete "
                      "runs); any history before and after")
def leaving_a_block(H):
    """One step of the life of an exception.  Leaving a block by an exception
    not seen before records it once in every entered portal and marks it;
    leaving by one that was seen, or by none, records nothing."""
    n = 2 if H.small else 4
    ps = portals(H, n)
    model = enter_some(H, ps)
    H.assume(len(model) > 0)
    e = exception_in_any_state(H) if H.flag("raises") else None
    seen = H.flag("seen") if e is not None else False
    if seen:
        # first seen when it left an earlier block
        q = ps[H.choose(n, "earlier")]
        q.__enter__()
        q.__exit__(type(e), e, None)
        touched(H, e)
        H.env.fs.live[:] = [x for x in H.env.fs.live
                            if x.parts[1] != "crash_history"]
    pending = H.flag("another_exception_is_being_handled")
    p = model[-1]
    if pending:
        try:
            raise common.Boom("other")
        except common.Boom:
            out = p.__exit__(type(e) if e is not None else None, e, None)
    else:
        out = p.__exit__(type(e) if e is not None else None, e, None)
    H.cover("left")
    H.check("not_swallowed", not out)
    for q in ps:
        want = 1 if e is not None and not seen and any(
            q is m for m in model) else 0
        got = records(H, q)
        H.check("records_of_each_portal", len(got) == want,
                f"{len(got)} instead of {want}")
        for x in got:
            H.check("record_holds_the_exception", is_record_of(H, x, e))
    if e is None or seen:
        H.check("nothing_recorded", not crash_files(H))
    if e is not None:
        # whatever it passes later, it is not recorded again
        m = len(crash_files(H))
        touched(H, e)
        with_portal = ps[0 if H.small else H.choose(n, "later")]
        with_portal.__enter__()
        with_portal.__exit__(type(e), e, None)
        H.check("not_recorded_again", len(crash_files(H)) == m)


@harness("C08", bound="exceptions of 2 classes with 0, 1 or 3 notes (any "
                      "number of portals)",
         contracts=("signature", "env", "randsig"))
def in_any_number_of_portals(H):
    """However many portals are entered: an arbitrary one of them gets one
    record when the exception is first seen, and a portal that is not entered
    gets none."""
    cls = ("LoggingPortal", "PureCodePortal")[H.choose(2, "class")]
    p, other, left = (common.portal(H, n, cls) for n in ("p", "q", "left"))
    how = H.choose(4 if cls == "PureCodePortal" else 3, "how")
    entered = True if how == 0 else H.flag("entered")
    e = exception_in_any_state(H)
    seen = H.flag("seen")
    if seen:
        left.__enter__()
        left.__exit__(type(e), e, None)
        H.env.fs.live[:] = []

    def frame(x):
        return [f for f in H.env.fs.live if f.parts[0] != name_of(x)]
    common.many_entered(H, p, entered, lambda: (other, left)[
        H.choose(2, "other portal")], frame)
    if how == 2:
        H.hooks["default_excepthook"] = lambda *a: None
        s = H.world.sys
        if not H.sym:
            s.__excepthook__ = lambda *a: None
        try:
            s.excepthook(type(e), e, None)
        finally:
            if not H.sym:
                s.__excepthook__ = REAL
    elif how == 3:
        b = common.Bodies(H)

        def body(kw):
            raise e
        b.do["f"] = body
        f = H.pth.autonomous(portal=left)(common.Bodies.src("f", ["a"]))
        _, err = H.attempt(f, a=1)
        H.check("propagates", err is e, repr(err))
    else:
        q = (p, left)[how]
        q.__enter__()
        q.__exit__(type(e), e, None)
    H.cover("seen")
    got = records(H, p)
    H.check("one_record_if_entered", len(got) == (
        1 if entered and not seen else 0), f"{how}: {len(got)}")
    for x in got:
        H.check("record_holds_the_exception", is_record_of(H, x, e))
    if seen or not entered:
        H.check("nothing_else", not any(
            x.parts[0] == "p" for x in crash_files(H)))


@harness("C08", bound="2 portals (4 in concrete runs), 3 exceptions of one "
                      "class (8 in concrete runs)",
         contracts=("signature", "env", "randsig"))
def one_after_another(H):
    """Exceptions that look the same, on the same day, are different ones:
    each is recorded, once in every portal entered when it is first seen, and
    the records of the earlier ones stay as they are."""
    n, m = (2, 3) if H.small else (4, 8)
    ps = portals(H, n)
    want = [0 for _ in ps]
    for i in range(m):
        model = [ps[k] for k in range(n) if H.flag(f"enter p{k}")]
        H.assume(len(model) > 0)
        again = i > 0 and H.flag("again")
        if not again:
            e = None                  # the earlier one may go
            e = common.Boom("the same message")
            if not H.small and H.flag("note"):
                e.add_note("a note")
            for q in model:
                want[ps.index(q)] += 1
        for q in model:
            q.__enter__()
        for q in reversed(model):
            _, err = H.attempt(q.__exit__, type(e), e, None)
            H.check("left", err is None, repr(err))
        for j, q in enumerate(ps):
            got = records(H, q)
            H.check("one_record_each", len(got) == want[j],
                    f"{len(got)} instead of {want[j]}")
    H.cover("recorded")
    for q in ps:
        for x in records(H, q):
            H.check("record_holds_the_exception", is_record_of(H, x, e))


KINDS = ("ordinary", "safe", "autonomous", "strictly_autonomous", "pure")


@harness("C08", bound="2 portals, at most 3 entries (4 and 5 in concrete "
                      "runs)")
def leaving_a_call(H):
    """One step through a call of a decorated function of any kind: an
    exception of its body that was not seen before is recorded exactly once
    in the catch-all log of every portal entered at that moment; a call that
    completes records nothing, whatever is being handled."""
    b = common.Bodies(H)
    ps = portals(H, 2 if H.small else 4, "PureCodePortal")
    kind = KINDS[H.choose(len(KINDS), "kind")]
    own = ps[0 if H.small else H.choose(4, "own_portal")]
    deco = getattr(H.pth, kind)
    f = deco(portal=own)(common.Bodies.src("f", ["a"]))
    model = enter_some(H, ps)
    raises = H.flag("raises")
    e = None
    if raises:
        e = common.Boom("noted") if H.small else common.some_exception(
            H, note=True)
        if H.small and H.flag("note"):
            e.add_note("a note")
    seen = raises and H.flag("seen")
    if seen:
        ps[0].__enter__()
        ps[0].__exit__(type(e), e, None)
        touched(H, e)
        H.env.fs.live[:] = [x for x in H.env.fs.live
                            if x.parts[1] != "crash_history"]

    def body(kw):
        if raises:
            raise e
        return 7
    b.do["f"] = body

    def call():
        return f(a=1)
    if H.flag("another_exception_is_being_handled"):
        try:
            raise common.Boom("other")
        except common.Boom:
            r, err = H.attempt(call)
    else:
        r, err = H.attempt(call)
    H.cover("called")
    H.check("outcome_unchanged", err is e and (r == 7 or raises), repr(err))
    there = distinct(model + ([own] if kind in KINDS[2:] else []))
    for q in ps:
        want = 1 if raises and not seen and any(q is m for m in there) else 0
        got = records(H, q)
        H.check("records_of_each_portal", len(got) == want,
                f"{kind}: {len(got)} instead of {want}")
        for x in got:
            H.check("record_holds_the_exception", is_record_of(H, x, e))
    if not raises:
        H.check("nothing_recorded", not crash_files(H))
    H.check("nesting_restored", H.pth.BasicPortal.get_entered_portals()
            == distinct(model))


@harness("C08", bound="14 classes of exceptions, with and without a note")
def every_class_of_exception(H):
    """Whatever is raised is recorded once, by every portal it leaves."""
    p, q = portals(H, 2)
    common.nearly_the_same_signatures(H)
    for note in (False, True):
        for cls, args in (
                (common.Boom, ("b", 1)), (KeyboardInterrupt, ()),
                (KeyError, ("k",)), (StopIteration, (2,)), (SystemExit, (3,)),
                (GeneratorExit, ()), (Alike, ("a",)), (Quiet, ()),
                (ExceptionGroup, ("g", [common.Boom("i")])),
                (StopAsyncIteration, ()), (MemoryError, ()),
                (RuntimeWarning, ("w",)), (AssertionError, ()),
                (Échec, ())):
            e = cls(*args)
            if note:
                e.add_note("a note")
            before = len(records(H, p)), len(records(H, q))
            p.__enter__()
            q.__enter__()
            swallowed = []
            for x in (q, p):
                r, err = H.attempt(x.__exit__, cls, e, None)
                H.check("left", err is None, repr(err))
                swallowed.append(r)
            H.check("not_swallowed", not any(swallowed), repr(e))
            H.check("one_record_each", (
                len(records(H, p)), len(records(H, q))) == (
                    before[0] + 1, before[1] + 1), repr(e))
    H.cover("recorded")


@harness("C08", bound="programs of depth 3 over 2 portals and 3 functions "
                      "(5 in concrete runs)")
def programs(H):
    """Nested blocks and calls, with handlers in any place."""
    b = common.Bodies(H)
    ps = portals(H, 2, "PureCodePortal")
    kinds = ("ordinary", "autonomous", "pure") if H.small else KINDS
    fs = []
    for i, kind in enumerate(kinds):
        own = ps[i % 2]
        f = getattr(H.pth, kind)(portal=own)(
            common.Bodies.src(f"f{i}", ["a"]))
        fs.append((f, kind, own))
    model, expect, raised, n = [], {id(p): 0 for p in ps}, [], [0]

    def first_seen(e, where):
        if not getattr(e, "seen_", False):
            e.seen_ = True
            for q in distinct(where):
                expect[id(q)] += 1

    def step(depth):
        if depth == 0:
            k = 1 if H.flag("raise") else 0
        else:
            k = 1 + H.choose(4, "what")
        if k == 0:
            return
        if k == 1:
            e = common.Boom("x", len(raised))
            raised.append(e)
            raise e
        if k == 2:
            p = ps[H.choose(2, "portal")]
            model.append(p)
            try:
                with p:
                    step(depth - 1)
            except common.Boom as e:
                first_seen(e, model)
                model.pop()
                raise
            model.pop()
        if k == 3:
            f, kind, own = fs[H.choose(len(fs), "function")]
            inner = kind not in ("ordinary", "safe")
            if inner:
                model.append(own)
            n[0] += 1
            b.do[f.fn_name] = lambda kw: step(depth - 1)
            try:
                f(a=n[0])
            except common.Boom as e:
                first_seen(e, model)
                if inner:
                    model.pop()
                raise
            if inner:
                model.pop()
        if k == 4:
            try:
                step(depth - 1)
            except common.Boom as e:
                if depth > 1:
                    step(depth - 2)
                if not H.small and H.flag("again"):
                    touched(H, e)
                    raise
    _, err = H.attempt(step, 3 if H.small else 5)
    H.cover("ended")
    if err is not None and not isinstance(err, common.Boom):
        raise err
    H.check("propagates", err is None or any(err is r for r in raised))
    for p in ps:
        got = len(records(H, p))
        H.check("one_record_each", got == expect[id(p)],
                f"{got} instead of {expect[id(p)]}")


@harness("C08", bound="2 portals, at most 3 entries")
def end_of_program(H):
    """An exception that ends the program is recorded in every entered portal
    (unless it was recorded before), and shown in the usual way."""
    shown = []
    H.hooks["default_excepthook"] = lambda *a: shown.append(a)
    H.pth
    ps = portals(H, 2)
    model = enter_some(H, ps)
    e = exception_in_any_state(H)
    seen = H.flag("seen")
    if seen:
        ps[0].__enter__()
        ps[0].__exit__(type(e), e, None)
        touched(H, e)
        H.env.fs.live[:] = [x for x in H.env.fs.live
                            if x.parts[1] != "crash_history"]
    s = H.world.sys
    if not H.sym:
        s.__excepthook__ = lambda *a: shown.append(a)
    try:
        s.excepthook(type(e), e, None)
    finally:
        if not H.sym:
            s.__excepthook__ = REAL
    H.cover("ended")
    H.check("shown", len(shown) == 1 and shown[0][1] is e)
    for q in ps:
        want = 0 if seen or not any(q is m for m in model) else 1
        H.check("records_of_each_portal", len(records(H, q)) == want)


import sys as _sys
REAL = _sys.__excepthook__


@harness("C08")
def hook_is_put_back(H):
    """Clearing all portals puts back the system-wide hook that was in force
    before the first portal, however many were created and cleared."""
    H.pth
    s = H.world.sys

    def mine(*a):
        pass
    before = mine if H.flag("custom_hook") else s.excepthook
    s.excepthook = before
    L = H.get("_020_logging_portals.logging_portals", "LoggingPortal")
    for i in range(1 + H.choose(2, "rounds")):
        replaced = False
        for j in range(H.choose(3, "portals")):
            if j == 1 and H.flag("replaced_meanwhile"):
                s.excepthook = replaced = lambda *a: None
            common.portal(H, f"p{i}{j}", "LoggingPortal")
        n = len(H.pth.BasicPortal.all_portals)
        H.check("installed_while_portals_exist", replaced
                or (s.excepthook is not before) == (n > 0))
        for _ in range(1 + H.choose(2, "clear_times")):
            L._clear_all()
        H.cover("cleared")
        H.check("put_back", s.excepthook is before)
