"""C20: output capture is complete, transparent and always undone."""
import builtins
from pyvc.api import harness
from pyvc.many import ForAll
from . import common

OC = "_810_output_manipulators.output_capturer"
OS = "_810_output_manipulators.output_suppressor"


class Sink:
    """A stream that was in place before: what reaches it is recorded."""

    def __init__(self, name, fails=False):
        self.name, self.got, self.flushed = name, [], 0
        self.fails = fails
        self.answer = object()

    def write(self, data):
        if self.fails:
            raise OSError("stream is gone")
        self.got.append(data)
        return self.answer

    def flush(self):
        self.flushed += 1

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def isatty(self):
        return False


class Spy:
    """A log handler that was in place before."""

    def __init__(self, level, passes=True, name=""):
        self.level, self.passes, self.name = level, passes, name
        self.got = []

    def handle(self, record):
        if self.passes:
            self.emit(record)
        return self.passes

    def emit(self, record):
        self.got.append(record)

    def acquire(self):
        pass
    release = flush = close = acquire


def texts(got):
    out = ""
    for x in got:
        out = out + x
    return out


class Place:
    """The streams and handlers of the process, replaced by spies."""

    def __init__(self, H, handlers):
        self.H, self.s, self.log = H, H.world.sys, H.world.logging
        self.out, self.err = Sink("out"), Sink("err")
        self.s.stdout, self.s.stderr = self.out, self.err
        self.handlers = handlers
        self.log.root.handlers = handlers
        self.level = 0
        self.log.root.level = 0
        if not H.sym:
            self.log.root.setLevel(0)

    def record(self, level, msg):
        if self.H.sym:
            self.log.root.log(level, msg)
        else:
            self.log.root.log(level, "%s", msg)

    def stream(self, which):
        return self.s.stderr if which else self.s.stdout

    def in_place(self):
        return (self.s.stdout, self.s.stderr, self.log.root.handlers)

    def untouched(self, before, where=""):
        H = self.H
        H.check("stdout_is_back" + where, self.s.stdout is before[0])
        H.check("stderr_is_back" + where, self.s.stderr is before[1])
        a, b = self.log.root.handlers, before[2]
        if isinstance(b, ForAll):
            ok = isinstance(a, ForAll) and a.root is b.root
        else:
            ok = isinstance(a, (list, tuple)) and len(a) == len(b) and all(
                x is y for x, y in zip(a, b))
        H.check("handlers_are_back" + where, ok)


def begin(H, name, P, how):
    """Create a block; with how == 1 it is created while other streams are
    in place than when it is entered."""
    C = H.get(OC, "OutputCapturer") if name == "capturer" else H.get(
        OS, "OutputSuppressor")
    if how:
        keep = P.in_place()
        P.s.stdout, P.s.stderr = Sink("other out"), Sink("other err")
        P.log.root.handlers = [Spy(0)]
        c = C()
        P.s.stdout, P.s.stderr = keep[:2]
        P.log.root.handlers = keep[2]
    else:
        c = C()
    return c


@harness("C20")
def a_write(H):
    """After any history of captured text, one write of any text."""
    P = Place(H, [])
    c = begin(H, "capturer", P, H.choose(2, "created earlier"))
    before, text = H.text("captured before"), H.text("text")
    with c:
        P.s.stderr.write(before)
        H.check("earlier_text", H.same(c.get_output(), before))
        n = (len(P.out.got), len(P.err.got))
        which = H.choose(2, "stream")
        how = H.choose(4, "how")
        st = P.stream(which)
        if how == 0:
            r = st.write(text)
            H.check("answer_of_the_stream",
                    r is (P.err if which else P.out).answer)
        elif how == 1:
            st.writelines([text] if H.flag("list") else iter([text]))
        elif how == 2:
            st.writelines([])
            text = ""
        else:
            st.flush()
            text = ""
        H.check("captured_in_order_once",
                H.same(c.get_output(), before + text))
        own, other = (P.err, P.out) if which else (P.out, P.err)
        H.check("reaches_the_stream_once", H.same(
            texts(own.got[n[which]:]), text))
        H.check("only_this_stream", len(other.got) == n[1 - which])
        H.check("flush_is_passed_on", (own.flushed > 0) == (how == 3))
    H.check("kept_after_the_block", H.same(c.get_output(), before + text))
    P.untouched((P.out, P.err, P.handlers))
    P.s.stdout.write("x")
    H.check("nothing_captured_later", H.same(
        c.get_output(), before + text))
    H.cover("written")


@harness("C20")
def a_record(H):
    """One record of any level and text, with any number of handlers of any
    levels and filters in place."""
    lev = H.int("level of the record", 1)
    H.assume(lev <= 100)
    msg, before = H.text("message"), H.text("captured before")
    state = {}

    def a_handler():
        low = H.int("level of a handler", 0)
        H.assume(low <= 200)
        return Spy(low, H.flag("passes its filters"))

    def after(x):
        want = H.all(lev >= x.level, x.passes)
        if x.got:
            return H.all(want, len(x.got) == 1, H.same(
                x.got[0].getMessage(), msg))
        return ~want if hasattr(want, "t") else not want

    def frame():
        return (P.s.stdout, P.s.stderr, len(P.out.got), len(P.err.got),
                state["c"].get_output() if "c" in state else None)
    if H.sym:
        hs = ForAll(H, a_handler, after, frame, "handler")
    else:
        hs = [a_handler() for _ in range(H.ctx.rng.randrange(1, 9))]
    P = Place(H, hs)
    c = begin(H, "capturer", P, H.choose(2, "created earlier"))
    with c:
        P.s.stderr.write(before)
        state["c"] = c
        n = hs.loops if H.sym else 0
        P.record(lev, msg)
        H.check("captured_in_order_once",
                H.same(c.get_output(), before + msg + "\n"))
        if H.sym:
            H.check("every_handler_is_asked_once", hs.loops == n + 1,
                    hs.loops)
        else:
            H.check("each_handler", all(after(x) for x in hs))
        H.check("streams_get_nothing_more",
                len(P.out.got) == 0 and len(P.err.got) == 1)
    H.cover("recorded")
    P.untouched((P.out, P.err, hs))
    n = hs.loops if H.sym else 0
    got = [len(x.got) for x in hs] if not H.sym else None
    P.record(lev, msg)
    H.check("nothing_captured_later", H.same(
        c.get_output(), before + msg + "\n"))
    if H.sym:
        H.check("handlers_are_asked_again", hs.loops == n + 1)


@harness("C20")
def leaving(H):
    """Any block is left, normally or by any exception, whatever its body
    left in the place of the streams and handlers."""
    if H.sym:
        hs = ForAll(H, lambda: Spy(0), lambda x: True, label="handler")
    else:
        hs = [Spy(0) for _ in range(H.ctx.rng.randrange(4))]
    P = Place(H, hs)
    kind = ("capturer", "suppressor")[H.choose(2, "block")]
    c = begin(H, kind, P, H.choose(2, "created earlier"))
    exc = (None, common.Boom("b"), KeyboardInterrupt(), SystemExit(3),
           GeneratorExit())[H.choose(5, "exception")]
    body = H.choose(4, "what the body leaves")
    before = P.in_place()

    def run():
        with c:
            if body == 1:
                P.s.stdout, P.s.stderr = Sink("a"), Sink("b")
                P.log.root.handlers = [Spy(0)]
            elif body == 2:
                P.s.stderr = Sink("c", fails=True)
            elif body == 3:
                P.out.fails = P.err.fails = True
                P.log.root.handlers = []
            if exc is not None:
                raise exc
    _, err = H.attempt(run)
    H.cover("left")
    if kind == "suppressor" and body in (1, 3):
        # it leaves the handlers alone: those of the body stay
        H.check("handlers_of_the_body_stay", P.log.root.handlers is not hs)
        P.log.root.handlers = hs
    P.untouched(before)
    if body < 2:
        H.check("exceptions_pass", err is exc, err)
    else:
        H.check("exceptions_are_never_hidden", exc is None or err is not None)


@harness("C20")
def suppressed(H):
    """Any text written while output is suppressed."""
    P = Place(H, [Spy(0)])
    c = begin(H, "suppressor", P, H.choose(2, "created earlier"))
    text = H.text("text")
    P.out.write("before")
    opened = []
    if H.sym:
        inner = H.world.hooks["open"]

        def op(*a, **k):
            opened.append(a[0])
            return inner(*a, **k)
        H.world.hooks["open"] = op
    with c:
        st = P.stream(H.choose(2, "stream"))
        H.check("replaced", st is not P.out and st is not P.err)
        how = H.choose(3, "how")
        if how == 0:
            st.write(text)
        elif how == 1:
            st.writelines([text, text] if H.flag("list") else
                          iter([text, text]))
        else:
            st.flush()
        H.check("handlers_stay", P.log.root.handlers == P.handlers)
        if H.sym:
            import os
            H.check("nothing_is_written_anywhere",
                    all(x == os.devnull for x in opened))
    H.check("nothing_reaches_the_streams",
            P.out.got == ["before"] and P.err.got == []
            and not P.out.flushed and not P.err.flushed)
    P.untouched((P.out, P.err, P.handlers))
    st = P.stream(H.choose(2, "stream afterwards"))
    st.write(text)
    H.check("heard_again", H.same(
        texts(P.out.got + P.err.got), "before" + text))
    H.cover("suppressed")


class Block:
    def __init__(self, kind, c):
        self.kind, self.c, self.want = kind, c, []


@harness("C20", bound="nestings of up to 2 deep, 2 handlers and up to 4 "
         "events and blocks", random=True)
def nestings(H):
    """Whole histories of nested blocks, writes and records."""
    hs = [Spy(30), Spy(0)]
    P = Place(H, hs)
    want = {"out": [], "err": []}
    logged = []
    open_ = []
    n = [0]

    def event(k):
        n[0] += 1
        t = "t%d" % n[0]
        if k == 2:
            lev = (10, 30, 50)[n[0] % 3]
            P.record(lev, t)
            # the innermost capturer hears it, and hands it to the others
            for b in open_:
                if b.kind == "capturer":
                    b.want.append(t + "\n")
            logged.append((t, lev))
            return
        (P.s.stdout if k == 0 else P.s.stderr).write(t)
        for b in reversed(open_):
            if b.kind == "suppressor":
                return
            b.want.append(t)
        want["err" if k else "out"].append(t)

    def block(depth):
        for i in range((1, 2, 1)[depth]):
            what = H.choose(3 if depth < 2 else 2, "what")
            if what == 0:
                return
            if what == 1:
                event(H.choose(3, "event"))
                continue
            kind = ("capturer", "suppressor")[H.choose(2, "block")]
            c = begin(H, kind, P, 0)
            before = P.in_place()
            b = Block(kind, c)
            exc = common.Boom("x") if H.flag("raises") else None
            try:
                with c:
                    open_.append(b)
                    block(depth + 1)
                    if exc is not None:
                        raise exc
            except common.Boom as e:
                H.check("same_exception", e is exc)
            open_.pop()
            P.untouched(before)
            if kind == "capturer":
                got = b.c.get_output()
                w = "".join(b.want)
                H.check("captured", got == w if exc is None else
                        got.startswith(w), (got, w))
                if exc is not None:
                    # the report of the exception is an event of its own,
                    # seen by the surrounding blocks as well
                    rest = got[len(w):]
                    for o in reversed(open_):
                        if o.kind == "suppressor":
                            break
                        o.want.append(rest)
                    else:
                        want["err"].append(rest)
    block(0)
    H.cover("played")
    H.check("stdout_got", "".join(P.out.got) == "".join(want["out"]))
    H.check("stderr_got", "".join(P.err.got) == "".join(want["err"]))
    for h in hs:
        H.check("handlers_got", [r.getMessage() for r in h.got] == [
            t for t, lev in logged if lev >= h.level])


@harness("C20", bound="12 texts; records of exceptions and of another logger "
                      "in concrete runs")
def unusual_texts(H):
    """Texts with all sorts of characters, of any length; records that carry
    an exception."""
    h = Spy(0)
    P = Place(H, [h])
    c = begin(H, "capturer", P, H.choose(2, "created earlier"))
    ts = ["\r\n", "a\rb", "\n\r", "\x00", "\x1b[1m", "\u2028 \x85", "é\u0301",
          "\ud800", "\U0001f40d", " \t ", "x" * 300001, ""]
    want, n = "", 0
    with c:
        for t in ts:
            for which in (0, 1):
                P.stream(which).write(t)
                want += t
            P.record(30, t)
            want += t + "\n"
            n += 1
        H.check("captured_in_order_once", c.get_output() == want)
        if not H.sym:
            P.log.getLogger("another").error("of %s", "another")
            want += "of another\n"
            try:
                raise common.Boom("in a record")
            except common.Boom:
                P.log.root.exception("went wrong")
            n += 2
            got = c.get_output()
            H.check("captured_in_order_once", got.startswith(
                want + "went wrong\n"), repr(got[-300:]))
            rest = got[len(want):]
            H.check("exception_of_a_record_captured", rest.count(
                "Boom: in a record") == 1, rest)
    H.cover("written")
    for which, s in ((0, P.out), (1, P.err)):
        H.check("stream_got_all", "".join(s.got) == "".join(ts), which)
    H.check("handler_got_all", len(h.got) == n)
    H.check("handler_got_the_texts", [r.getMessage() for r in h.got][
        :len(ts)] == ts)
