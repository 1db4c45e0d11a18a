"""Collections of unknown size and the loop rule for them.

`Each` is a sequence of unknown length whose elements are arbitrary values
made by `make`; `has` says whether some element satisfies `bad`.  A `for` loop
over it is cut: the frame of the loop (variables that keep their value in
every iteration) is guessed and checked (Houdini style), an iteration that
completes normally must have met an element that is not `bad` (the invariant
"no bad element so far"), and after the loop no element is bad.
"""
import sys
import z3
from . import core, sym
from .core import PathEnd, Unsupported, Restart


def contents(loc):
    """What the containers hold that local variables name."""
    return [(n, v, list(v.items()) if type(v) is dict else list(v))
            for n, v in loc.items() if type(v) in (dict, list, set)]


def containers_kept(before):
    """An iteration must not put anything into a container of the loop's
    function: nothing would be known about it afterwards."""
    for n, v, old in before:
        now = list(v.items()) if type(v) is dict else list(v)
        if len(now) != len(old) or any(
                a is not b and not (type(v) is dict and a[0] is b[0]
                                    and a[1] is b[1])
                for a, b in zip(now, old)):
            core.CTX.stop(Unsupported(f"{n} is filled by a loop"))


class Poison:
    """A variable about which nothing is known after a loop."""

    def __init__(self, name):
        object.__setattr__(self, "pname", name)

    def _stop(self, *a, **k):
        core.CTX.stop(Unsupported(
            f"variable {self.pname} changed in an abstracted loop"))


for _n in ("bool eq ne lt le gt ge add radd sub rsub mul getitem setitem len "
           "iter contains call getattr hash str repr and or int index "
           "enter exit").split():
    setattr(Poison, f"__{_n}__", Poison._stop)
del _n


@core.opaque
class Each:
    def __init__(self, H, make, bad, has, label="iteration"):
        self.H, self.make, self.bad, self.has = H, make, bad, has
        self.label = label

    def _vc_loop(self, rt, qual, loc, names):
        return EachLoop(self, qual, loc, names)

    def _vc_comp(self, kind, f, cond, flat):
        if kind != "gen" or not flat:
            core.CTX.stop(Unsupported("comprehension over many elements"))
        return Lazy(self, f, cond)

    def none_bad(self):
        h = self.has
        self.H.assume(~h if isinstance(h, sym.SBool) else not h)


class EachLoop:
    cut, again = True, False

    def __init__(self, each, qual, loc, names):
        self.each, self.qual, self.names = each, qual, names
        self.loc = {n: loc[n] for n in names if n in loc}

    def key(self, n):
        return (self.qual, self.each.label, n)

    def hv(self, name, v):
        if self.key(name) in core.CTX.ex.dropped:
            return Poison(name)
        return v

    def __iter__(self):
        c = core.CTX
        if c.choose(2, self.each.label) == 0:
            self.each.none_bad()
            return
        x = self.each.make()
        b = self.each.bad(x)
        self.each.H.assume(self.each.H.implies(b, self.each.has))
        held = contents(sys._getframe(1).f_locals)
        yield x
        now = sys._getframe(1).f_locals
        containers_kept(held)
        for n, v in self.loc.items():
            if now.get(n) is not v and self.key(n) not in c.ex.dropped:
                c.ex.dropped.add(self.key(n))
                c.stop(Restart())
        self.each.H.check("loop_" + self.each.label,
                          ~b if isinstance(b, sym.SBool) else not b)
        c.stop(PathEnd())


@core.opaque
class Lazy:
    """A generator expression over many elements."""

    def __init__(self, each, f, cond):
        self.each, self.f, self.cond = each, f, cond

    def test(self, x):
        if self.cond is not None and not self.cond(x):
            return False
        return bool(self.f(x))

    def _some(self, want):
        """Is there an element with test == want?"""
        e, H = self.each, self.each.H
        if core.CTX.choose(2, e.label) == 1:
            x = e.make()
            H.assume(H.implies(e.bad(x), e.has))
            if self.cond is not None:
                H.assume(bool(self.cond(x)))
            H.assume(bool(self.f(x)) == want)
            return True
        if e.has:
            x = e.make()
            H.assume(e.bad(x))
            H.assume(not ((self.cond is None or self.cond(x))
                          and bool(self.f(x)) == want))
        return False

    def _vc_any(self):
        return self._some(True)

    def _vc_all(self):
        return not self._some(False)


@core.opaque
class Records:
    """The entries of a stored dictionary: any number, each with a key and a
    time; only their number and the extreme times are named."""

    def __init__(self, H, name):
        self.H = H
        self.name = name
        self.n = H.int("number_of_" + name, 0)
        self.latest = H.real("latest_of_" + name)
        self.oldest = H.real("oldest_of_" + name)
        H.assume(self.oldest <= self.latest)
        self.ts = z3.Function("time_of_" + name, sym.S, z3.RealSort())
        self.wrap = None         # how keys look outside

    def key(self):
        k = self.H.safe_text("key_of_" + self.name)
        t = self.time(k)
        self.H.assume((t >= self.oldest) & (t <= self.latest))
        return self.wrap(k) if self.wrap else k

    def time(self, k):
        return sym.SReal(self.ts(sym.sterm(k)))

    def _vc_len(self):
        return self.n

    def _vc_map(self, f):
        return Mapped(self, f)

    def __len__(self):
        core.CTX.stop(Unsupported("native len of many records"))

    def __iter__(self):
        core.CTX.stop(Unsupported("iteration over many records"))
    __bool__ = __getitem__ = __contains__ = __iter__


@core.opaque
class Mapped(Records):
    def __init__(self, records, f, key=None):
        self.r, self.f = records, f
        self.H = records.H

    def _vc_len(self):
        return self.r.n

    def _vc_map(self, f):
        g = self.f
        return Mapped(self.r, lambda k: f(g(k)))

    def _vc_comp(self, kind, f, cond, flat):
        if cond is not None or kind == "dict" or not flat:
            core.CTX.stop(Unsupported("comprehension over many records"))
        return self._vc_map(f)

    def _vc_list(self):
        return self

    def _vc_iter(self):
        return self

    def _vc_max(self, largest):
        k = self.r.key()
        raw = k if not isinstance(k, tuple) and not hasattr(
            k, "str_chain") else k.str_chain[-1]
        x = self.f(k)
        t = self.r.time(raw)
        if not isinstance(x, (sym.SReal, sym.SInt)) or not core.CTX.must(
                x.t == t.t):
            core.CTX.stop(Unsupported("extreme of many records"))
        if core.CTX.decide((self.r.n == 0).t):
            raise ValueError("max() iterable argument is empty")
        return self.r.latest if largest else self.r.oldest


@core.opaque
class ForAll:
    """A list of unknown length whose elements are visited for their effect.
    The rule for a loop over it: an arbitrary element is visited from a state
    in which `before` holds; afterwards `after(x)` must hold and the rest of
    the state, named by `frame`, must be as it was.  A loop that is skipped
    stands for all iterations done."""

    def __init__(self, H, make, after, frame=lambda: (), label="element",
                 root=None):
        self.H, self.make, self.after = H, make, after
        self.frame, self.label = frame, label
        self.root = self if root is None else root
        self.loops = 0

    def copy(self):
        return ForAll(self.H, self.make, self.after, self.frame, self.label,
                      self.root)

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self.copy()
        core.CTX.stop(Unsupported("element of a list of unknown length"))

    def _vc_list(self):
        return self.copy()

    def _vc_iter(self):
        return self

    def __iter__(self):
        """Native iteration (of stand-ins): an arbitrary element, then cut."""
        return iter(AllLoop(self, "native", {}, ()))

    def _vc_loop(self, rt, qual, loc, names):
        return AllLoop(self, qual, loc, names)

    def _vc_comp(self, kind, f, cond, flat):
        core.CTX.stop(Unsupported("comprehension over a list of effects"))


class AllLoop:
    cut, again = True, False

    def __init__(self, each, qual, loc, names):
        self.each, self.qual, self.names = each, qual, names
        self.loc = {n: loc[n] for n in names if n in loc}

    def key(self, n):
        return (self.qual, self.each.label, n)

    def hv(self, name, v):
        if self.key(name) in core.CTX.ex.dropped:
            return Poison(name)
        return v

    def __iter__(self):
        c, e = core.CTX, self.each
        r = e.root
        r.loops += 1
        if c.choose(2, e.label) == 0:
            return
        x = e.make()
        before = e.frame()
        held = contents(sys._getframe(1).f_locals)
        yield x
        now = sys._getframe(1).f_locals
        containers_kept(held)
        for n, v in self.loc.items():
            if now.get(n) is not v and self.key(n) not in c.ex.dropped:
                c.ex.dropped.add(self.key(n))
                c.stop(Restart())
        e.H.check("each_" + e.label, e.after(x))
        after = e.frame()
        e.H.check("frame_" + e.label, len(before) == len(after) and all(
            a is b or a == b for a, b in zip(before, after)))
        c.stop(PathEnd())


@core.opaque
class Collect(ForAll):
    """Entries of unknown number that a loop picks from: an arbitrary entry
    `make()` is visited, whatever it adds to a list must satisfy `ok`, and a
    list that is added to holds, at the loop head and after the loop, any
    such elements (`sample()`), of which two are named."""

    def __init__(self, H, make, ok, sample, frame=lambda: (), label="entry"):
        super().__init__(H, make, lambda x: True, frame, label)
        self.ok, self.sample = ok, sample

    def copy(self):
        return self

    def __iter__(self):
        core.CTX.stop(Unsupported("native iteration over many entries"))

    def _vc_map(self, f):
        make = self.make
        return Collect(self.H, lambda: f(make()), self.ok, self.sample,
                       self.frame, self.label)

    def _vc_len(self):
        core.CTX.stop(Unsupported("number of entries"))

    def _vc_loop(self, rt, qual, loc, names):
        return CollectLoop(self, qual, loc, names)


class CollectLoop(AllLoop):
    def __init__(self, each, qual, loc, names):
        super().__init__(each, qual, loc, names)
        self.lists = {n: v for n, v in loc.items() if type(v) is list}

    def fill(self):
        c = core.CTX
        for n, v in self.lists.items():
            if ("collects", self.qual, n) in c.ex.dropped:
                for _ in range(c.choose(3, "collected in " + n)):
                    v.append(self.each.sample())

    def __iter__(self):
        c, e = core.CTX, self.each
        if c.choose(2, e.label) == 0:
            self.fill()
            return
        self.fill()
        sizes = {n: list(v) for n, v in self.lists.items()}
        x = e.make()
        before = e.frame()
        yield x
        now = sys._getframe(1).f_locals
        bad = False
        for n, v in self.loc.items():
            if now.get(n) is not v and self.key(n) not in c.ex.dropped:
                c.ex.dropped.add(self.key(n))
                bad = True
        for n, v in self.lists.items():
            old = sizes[n]
            if len(v) < len(old) or any(a is not b for a, b in zip(v, old)):
                c.stop(Unsupported("list changed by a loop"))
            k = ("collects", self.qual, n)
            if len(v) > len(old) and k not in c.ex.dropped:
                c.ex.dropped.add(k)
                bad = True
        if bad:
            c.stop(Restart())
        for n, v in self.lists.items():
            for y in v[len(sizes[n]):]:
                e.H.check("collected_" + e.label, e.ok(y))
        after = e.frame()
        e.H.check("frame_" + e.label, len(before) == len(after) and all(
            a is b or a == b for a, b in zip(before, after)))
        c.stop(PathEnd())


@core.opaque
class Witnessed:
    """A sequence of unknown length: `known` are elements of it, in their
    order, and `make()` gives an arbitrary other one.  A loop (or
    comprehension) over it is followed for the known elements; an iteration
    for another element must leave everything as it was that `frame(x)`
    names, so that the known ones see the same before and after it; local
    variables which it changes are unknown outside of it."""

    def __init__(self, H, known, make, frame, label="other"):
        self.H, self.known, self.make = H, list(known), make
        self.frame, self.label = frame, label

    def _like(self, known, make):
        return Witnessed(self.H, known, make, self.frame, self.label)

    def copy(self):
        return self._like(self.known, self.make)

    _vc_list = copy

    def _vc_iter(self):
        return self

    def _vc_reversed(self):
        return self._like(self.known[::-1], self.make)

    def _vc_len(self):
        n = self.H.int("number_of_" + self.label)
        self.H.assume(n >= len(self.known))
        return n

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            core.CTX.stop(Unsupported("element of a list of unknown length"))
        if i.start is None and i.stop is None:
            return self.copy()
        a, b = (core.CTX.choose(len(self.known) + 1, "cut " + self.label)
                if x is not None else y for x, y in (
                    (i.start, 0), (i.stop, len(self.known))))
        core.CTX.approximate("part of a list of unknown length")
        return self._like(self.known[a:b], self.make)

    def __bool__(self):
        if self.known:
            return True
        return core.CTX.choose(2, "some " + self.label) == 1

    def _vc_loop(self, rt, qual, loc, names):
        return WitnessLoop(self, qual, loc, names)

    def __iter__(self):
        core.CTX.stop(Unsupported("native iteration over an unknown number"))

    def _vc_comp(self, kind, f, cond, flat):
        if kind not in ("list", "gen") or not flat:
            core.CTX.stop(Unsupported("comprehension over an unknown number"))

        def make():
            x = self.make()
            if cond is not None:
                self.H.assume(bool(cond(x)))
            return f(x)
        if kind == "gen":
            return WitnessedGen(self, f, cond)
        if core.CTX.choose(2, self.label) == 1:
            x = self.make()
            before = self.frame(x)
            if cond is None or cond(x):
                f(x)
            self.unchanged(before, self.frame(x))
            core.CTX.stop(PathEnd())
        return self._like([f(x) for x in self.known
                           if cond is None or cond(x)], make)

    def unchanged(self, before, after):
        self.H.check("frame_" + self.label, len(before) == len(after) and all(
            a is b or a == b for a, b in zip(before, after)))


@core.opaque
class WitnessedGen(Witnessed):
    """A generator expression over them."""

    def __init__(self, base, f, cond):
        self.base, self.f, self.cond = base, f, cond
        self.H, self.label = base.H, base.label

    def _vc_list(self):
        return self.base._vc_comp("list", self.f, self.cond, True)

    def _vc_iter(self):
        return self._vc_list()

    def _vc_loop(self, rt, qual, loc, names):
        core.CTX.stop(Unsupported("loop over a generator expression"))

    def _some(self, want):
        b = self.base
        for x in b.known:
            if (self.cond is None or self.cond(x)) and bool(
                    self.f(x)) == want:
                return True
        if core.CTX.choose(2, self.label) == 1:
            x = b.make()
            if self.cond is not None:
                self.H.assume(bool(self.cond(x)))
            self.H.assume(bool(self.f(x)) == want)
            return True
        return False

    def _vc_any(self):
        return self._some(True)

    def _vc_all(self):
        return not self._some(False)

    def _vc_next(self, *default):
        """The first one: of the known ones, unless another comes before."""
        b = self.base
        k = core.CTX.choose(len(b.known) + 2, self.label)
        if k:
            for x in b.known[:k - 1]:
                if self.cond is None or self.cond(x):
                    return self.f(x)
            x = b.make()
            if self.cond is None or self.cond(x):
                return self.f(x)
            core.CTX.stop(PathEnd())
        for x in b.known:
            if self.cond is None or self.cond(x):
                return self.f(x)
        if default:
            return default[0]
        raise StopIteration


class WitnessLoop(AllLoop):
    again = True

    def __init__(self, each, qual, loc, names):
        super().__init__(each, qual, loc, names)

    def __iter__(self):
        c, e = core.CTX, self.each
        k = c.choose(len(e.known) + 2, e.label)
        if k == 0:
            yield from e.known
            return
        yield from e.known[:k - 1]
        fr = sys._getframe(1)
        loc = dict(fr.f_locals)
        x = e.make()
        before = e.frame(x)
        held = contents(loc)
        yield x
        containers_kept(held)
        now = fr.f_locals
        bad = False
        for n in self.names:
            if now.get(n) is not loc.get(n) and self.key(
                    n) not in c.ex.dropped:
                c.ex.dropped.add(self.key(n))
                bad = True
        if bad:
            c.stop(Restart())
        e.unchanged(before, e.frame(x))
        c.stop(PathEnd())


@core.opaque
class AnyItems:
    """A mapping of names to values about whose content nothing is known, and
    what was put into it since."""

    def __init__(self, H, name, root=None):
        self.H, self.name = H, name
        self.root = self if root is None else root
        self.added = []

    def had(self, k):
        """Was the name there at the beginning?"""
        return sym.SBool(z3.Function("has_" + self.name, sym.S, z3.BoolSort())(
            sym.sterm(k)))

    def value(self, k):
        """The value it had."""
        return sym.SVal(z3.Function("value_" + self.name, sym.S, sym.Val)(
            sym.sterm(k)), "value of an item", False)

    def copy(self):
        out = AnyItems(self.H, self.name, self.root)
        out.added = list(self.added)
        return out

    _vc_kw = _vc_dict = _vc_frozen = __copy__ = copy

    def _vc_contains(self, k):
        if not isinstance(k, (str, sym.SStr)):
            return False
        out = self.had(k)
        for x, _ in self.added:
            out = out | (sym.SBool(sym.sterm(x) == sym.sterm(k)))
        return out

    def __contains__(self, k):
        return bool(self._vc_contains(k))

    def keys(self):
        return self

    def __setitem__(self, k, v):
        if not isinstance(k, (str, sym.SStr)):
            core.CTX.stop(Unsupported("key of an unknown mapping"))
        self.added.append((k, v))

    def __getitem__(self, k):
        for x, v in reversed(self.added):
            if core.CTX.decide(sym.sterm(x) == sym.sterm(k)):
                return v
        if self.had(k):
            return self.value(k)
        raise KeyError(k)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __delitem__(self, k):
        if self.had(k):
            self._stop()
        if k not in self:
            raise KeyError(k)
        self.added = [(x, v) for x, v in self.added if not core.CTX.decide(
            sym.sterm(x) == sym.sterm(k))]

    def pop(self, k, *default):
        if default and k not in self:
            return default[0]
        v = self[k]
        del self[k]
        return v

    def update(self, *a, **kw):
        for d in a + (kw,):
            if type(d) is not dict:
                core.CTX.stop(Unsupported("update by an unknown mapping"))
            for k, v in d.items():
                self[k] = v

    def __ior__(self, d):
        self.update(d)
        return self

    def __or__(self, d):
        out = self.copy()
        out.update(d)
        return out

    def _stop(self, *a, **k):
        core.CTX.stop(Unsupported("the content of an unknown mapping"))
    __iter__ = __len__ = __bool__ = items = values = popitem = setdefault = \
        clear = __eq__ = _stop
    __hash__ = None
