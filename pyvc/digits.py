"""Texts of base-32 digits as numbers: value, 32**length, leading digit."""
import sys
import z3
from . import core, sym
from .core import PathEnd, Unsupported
from .sym import SBool, SInt, Sym, SStr

ALPHABET = "0123456789abcdefghijklmnopqrstuv"


def stop(msg):
    core.CTX.stop(Unsupported(msg))


class Digit(Sym):
    """One base-32 digit (of either case)."""
    __slots__ = ("d", "upper")

    def __init__(self, d, upper=False):
        self.d, self.upper = d, upper

    def lower(self):
        return Digit(self.d)

    def _vc_len(self):
        return 1

    def __add__(self, o):
        return text_of(self) + o

    def __radd__(self, o):
        return o + text_of(self) if isinstance(o, DigText) else \
            NotImplemented if o != "" else text_of(self)

    def __eq__(self, o):
        if isinstance(o, str):
            i = ALPHABET.find(o)
            return SBool(self.d == i) if len(o) == 1 and i >= 0 else False
        return SBool(self.d == o.d)
    __hash__ = Sym.__hash__

    def index_in(self, table):
        """table[digit] of a dictionary or list of numbers."""
        if self.upper is not False and not core.CTX.must(z3.Not(self.upper)):
            if core.CTX.decide(z3.And(self.upper, self.d >= 10)):
                t = {i: table.get(ALPHABET[i].upper()) for i in range(32)}
            else:
                t = {i: table.get(ALPHABET[i]) for i in range(32)}
        else:
            t = {i: table.get(ALPHABET[i]) for i in range(32)}
        bad = [self.d == i for i, v in t.items() if v is None]
        if bad and core.CTX.decide(z3.Or(bad)):
            raise KeyError("digit")
        if not all(type(v) is int for v in t.values() if v is not None):
            stop("digit table")
        lin = all(v == i for i, v in t.items())
        if lin:
            return SInt(self.d)
        out = z3.IntVal(-1)
        for i, v in t.items():
            if v is not None:
                out = z3.If(self.d == i, z3.IntVal(v), out)
        return SInt(out)


class DigText(Sym):
    """v: the number it denotes, p: 32**len, lead: first digit (-1: empty)."""
    __slots__ = ("v", "p", "lead", "upper")

    def __init__(self, v, p, lead, upper=False):
        self.v, self.p, self.lead, self.upper = v, p, lead, upper

    @staticmethod
    def fresh(name, upper=False):
        c = core.CTX
        n = c.name(name)
        v, p, l = z3.Int(n + ".value"), z3.Int(n + ".pow"), z3.Int(
            n + ".lead")
        c.add(z3.And(p >= 1, v >= 0, v < p, l >= -1, l < 32,
                     z3.Or(p == 1, p >= 32), (p == 1) == (l == -1),
                     z3.Implies(l == 0, 32 * v < p),
                     z3.Implies(l > 0, 32 * v >= p)))
        return DigText(v, p, l, upper)

    def __add__(self, o):
        if isinstance(o, str) and o == "":
            return self
        o = text_of(o)
        if o is None:
            return NotImplemented
        return DigText(self.v * o.p + o.v, self.p * o.p,
                       z3.If(self.lead >= 0, self.lead, o.lead))

    def __radd__(self, o):
        if isinstance(o, str) and o == "":
            return self
        o = text_of(o)
        return NotImplemented if o is None else o + self

    def __bool__(self):
        return core.CTX.decide(self.lead >= 0)

    def __eq__(self, o):
        if isinstance(o, str) and o == "":
            return SBool(self.lead < 0)
        o = text_of(o)
        return False if o is None else SBool(z3.And(self.v == o.v,
                                                    self.p == o.p))
    __hash__ = Sym.__hash__

    def lower(self):
        return DigText(self.v, self.p, self.lead)

    def strip(self, *a):
        return self

    def _vc_int(self, base):
        if base == 32:
            if core.CTX.decide(self.lead < 0):
                raise ValueError("invalid literal for int()")
            return SInt(self.v)
        stop("int of digits")

    def _vc_loop(self, rt, qual, loc, names):
        return FoldLoop(self, rt, qual, loc, names)


def text_of(o):
    if isinstance(o, DigText):
        return o
    if isinstance(o, Digit):
        return DigText(o.d, z3.IntVal(32), o.d)
    if isinstance(o, str) and all(c in ALPHABET for c in o):
        return DigText(z3.IntVal(int(o, 32) if o else 0),
                       z3.IntVal(32 ** len(o)),
                       z3.IntVal(int(o[0], 32) if o else -1))
    return None


class FoldLoop:
    """for c in text: the invariant relates the state to the digits read."""
    cut, again = True, False

    def __init__(self, text, rt, qual, loc, names):
        self.text = text
        h = rt.hooks.get("for_digits")
        self.inv = h(qual, names, loc) if h else None
        if self.inv is None:
            stop(f"loop over a symbolic text in {qual}")
        core.CTX.approximate("loop invariant")
        self.inv.entry(loc, z3.IntVal(0))
        self.exit = core.CTX.choose(2, "loop_exit") == 1
        self.u = z3.Int(core.CTX.name("read"))

    def hv(self, name, v):
        return self.inv.havoc(name, v)

    def __iter__(self):
        c = core.CTX
        loc = sys._getframe(1).f_locals
        c.add(self.u >= 0)
        self.inv.assume(loc, self.u)
        if self.exit:
            c.add(self.u == self.text.v)
            return
        n = c.name("digit")
        d = z3.Int(n)
        c.add(z3.And(d >= 0, d < 32))
        yield Digit(d, z3.Bool(n + ".upper") if self.text.upper else False)
        self.inv.back_edge(sys._getframe(1).f_locals, 32 * self.u + d)
        c.stop(PathEnd())


class IntVars:
    """Invariant of a fold: every number among the loop's variables equals
    the value of the digits read so far."""

    def __init__(self, names, loc, label):
        self.names = [n for n in names if type(loc.get(n)) is int
                      or isinstance(loc.get(n), SInt)]
        self.label = label

    def entry(self, loc, u):
        for n in self.names:
            core.CTX.check(self.label + ".entry", sym._num(loc[n]) == u)

    def havoc(self, name, v):
        if name in self.names:
            return SInt(z3.Int(core.CTX.name(name)))
        stop(f"loop variable {name}")

    def assume(self, loc, u):
        for n in self.names:
            core.CTX.add(sym._num(loc[n]) == u)

    def back_edge(self, loc, u):
        for n in self.names:
            core.CTX.check(self.label + ".preserved", sym._num(loc[n]) == u)


class BuildInv:
    """Invariant of building a text digit by digit from a number n0:
    rest * 32**len(text) + value(text) == n0."""

    def __init__(self, names, loc, n0, label):
        self.ints = [n for n in names if isinstance(loc.get(n), SInt)]
        self.texts = [n for n in names if loc.get(n) == ""
                      or isinstance(loc.get(n), DigText)]
        self.rest = [n for n in names if n in loc and n not in self.ints
                     and n not in self.texts]
        self.ok = len(self.ints) == 1 and len(self.texts) == 1 \
            and not self.rest
        self.n0, self.label = n0, label

    def terms(self, loc):
        x = sym._num(loc[self.ints[0]])
        s = text_of(loc[self.texts[0]])
        if x is None or s is None:
            stop("shape of the loop state")
        return x, s

    def conds(self, loc):
        x, s = self.terms(loc)
        return dict(value=x * s.p + s.v == self.n0, nonnegative=x >= 0,
                    no_leading_zero=z3.Or(x > 0, s.lead != 0))

    def entry(self, loc):
        core.CTX.approximate("loop invariant")
        for k, c in self.conds(loc).items():
            core.CTX.check(f"{self.label}.entry.{k}", c)

    def havoc(self, name, v):
        if name in self.ints:
            return SInt(z3.Int(core.CTX.name(name)))
        if name in self.texts:
            return DigText.fresh(name)
        stop(f"loop variable {name}")

    def assume(self, loc):
        for c in self.conds(loc).values():
            core.CTX.add(c)
        self.x0 = self.terms(loc)[0]

    def back_edge(self, loc):
        for k, c in self.conds(loc).items():
            core.CTX.check(f"{self.label}.preserved.{k}", c)
        core.CTX.check(f"{self.label}.terminates",
                       sym._num(loc[self.ints[0]]) < self.x0)
