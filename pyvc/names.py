"""Sets of names seen through one arbitrary name, abstract syntax trees of
unknown size, and the induction rules for visitors over them.

A `NameSet` knows whether it contains the tracked name x (an arbitrary text).
An `Abs` node stands for any subtree, or any sequence of subtrees, with given
features; visiting it applies the induction hypothesis.  A `for` loop over an
`AbsList` is cut, with an invariant found among candidate facts (Houdini).
"""
import ast
import sys
import z3
from . import core, sym
from .core import PathEnd, Unsupported, Restart
from .many import Poison


def stop(m):
    core.CTX.stop(Unsupported(m))


@core.opaque
class NameSet:
    x = None              # the tracked name (SStr)
    witness = False       # an empty test is answered for x: see DESIGN.md
    __hash__ = None

    def __init__(self, mem):
        self.mem = mem if z3.is_expr(mem) else z3.BoolVal(bool(mem))

    @classmethod
    def of(cls, xs):
        return cls(z3.Or([cls.x.t == sym.sterm(e) for e in xs
                          if e is not None] or [z3.BoolVal(False)]))

    @classmethod
    def lift(cls, o):
        if isinstance(o, NameSet):
            return o.mem
        if isinstance(o, AbsNames):
            return o.has
        if isinstance(o, (set, frozenset, list, tuple, dict)) or hasattr(
                o, "keys"):
            if all(type(e) is str or e is None or isinstance(e, sym.SStr)
                   for e in o):
                return cls.of(list(o)).mem
        return None

    def _bin(self, o, f):
        m = self.lift(o)
        if m is None:
            stop(f"set operation with a {type(o).__name__}")
        return z3.simplify(f(self.mem, m))

    def __or__(self, o):
        return NameSet(self._bin(o, z3.Or))
    __ror__ = union = __or__

    def __and__(self, o):
        return NameSet(self._bin(o, z3.And))
    __rand__ = intersection = __and__

    def __sub__(self, o):
        return NameSet(self._bin(o, lambda a, b: z3.And(a, z3.Not(b))))
    difference = __sub__

    def __rsub__(self, o):
        return NameSet(self._bin(o, lambda a, b: z3.And(b, z3.Not(a))))

    def __ior__(self, o):
        self.mem = self._bin(o, z3.Or)
        return self

    def __iand__(self, o):
        self.mem = self._bin(o, z3.And)
        return self

    def __isub__(self, o):
        self.mem = self._bin(o, lambda a, b: z3.And(a, z3.Not(b)))
        return self

    def update(self, *os):
        for o in os:
            self.__ior__(o)

    def difference_update(self, *os):
        for o in os:
            self.__isub__(o)

    def intersection_update(self, *os):
        for o in os:
            self.__iand__(o)

    def add(self, e):
        self.__ior__([e])

    def discard(self, e):
        self.__isub__([e])

    def copy(self):
        return NameSet(self.mem)
    _vc_set = copy

    def _vc_contains(self, e):
        if not isinstance(e, (str, sym.SStr)):
            return False
        if core.CTX.decide(self.x.t == sym.sterm(e)):
            return sym.SBool(self.mem)
        return sym.SBool(z3.Bool(core.CTX.name("other_name_in_set")))

    def _vc_len(self):
        n = z3.Int(core.CTX.name("number_of_names"))
        core.CTX.add(n >= 0)
        core.CTX.add(((n == 0) == z3.Not(self.mem)) if NameSet.witness
                     else z3.Implies(n == 0, z3.Not(self.mem)))
        return sym.SInt(n)

    def __len__(self):
        stop("native len of a set of names")

    def __bool__(self):
        return bool(self._vc_len() != 0)

    def _vc_str(self):
        return "<names>"

    def __str__(self):
        return "<names>"
    __repr__ = __str__

    def __format__(self, spec):
        return "<names>"

    def __iter__(self):
        stop("iteration over a set of names")

    def _vc_sorted(self, key, reverse):
        stop("sorting a set of names")


class AbsNames(list):
    """A list of names of unknown size."""

    def __init__(self, has):
        super().__init__()
        self.has = has

    def _vc_set(self):
        return NameSet(self.has)

    def _vc_loop(self, rt, qual, loc, names):
        stop("loop over a list of names")

    def _vc_contains(self, e):
        return NameSet(self.has)._vc_contains(e)

    def _vc_len(self):
        stop("number of names")


class Abs(ast.expr):
    """Any subtree (or sequence of subtrees) with these features."""
    _fields = ()

    def __init__(self, feat, sort):
        super().__init__()
        self.feat, self.sort = feat, sort


class AbsList(list):
    """Any number of nodes; `make` builds an arbitrary one, whose features
    imply those of the list."""

    def __init__(self, feat, sort, make, label):
        agg = Abs(feat, sort)
        super().__init__([agg])
        self.agg, self.feat, self.sort, self.label = agg, feat, sort, label
        self.makes = [make]

    def __add__(self, o):
        if not isinstance(o, AbsList):
            if o == []:
                return self
            stop("list concatenation")
        r = AbsList({k: z3.Or(self.feat[k], o.feat[k]) for k in self.feat},
                    self.sort, None, self.label)
        r.makes = self.makes + o.makes
        return r

    def _vc_loop(self, rt, qual, loc, names):
        return AbsLoop(self, qual, loc, names)

    def _vc_len(self):
        stop("number of nodes")

    def _vc_comp(self, *a):
        stop("comprehension over nodes")

    def __getitem__(self, k):
        stop("element of a list of nodes")


class AbsLoop:
    """The loop rule.  `AbsLoop.theory` describes the state: objects(loc),
    havoc(obj), facts(before, after, feat) -> {candidate: term}, read(obj)."""
    cut, again = True, False
    theory = None

    def __init__(self, lst, qual, loc, names):
        self.lst, self.qual = lst, qual
        self.loc = {n: loc[n] for n in names if n in loc}
        self.objs = self.theory.objects(loc)

    def key(self, n):
        return (self.qual, self.lst.label, n)

    def hv(self, name, v):
        if self.key("var " + name) in core.CTX.ex.dropped:
            return Poison(name)
        return v

    def candidates(self, before, after, feat):
        out = {}
        for i, (b, a) in enumerate(zip(before, after)):
            for k, t in self.theory.facts(b, a, feat).items():
                out[self.key(f"{i} {k}")] = t
        return out

    def jump(self, before, feat):
        """An arbitrary state satisfying the remaining candidates."""
        c = core.CTX
        for o in self.objs:
            self.theory.havoc(o)
        now = [self.theory.read(o) for o in self.objs]
        for k, t in self.candidates(before, now, feat).items():
            if k not in c.ex.dropped:
                c.add(t)
        if not c.feasible():
            c.stop(PathEnd())

    def __iter__(self):
        c = core.CTX
        th = self.theory
        before = [th.read(o) for o in self.objs]
        F = self.lst.feat
        if c.choose(2, "loop over " + self.lst.label) == 0:
            self.jump(before, F)
            return
        seen = {}
        for k in F:
            seen[k] = z3.Bool(c.name("seen_" + k))
            c.add(z3.Implies(seen[k], F[k]))
        self.jump(before, seen)
        m = self.lst.makes
        i = c.choose(len(m), "part") if len(m) > 1 else 0
        x, fx = m[i]()
        for k in F:
            c.add(z3.Implies(fx[k], F[k]))
        if not c.feasible():
            c.stop(PathEnd())
        yield x
        now_loc = sys._getframe(1).f_locals
        bad = False
        for n, v in self.loc.items():
            if now_loc.get(n) is not v and \
                    self.key("var " + n) not in c.ex.dropped:
                c.ex.dropped.add(self.key("var " + n))
                bad = True
        now = [th.read(o) for o in self.objs]
        both = {k: z3.Or(seen[k], fx[k]) for k in F}
        for k, t in self.candidates(before, now, both).items():
            if k not in c.ex.dropped and not c.must(t):
                c.ex.dropped.add(k)
                bad = True
        if bad:
            c.stop(Restart())
        c.stop(PathEnd())
