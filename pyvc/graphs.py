"""Sets of names and maps from names to such sets, of unknown content, for
code that explores a graph.

A set is a predicate over an uninterpreted sort, a map a domain and a relation.
A loop over a set visits its elements in an unknown order; every loop is cut,
with an invariant found among candidate facts (Houdini): inclusions between
the sets in scope, the rows of the graph and what was visited, and between the
rows of the maps in scope and of the graph.  All facts lie in the decidable
class of formulas whose only functions are constants.
"""
import sys
import z3
from . import core, sym
from .core import PathEnd, Restart, Unsupported
from .many import Poison

N = z3.DeclareSort("Name")
_x, _k = z3.Const("x!", N), z3.Const("k!", N)


def stop(m):
    core.CTX.stop(Unsupported(m))


def subset(p, q):
    return z3.ForAll([_x], z3.Implies(p(_x), q(_x)))


def rows(p, q, guard):
    return z3.ForAll([_k, _x], z3.Implies(z3.And(guard(_k), p(_k, _x)),
                                          q(_k, _x)))


def anything(*a):
    return z3.BoolVal(True)


def fresh_set(name):
    f = z3.Function(core.CTX.name("set_" + name), N, z3.BoolSort())
    return lambda x: f(x)


def fresh_rel(name):
    f = z3.Function(core.CTX.name("rows_" + name), N, N, z3.BoolSort())
    return lambda k, x: f(k, x)


class SName(sym.Sym):
    """A name."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return sym.SBool(self.t == o.t) if isinstance(o, SName) else False

    def __ne__(self, o):
        return sym.SBool(self.t != o.t) if isinstance(o, SName) else True
    __hash__ = sym.Sym.__hash__


class SFn(sym.Sym):
    """A function of the collection."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Size:
    """The number of elements of a finite set, compared with another one."""

    def __init__(self, p):
        self.p = p

    def _cmp(self, o):
        if not isinstance(o, Size):
            stop("size of a set of unknown content")
        c = core.CTX
        same = sym.SBool(z3.ForAll([_x], self.p(_x) == o.p(_x)))
        if c.must(subset(self.p, o.p)):
            return "<=", same
        if c.must(subset(o.p, self.p)):
            return ">=", same
        stop("sizes of unrelated sets")

    def __eq__(self, o):
        return self._cmp(o)[1]

    def __ne__(self, o):
        return ~self._cmp(o)[1]

    def __lt__(self, o):
        r, same = self._cmp(o)
        return ~same if r == "<=" else False

    def __gt__(self, o):
        r, same = self._cmp(o)
        return ~same if r == ">=" else False

    def __le__(self, o):
        r, same = self._cmp(o)
        return same if r == ">=" else True

    def __ge__(self, o):
        r, same = self._cmp(o)
        return same if r == "<=" else True
    __hash__ = None


@core.opaque
class FnSet:
    """A mutable set of names.  `home` is the (map, key) it is a row of."""
    __hash__ = None

    def __init__(self, G, pred, home=None):
        self.G, self._p, self.home = G, pred, home
        self.shared = self.frozen = self.stale = False

    @property
    def p(self):
        if self.stale:
            stop("a set that may have changed")
        if self.home:
            m, k = self.home
            rel = m.rel
            return lambda x: rel(k, x)
        return self._p

    def put(self, q):
        if self.shared or self.frozen or self.stale:
            stop("a set that is changed in two places")
        if self.home:
            m, k = self.home
            if m.aliased:
                stop("a row that is changed in two places")
            m.set_row(k, q)
        else:
            self._p = q

    def lift(self, o):
        p = self.G.lift(o)
        if p is None:
            stop(f"set operation with a {type(o).__name__}")
        return p

    def __or__(self, *os):
        ps = [self.p] + [self.lift(o) for o in os]
        return FnSet(self.G, lambda x: z3.Or([p(x) for p in ps]))
    __ror__ = union = __or__

    def __and__(self, *os):
        ps = [self.p] + [self.lift(o) for o in os]
        return FnSet(self.G, lambda x: z3.And([p(x) for p in ps]))
    __rand__ = intersection = __and__

    def __sub__(self, *os):
        p, ps = self.p, [self.lift(o) for o in os]
        return FnSet(self.G, lambda x: z3.And(
            [p(x)] + [z3.Not(q(x)) for q in ps]))
    difference = __sub__

    def __rsub__(self, o):
        return FnSet(self.G, self.lift(o)) - self

    def update(self, *os):
        self.put((self.__or__(*os)).p)

    def intersection_update(self, *os):
        self.put((self.__and__(*os)).p)

    def difference_update(self, *os):
        self.put((self.__sub__(*os)).p)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def add(self, e):
        self.update([e])

    def discard(self, e):
        self.difference_update([e])

    def remove(self, e):
        if not core.CTX.decide(self.p(e.t)):
            raise KeyError(e)
        self.discard(e)

    def clear(self):
        self.put(lambda x: z3.BoolVal(False))

    def pop(self):
        if not self:
            raise KeyError("pop from an empty set")
        e = z3.Const(core.CTX.name("popped"), N)
        core.CTX.add(self.p(e))
        self.discard(SName(e))
        return SName(e)

    def copy(self):
        return FnSet(self.G, self.p)
    _vc_set = _vc_list = _vc_iter = copy

    def _vc_sorted(self, key, reverse):
        return self.copy()

    def _vc_contains(self, e):
        if not isinstance(e, SName):
            stop("search in a set of names")
        return sym.SBool(self.p(e.t))

    def __contains__(self, e):
        return bool(self._vc_contains(e))

    def _vc_len(self):
        return Size(self.p)

    def __bool__(self):
        return core.CTX.decide(z3.Exists([_x], self.p(_x)))

    def __eq__(self, o):
        q = self.lift(o)
        return sym.SBool(z3.ForAll([_x], self.p(_x) == q(_x)))

    def __ne__(self, o):
        return ~(self == o)

    def __le__(self, o):
        return sym.SBool(subset(self.p, self.lift(o)))
    issubset = __le__

    def __ge__(self, o):
        return sym.SBool(subset(self.lift(o), self.p))
    issuperset = __ge__

    def __lt__(self, o):
        return (self <= o) & ~(self == o)

    def __gt__(self, o):
        return (self >= o) & ~(self == o)

    def isdisjoint(self, o):
        q = self.lift(o)
        return sym.SBool(z3.ForAll([_x], z3.Not(z3.And(self.p(_x), q(_x)))))

    def _vc_loop(self, rt, qual, loc, names):
        return SetLoop(self.G, self.p, SName, qual, loc, names)

    def _stop(self, *a):
        stop("native use of a set of names")
    __iter__ = __len__ = _stop


@core.opaque
class FnMap:
    """A mutable map from names to sets of names."""
    __hash__ = None

    def __init__(self, G, dom, rel):
        self.G, self.dom, self.rel = G, dom, rel
        self.aliased = False
        self.watch = []           # sets that were rows of it

    def changed(self):
        for s in self.watch:
            s.stale = True
        self.watch = []

    def set_row(self, k, q):
        dom, rel = self.dom, self.rel
        self.changed()
        self.dom = lambda y: z3.Or(y == k, dom(y))
        self.rel = lambda y, x: z3.If(y == k, q(x), rel(y, x))
        self.G.lemma(k, q)

    def __getitem__(self, k):
        if not isinstance(k, SName):
            stop("key of a map of names")
        if not core.CTX.decide(self.dom(k.t)):
            raise KeyError(k)
        return FnSet(self.G, None, (self, k.t))

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __setitem__(self, k, v):
        if not isinstance(k, SName):
            stop("key of a map of names")
        p = self.G.lift(v)
        if p is None:
            stop("row of a map of names")
        if isinstance(v, FnSet):
            if v.home and v.home[0] is self and z3.eq(v.home[1], k.t):
                return
            v.shared = True
            if v.home or v.frozen:
                v.home and v.home[0] and setattr(v.home[0], "aliased", True)
                self.aliased = True
        self.aliased = True
        self.set_row(k.t, p)

    def update(self, o):
        if type(o) is dict and not o:
            return
        if not isinstance(o, FnMap):
            stop("update of a map of names")
        dom, rel, d2, r2 = self.dom, self.rel, o.dom, o.rel
        self.changed()
        self.aliased = self.aliased or o.aliased
        o.aliased = True
        self.dom = lambda y: z3.Or(dom(y), d2(y))
        self.rel = lambda y, x: z3.If(d2(y), r2(y, x), rel(y, x))

    def __ior__(self, o):
        self.update(o)
        return self

    def keys(self):
        return FnSet(self.G, self.dom)
    _vc_set = _vc_list = _vc_iter = keys

    def _vc_sorted(self, key, reverse):
        return self.keys()

    def _vc_dict(self):
        self.aliased = True
        out = FnMap(self.G, self.dom, self.rel)
        out.aliased = True
        return out
    copy = _vc_dict

    def _vc_contains(self, k):
        return self.keys()._vc_contains(k)

    def _vc_len(self):
        return Size(self.dom)

    def _vc_loop(self, rt, qual, loc, names):
        return SetLoop(self.G, self.dom, SName, qual, loc, names)

    def _vc_comp(self, kind, f, cond, flat):
        stop("comprehension over a map of names")

    def _stop(self, *a):
        stop("native use of a map of names")
    __iter__ = __len__ = __bool__ = items = values = pop = __delitem__ = \
        setdefault = popitem = clear = __or__ = __eq__ = _stop


@core.opaque
class FnList:
    """The collection of functions, in an unknown order."""

    def __init__(self, G):
        self.G = G

    def _vc_loop(self, rt, qual, loc, names):
        return SetLoop(self.G, self.G.F, SFn, qual, loc, names)

    def _vc_list(self):
        return self

    def _vc_set(self):
        return self
    _vc_iter = _vc_list

    def __iter__(self):
        stop("native iteration over the functions")
    __len__ = __bool__ = __getitem__ = __iter__


@core.opaque
class Graph:
    """Functions F with references E0 (each refers to itself); E are those
    within F; R is the reflexive transitive closure of E: the least relation
    with the properties asserted here (see lemma)."""

    def __init__(self, H):
        self.H = H
        c = core.CTX
        b = z3.BoolSort()
        F = z3.Function("function", N, b)
        E0 = z3.Function("refers", N, N, b)
        R = z3.Function("reaches", N, N, b)
        self.F = lambda x: F(x)
        self.E0 = lambda k, x: E0(k, x)
        self.E = lambda k, x: z3.And(F(k), F(x), E0(k, x))
        self.R = lambda k, x: R(k, x)
        y = z3.Const("y!", N)
        c.add(z3.ForAll([_k], z3.Implies(F(_k), z3.And(E0(_k, _k),
                                                       R(_k, _k)))))
        c.add(z3.ForAll([_k, _x], z3.Implies(R(_k, _x), z3.And(F(_k),
                                                               F(_x)))))
        c.add(rows(self.E, self.R, anything))
        c.add(z3.ForAll([_k, _x, y], z3.Implies(z3.And(R(_k, _x), R(_x, y)),
                                                R(_k, y))))
        self.marks = []           # what enclosing loops have visited

    def lift(self, o):
        if isinstance(o, FnSet):
            return o.p
        if isinstance(o, FnMap):
            return o.dom
        if isinstance(o, (set, frozenset, list, tuple)):
            es = list(o)
            if all(isinstance(e, SName) for e in es):
                return lambda x: z3.Or([x == e.t for e in es]
                                       or [z3.BoolVal(False)])
        return None

    def lemma(self, k, q):
        """R(k) is in every set that holds k and is closed under E."""
        y = z3.Const("y!", N)
        closed = z3.ForAll([_x, y], z3.Implies(z3.And(
            q(_x), self.E(_x, y)), q(y)))
        core.CTX.add(z3.Implies(z3.And(q(k), closed), z3.ForAll(
            [_x], z3.Implies(self.R(k, _x), q(_x)))))

    def empty_map(self):
        return FnMap(self, lambda k: z3.BoolVal(False),
                     lambda k, x: z3.BoolVal(False))

    def set_of(self, xs):
        p = self.lift(list(xs))
        if p is None:
            stop("set of symbolic values")
        return FnSet(self, p)

    def functions(self):
        return FnList(self)

    def references(self, f):
        """The contract of get_referenced_names."""
        k = f.t
        return FnMap(self, lambda y: y == k, lambda y, x: z3.And(
            y == k, self.E0(y, x)))

    def install(self):
        h = self.H.world.hooks
        h["set"] = self.set_of
        h["empty_dict"] = self.empty_map
        h["empty_set"] = lambda: self.set_of([])
        h["while"] = self.whileloop

    def judge(self, got, rel):
        """The outcome is the map from every function to its row of rel."""
        H = self.H
        if not isinstance(got, FnMap):
            H.undecided("the outcome is no map of names")
        B = sym.SBool
        H.check("exactly_the_functions", B(z3.ForAll(
            [_k], got.dom(_k) == self.F(_k))))
        H.check("only_those", B(rows(got.rel, rel, self.F)))
        H.check("all_of_those", B(rows(rel, got.rel, self.F)))

    def whileloop(self, qual, names, loc):
        if any(isinstance(v, (FnSet, FnMap)) for v in loc.values()):
            return GraphWhile(self, qual, names, loc)
        return None


class Cutting:
    """A cut loop: candidate facts, what changes, the checks."""

    def setup(self, G, qual, loc, names, line, iterated):
        self.G, self.names = G, names
        self.at = (qual, line)
        self.iterated = iterated
        self.loc = dict(loc)
        self.sets = {n: v for n, v in loc.items() if isinstance(v, FnSet)}
        self.maps = {n: v for n, v in loc.items() if isinstance(v, FnMap)}
        self.old_sets = {n: v.p for n, v in self.sets.items()
                         if not v.stale}
        self.old_maps = {n: (v.dom, v.rel) for n, v in self.maps.items()}
        self.alias = {n for n, v in self.sets.items()
                      if v.home or v.frozen or v.shared}
        for n, f in self.facts(loc, lambda x: z3.BoolVal(False)):
            if self.key(n) not in self.dropped() and not core.CTX.must(f):
                self.dropped().add(self.key(n))

    def dropped(self):
        return core.CTX.ex.dropped

    def key(self, n):
        return ("graph",) + self.at + (n,)

    def facts(self, loc, done):
        """Candidate facts about the variables now, at the loop head."""
        G = self.G
        sets = [(n, loc[n].p) for n in self.old_sets
                if isinstance(loc.get(n), FnSet) and not loc[n].stale]
        maps = [(n, loc[n]) for n in self.maps
                if isinstance(loc.get(n), FnMap)]
        names = [(n, v.t) for n, v in self.loc.items() if isinstance(
            v, SName) and loc.get(n) is v]
        rels = [(n, m.rel) for n, m in maps]
        hand = [("E", G.E), ("R", G.R), ("E0", G.E0)]
        doms = [("dom " + n, m.dom) for n, m in maps]
        fixed = [("F", G.F)] + [(f"visited {i}", p)
                                for i, p in enumerate(G.marks)]
        if self.iterated:
            fixed += [("done", done), ("all", self.iterated)]
        for n, t in names:
            fixed += [("E " + n, lambda x, t=t: G.E(t, x)),
                      ("R " + n, lambda x, t=t: G.R(t, x)),
                      ("just " + n, lambda x, t=t: x == t)]
        var = sets + doms
        for i, (a, p) in enumerate(var):
            for b, q in var[:i] + var[i + 1:] + fixed:
                yield f"{a} in {b}", subset(p, q)
            for b, q in fixed:
                yield f"{b} in {a}", subset(q, p)
        for n, p in self.old_sets.items():
            if n in dict(sets):
                yield f"{n} grew", subset(p, loc[n].p)
                yield f"{n} shrank", subset(loc[n].p, p)
        for n, (d, r) in self.old_maps.items():
            if n in dict(maps):
                yield f"dom {n} grew", subset(d, loc[n].dom)
                yield f"dom {n} shrank", subset(loc[n].dom, d)
                yield f"rows {n} grew", rows(r, loc[n].rel, anything)
                yield f"rows {n} shrank", rows(loc[n].rel, r, anything)
        guards = [("F", G.F), ("any", anything)]
        if self.iterated:
            guards.append(("done", done))
        for a, p in rels:
            for b, q in hand + [x for x in rels if x[0] != a]:
                for g, s in guards:
                    yield f"{a} in {b} on {g}", rows(p, q, s)
                    yield f"{b} in {a} on {g}", rows(q, p, s)
        if self.iterated:
            for a, p in rels + hand[:2]:
                for b, q in sets:
                    yield f"rows {a} of done in {b}", z3.ForAll(
                        [_k, _x], z3.Implies(z3.And(done(_k), p(_k, _x)),
                                             q(_x)))

    def hv(self, name, v):
        """A variable that the loop assigns."""
        if name in self.sets and isinstance(v, FnSet):
            out = FnSet(self.G, fresh_set(name))
            if name in self.alias or self.key("alias " + name) \
                    in self.dropped():
                out.frozen = True
                for m in self.maps.values():
                    m.watch.append(out)
            return out
        if isinstance(v, SName):
            return SName(z3.Const(core.CTX.name("any_" + name), N))
        if self.key("var " + name) in self.dropped():
            return Poison(name)
        return v

    def start(self, loc, done):
        """At the loop head of an arbitrary iteration, or after the loop."""
        c = core.CTX
        c.approximate("loop invariant")
        for n, v in self.sets.items():
            if loc.get(n) is v and not v.home and not v.stale:
                v._p = fresh_set(n)
        for n, m in self.maps.items():
            if loc.get(n) is m:
                m.dom, m.rel = fresh_set("dom_" + n), fresh_rel(n)
                m.aliased = m.aliased or self.key("aliased " + n) \
                    in self.dropped()
        for n, f in self.facts(loc, done):
            if self.key(n) not in self.dropped():
                c.add(f)
        self.head = {n: loc[n].p for n in self.sets
                     if isinstance(loc.get(n), FnSet) and not loc[n].stale}
        self.flags = {n: m.aliased for n, m in self.maps.items()}

    def finish(self, loc, done):
        """At the back edge."""
        bad = []
        for n in self.sets:
            v = loc.get(n)
            if not isinstance(v, FnSet):
                stop(f"variable {n} changes its type")
            if v.home or v.shared or v.frozen:
                if n in self.names and n not in self.alias:
                    bad.append("alias " + n)
        for n, m in self.maps.items():
            if loc.get(n) is not m:
                stop(f"variable {n} is replaced in a loop")
            if m.aliased != self.flags[n]:
                bad.append("aliased " + n)
        for n, v in self.loc.items():
            if n in self.sets or n in self.maps or isinstance(v, SName):
                continue
            if loc.get(n) is not v and not isinstance(v, Poison):
                bad.append("var " + n)
        bad = [b for b in bad if self.key(b) not in self.dropped()]
        if not bad:
            bad = [n for n, f in self.facts(loc, done)
                   if self.key(n) not in self.dropped()
                   and not core.CTX.must(f)]
        if bad:
            self.dropped().update(map(self.key, bad))
            core.CTX.stop(Restart())


class SetLoop(Cutting):
    cut, again = True, False

    def __init__(self, G, pred, wrap, qual, loc, names):
        f = sys._getframe(1)
        while "vc__" not in f.f_globals:
            f = f.f_back
        self.wrap, self.pred = wrap, pred
        self.setup(G, qual, loc, names, (f.f_code.co_name, f.f_lasti), pred)

    def __iter__(self):
        c, G = core.CTX, self.G
        fr = sys._getframe(1)
        if c.choose(2, "loop") == 0:
            self.start(fr.f_locals, self.pred)
            return
        d = fresh_set("done")
        c.add(subset(d, self.pred))
        self.start(fr.f_locals, d)
        e = z3.Const(c.name("element"), N)
        c.add(z3.And(self.pred(e), z3.Not(d(e))))
        c.assume(True)
        G.marks.append(d)
        yield self.wrap(e)
        G.marks.pop()
        self.finish(sys._getframe(1).f_locals,
                    lambda x: z3.Or(d(x), x == e))
        G.H.cover("loop_preserved")
        c.stop(PathEnd())


class GraphWhile(Cutting):
    def __init__(self, G, qual, names, loc):
        f = sys._getframe(1)
        while "vc__" not in f.f_globals:
            f = f.f_back
        self.line = (f.f_code.co_name, f.f_lasti)
        self.args = G, qual, names

    def entry(self, loc):
        G, qual, names = self.args
        self.setup(G, qual, loc, names, self.line, None)

    def havoc(self, name, v):
        return self.hv(name, v)

    def assume(self, loc):
        self.start(loc, None)

    def back_edge(self, loc):
        self.finish(loc, None)
        c = core.CTX
        ends = False
        for n, p in self.head.items():
            q = loc[n].p
            grows = z3.And(subset(p, q), z3.Exists([_x], z3.And(
                q(_x), z3.Not(p(_x)))), subset(q, self.G.F))
            shrinks = z3.And(subset(q, p), z3.Exists([_x], z3.And(
                p(_x), z3.Not(q(_x)))))
            if c.must(grows) or c.must(shrinks):
                ends = True
                break
        self.G.H.check("loop_ends", ends)
        self.G.H.cover("loop_goes_on")
