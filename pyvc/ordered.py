"""Mappings from an unknown number of names to values, in the order in which
the names were put in, seen through one arbitrary name x.

A loop over such a mapping is cut.  An arbitrary iteration with a name other
than x must do to every mapping in reach what all iterations do: put in its
own name once, or leave it alone.  The iteration of x is followed exactly.
After the loop a mapping that was empty holds the same names in the order of
the loop."""
import sys
import z3
from . import core, rt, sym
from .core import PathEnd, Restart, Unsupported
from .many import Poison, contents, containers_kept

MISSING = object()


def stop(m):
    core.CTX.stop(Unsupported(m))


def given_names():
    """An unknown set of names."""
    f = z3.Function("name_is_given", sym.S, z3.BoolSort())
    return lambda k: sym.SBool(f(sym.sterm(k)))


def user_value(H, label):
    """A value that is no part of Pythagoras itself."""
    v = H.val(label)
    if H.sym:
        n = type_name(v)
        core.CTX.axiom(("user", label, n.t.get_id()), z3.And([
            n.t != z3.StringVal(own) for own in
            ("sortedkwargs", "purefncallsignature", "purefn")]))
    return v


def type_name(v):
    return v.__class__.__name__.lower()


class Theory:
    """has(k), any_value(k): whether a name is given and what with."""

    def __init__(self, H, x, has, x_value, any_value):
        self.H, self.x, self.has = H, x, has
        self.x_value, self.any_value = x_value, any_value
        self.number = H.int("number_of_names", 0)
        H.assume(H.implies(has(x), self.number > 0))
        Ordered.th = self

    def same(self, a, b):
        return core.CTX.must(sym.sterm(a) == sym.sterm(b))

    def other_name(self):
        k = self.H.text(core.CTX.name("other_name"))
        core.CTX.axiom(("other", k.t.get_id()), z3.And(
            self.has(k).t, k.t != sym.sterm(self.x)))
        return k


class Unknown:
    def __getattr__(self, n):
        if n.startswith("_") or not (hasattr(dict, n) or hasattr(list, n)
                                     or hasattr(set, n)):
            raise AttributeError(n)
        stop(f"{n} of a mapping of unknown size")


@core.opaque
class Ordered(Unknown):
    th = None
    __hash__ = None

    def __init__(self, *a, **k):
        self.state, self.order, self.entry = "empty", "sorted", MISSING
        self.writes, self.own = [], None
        if len(a) > 1:
            stop("construction of a mapping")
        self.update(*a, **k)

    @classmethod
    def full(cls, order, entry):
        out = Ordered()
        out.state, out.order, out.entry = "full", order, entry
        return out

    def copy(self):
        if self.state == "filling":
            stop("copy of a mapping that is being filled")
        out = Ordered()
        out.state, out.order, out.entry = self.state, self.order, self.entry
        return out
    _vc_kw = _vc_dict = __copy__ = copy

    # -- one name
    def __setitem__(self, k, v):
        if not isinstance(k, (str, sym.SStr)):
            stop("key of a mapping of names")
        if self.state == "filling":
            self.writes.append((k, v))
        elif self.state == "full" and self.th.same(k, self.th.x) and \
                self.entry is not MISSING:
            self.entry = v
        else:
            stop("a name is put into an unknown mapping")

    def has(self, k):
        if not isinstance(k, (str, sym.SStr)):
            return False
        if self.state == "empty":
            return False
        if self.state == "full":
            return self.th.has(k)
        for n, _ in self.writes:
            if self.th.same(n, k):
                return True
        if self.th.same(self.own, k):
            return False
        return stop("membership in a mapping that is being filled")

    _vc_contains = has

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if self.state == "filling":
            for n, v in reversed(self.writes):
                if self.th.same(n, k):
                    return v
            if self.before[0] != "full" or not self.th.same(k, self.own):
                stop("content of a mapping that is being filled")
            if self.th.same(k, self.th.x):
                return self.before[2]
            return self.th.any_value(k)
        if not self.has(k):
            raise KeyError(k)
        if self.th.same(k, self.th.x):
            return self.entry
        if core.CTX.decide(sym.sterm(k) == sym.sterm(self.th.x)):
            return self.entry
        return self.th.any_value(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    # -- all names
    def update(self, *a, **k):
        for d in a + (k,):
            if isinstance(d, (View, Pairs)):
                d = d._vc_dict()
            if not isinstance(d, Ordered) and not list(d):
                continue
            if not isinstance(d, Ordered) or d.state == "filling":
                stop("update of an unknown mapping")
            if d.state == "empty":
                continue
            if self.state != "empty":
                stop("update of an unknown mapping")
            self.state, self.order, self.entry = d.state, d.order, d.entry

    def __ior__(self, d):
        self.update(d)
        return self

    def keys(self):
        return View(self, "keys", self.order)

    def values(self):
        return View(self, "values", self.order)

    def items(self):
        return View(self, "items", self.order)

    def _vc_loop(self, rt_, qual, loc, names):
        return self.keys()._vc_loop(rt_, qual, loc, names)

    def _vc_comp(self, kind, f, cond, flat):
        return self.keys()._vc_comp(kind, f, cond, flat)

    def _vc_sorted(self, key, reverse):
        return self.keys()._vc_sorted(key, reverse)

    def _vc_list(self):
        return self.keys()

    def _vc_len(self):
        if self.state == "filling":
            stop("size of a mapping that is being filled")
        if self.state == "empty":
            return 0
        return self.th.number

    def _vc_content(self):
        """What is known of the content: the order and what x stands for.
        Equal for two mappings iff they agree in that, for an arbitrary x."""
        if self.state == "filling":
            stop("content of a mapping that is being filled")
        if self.state == "full" and self.entry is MISSING:
            stop("content of a mapping without x")
        return sym.content((type(self).__name__, self.state, self.order)
                           + ((self.entry,) if self.state == "full" else ()))

    def _vc_frozen(self):
        out = self.copy()
        out.__class__ = type(self)
        return out

    def __bool__(self):
        return bool(self._vc_len() != 0)

    def _stop(self, *a, **k):
        stop("the content of an unknown mapping")
    __iter__ = __len__ = __eq__ = pop = popitem = clear = setdefault = \
        __delitem__ = __or__ = _stop


@core.opaque
class View(Unknown):
    """Names, values or pairs of a mapping in some order."""

    def __init__(self, of, kind, order):
        self.of, self.kind, self.order = of, kind, order
        if of.state == "filling":
            stop("view of a mapping that is being filled")

    def element(self, k):
        if self.kind == "keys":
            return k
        v = self.of[k]
        return v if self.kind == "values" else (k, v)

    def _vc_sorted(self, key, reverse):
        if self.kind == "values":
            stop("sorted values")
        out = self._vc_list()
        out.sort(key, reverse)
        return out

    def sort(self, key=None, reverse=False):
        if self.kind == "values":
            stop("sorted values")
        if key is not None and not reverse:
            k = self.of.th.other_name()
            try:
                r = key(self.element(k))
            except Exception:
                stop("order by a key")
            key = None if isinstance(r, (str, sym.SStr)) and \
                self.of.th.same(r, k) else key
            if key is not None:
                core.CTX.approximate("order by a key")
        self.order = "sorted" if key is None and not reverse else "other"

    def _vc_reversed(self):
        return View(self.of, self.kind, "other")

    def _vc_list(self):
        return View(self.of, self.kind, self.order)
    _vc_tuple = _vc_list

    def _vc_set(self):
        return View(self.of, self.kind, "other")

    def _vc_dict(self):
        if self.kind != "items":
            stop("mapping from a view")
        out = self.of.copy()
        out.order = self.order
        return out

    def _vc_contains(self, k):
        return self.of.has(k)

    def __contains__(self, k):
        return k in self.of

    def _vc_len(self):
        return self.of._vc_len()

    def __iter__(self):
        stop("native loop over an unknown mapping")

    def _vc_loop(self, rt_, qual, loc, names):
        if self.of.state == "empty":
            return rt.Loop([])
        return OrderedLoop(self, qual, loc, names)

    def _vc_comp(self, kind, f, cond, flat):
        if cond is not None or kind == "set":
            stop("comprehension over an unknown mapping")
        if kind == "gen":
            return Pairs(self, f, flat)
        if kind == "list":
            stop("list of the elements of an unknown mapping")
        out = Ordered()
        if self.of.state == "empty":
            return out
        th, c = self.of.th, core.CTX

        def one(k):
            x = self.element(k)
            n, v = f(x) if flat else f(*x)
            th.H.check("comprehension_keeps_the_names",
                       isinstance(n, (str, sym.SStr)) and th.same(n, k))
            return v
        w = c.choose(3, "names of a comprehension")
        if w == 0:
            one(th.other_name())
            c.stop(PathEnd())
        out.state, out.order = "full", self.order
        if w == 1:
            th.H.assume(~th.has(th.x))
        else:
            th.H.assume(th.has(th.x))
            out.entry = one(th.x)
        return out


@core.opaque
class Pairs(Unknown):
    """A generator of pairs over an unknown mapping."""

    def __init__(self, view, f, flat):
        self.view, self.f, self.flat = view, f, flat

    def _vc_dict(self):
        return self.view._vc_comp("dict", self.f, None, self.flat)

    def test(self, k):
        x = self.view.element(k)
        return bool(self.f(x) if self.flat else self.f(*x))

    def _some(self, want):
        c, th = core.CTX, self.view.of.th
        w = c.choose(3, "names of a generator")
        if w == 0:
            th.H.assume(self.test(th.other_name()) == want)
            return True
        if bool(th.has(th.x)):
            th.H.assume((self.test(th.x) == want) == (w == 1))
        else:
            th.H.assume(w == 2)
        return w == 1

    def _vc_any(self):
        return self._some(True)

    def _vc_all(self):
        return not self._some(False)

    def __iter__(self):
        stop("native loop over an unknown mapping")


class OrderedLoop:
    cut, again = True, False

    def __init__(self, view, qual, loc, names):
        self.view, self.qual = view, qual
        self.loc = {n: loc[n] for n in names if n in loc}

    def key(self, *n):
        return ("ordered", self.qual) + n

    def hv(self, name, v):
        if self.key("var", name) in core.CTX.ex.dropped:
            return Poison(name)
        return v

    def targets(self, loc):
        out = []
        for n, v in sorted(loc.items()):
            if isinstance(v, Ordered) and v is not self.view.of and all(
                    v is not w for _, w in out):
                out.append((n, v))
        return out

    def begin(self, loc, k):
        for _, t in self.targets(loc):
            if t.state == "filling":
                stop("loops inside one another")
            t.before = (t.state, t.order, t.entry)
            t.state, t.own, t.writes = "filling", k, []
        self.held = contents(loc)

    def end(self, loc, k):
        """What the iteration did to every mapping."""
        c = core.CTX
        containers_kept(self.held)
        bad = False
        for n, v in self.loc.items():
            if loc.get(n) is not v and self.key("var", n) not in c.ex.dropped:
                c.ex.dropped.add(self.key("var", n))
                bad = True
        done = []
        for n, t in self.targets(loc):
            once = len(t.writes) == 1 and self.view.of.th.same(
                t.writes[0][0], k)
            for fact, true in (("filled", once), ("alone", not t.writes)):
                if not true and self.key(fact, n) not in c.ex.dropped:
                    c.ex.dropped.add(self.key(fact, n))
                    bad = True
            done.append((n, t))
        if bad:
            c.stop(Restart())
        for n, t in done:
            if self.fact("filled", n) or self.fact("alone", n):
                continue
            c.approximate("names are treated differently")
            self.view.of.th.H.check("every_name_is_treated_alike", False, n)
            c.stop(PathEnd())
        return done

    def fact(self, f, n):
        return self.key(f, n) not in core.CTX.ex.dropped

    def __iter__(self):
        c, th = core.CTX, self.view.of.th
        w = c.choose(3, "names of a loop")
        if w == 0:
            k = th.other_name()
            loc = sys._getframe(1).f_locals
            self.begin(loc, k)
            yield self.view.element(k)
            self.end(sys._getframe(1).f_locals, k)
            c.stop(PathEnd())
        loc = sys._getframe(1).f_locals
        if w == 1:
            th.H.assume(~th.has(th.x))
            for n, t in self.targets(loc):
                if not self.fact("alone", n):
                    self.fill(t, MISSING)
            return
        th.H.assume(th.has(th.x))
        self.begin(loc, th.x)
        yield self.view.element(th.x)
        for n, t in self.end(sys._getframe(1).f_locals, th.x):
            t.state, t.order, t.entry = t.before
            if not self.fact("alone", n):
                self.fill(t, t.writes[0][1])

    def fill(self, t, entry):
        if t.state == "full":
            t.entry = entry
        elif t.state == "empty":
            t.state, t.order, t.entry = "full", self.view.order, entry
        else:
            stop("filling a mapping")
