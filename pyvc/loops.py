"""Invariants of while loops over numbers, guessed from templates and checked
(Houdini style)."""
import z3
from . import core, sym
from .core import Restart, Unsupported
from .many import AllLoop, ForAll, Poison


def is_num(v):
    return isinstance(v, (sym.SInt, sym.SReal, int, float)) \
        and not isinstance(v, bool)


class NumLoop:
    """facts(nums) -> {label: term} are candidate invariants over the loop's
    numbers and the environment; `world` havocs the environment at the loop
    head; `after` states what must hold at every back edge."""
    ok = True

    def __init__(self, H, qual, names, loc, facts, world, after):
        self.H, self.qual, self.facts_of = H, qual, facts
        self.world, self.after = world, after
        self.loc = {n: loc[n] for n in names if n in loc}
        self.nums = [n for n in self.loc if is_num(self.loc[n])]
        self.now = {}

    def key(self, label):
        return ("while", self.qual, label)

    def facts(self, nums):
        return {self.key(k): t for k, t in self.facts_of(nums).items()}

    def dropped(self):
        return core.CTX.ex.dropped

    def holds(self, t):
        return t if isinstance(t, bool) else core.CTX.must(
            t.t if isinstance(t, sym.SBool) else t)

    def entry(self, loc):
        for k, t in self.facts({n: loc[n] for n in self.nums}).items():
            if k not in self.dropped() and not self.holds(t):
                self.dropped().add(k)

    def havoc(self, name, v):
        if name in self.nums:
            x = core.CTX.name("loop_" + name)
            self.now[name] = sym.SInt(z3.Int(x)) if isinstance(
                v, (int, sym.SInt)) and not self.real(name) \
                else sym.SReal(z3.Real(x))
            return self.now[name]
        if self.key("var " + name) in self.dropped():
            return Poison(name)
        return v

    def real(self, name):
        return self.key("real " + name) in self.dropped()

    def assume(self, loc):
        c = core.CTX
        c.approximate("loop invariant")
        self.world()
        for k, t in self.facts(self.now).items():
            if k not in self.dropped():
                self.H.assume(t)

    def back_edge(self, loc):
        bad = False
        for n, v in self.loc.items():
            if n in self.nums:
                if isinstance(loc.get(n), (float, sym.SReal)) and isinstance(
                        self.now[n], sym.SInt):
                    self.dropped().add(self.key("real " + n))
                    bad = True
            elif loc.get(n) is not v and self.key(
                    "var " + n) not in self.dropped():
                self.dropped().add(self.key("var " + n))
                bad = True
        if not bad:
            for k, t in self.facts({n: loc[n] for n in self.nums}).items():
                if k not in self.dropped() and not self.holds(t):
                    self.dropped().add(k)
                    bad = True
        if bad:
            core.CTX.stop(Restart())
        self.H.cover("loop_preserved")
        self.after()


@core.opaque
class SymRange:
    """range(...) with unknown bounds.  The harness' hook "range" gives the
    contract of one iteration, (H, after(i), frame(), seen): the ranges
    that were looped over are added to `seen`."""

    def __init__(self, *a):
        if len(a) > 2:
            core.CTX.stop(Unsupported("range with a step"))
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else a

    def size(self):
        n = self.hi - self.lo
        return sym.SInt(z3.If(sym._num(n) < 0, z3.IntVal(0), sym._num(n)))

    def _vc_len(self):
        return self.size()

    def _vc_loop(self, rt, qual, loc, names):
        h = rt.hooks.get("range")
        if h is None:
            core.CTX.stop(Unsupported("loop over a range of unknown length"))
        H, after, frame, seen = h
        seen.append(self)

        def make():
            i = sym.SInt(z3.Int(core.CTX.name("loop_index")))
            H.assume((i >= self.lo) & (i < self.hi))
            return i
        return AllLoop(ForAll(H, make, after, frame, "iteration"), qual, loc,
                       names)

    def __iter__(self):
        core.CTX.stop(Unsupported("native iteration over a range"))


class Cut:
    """A while loop one arbitrary iteration of which is followed: `same(loc)`
    says that the state at the back edge is one the arbitrary iteration
    started from.  A variable that an iteration changes is unknown at its
    start."""

    def __init__(self, H, qual, names, loc, same, between=lambda: None):
        self.H, self.qual, self.same = H, qual, same
        self.between = between
        self.loc = {n: loc[n] for n in names if n in loc}

    def key(self, n):
        return ("cut", self.qual, n)

    def entry(self, loc):
        pass

    def havoc(self, name, v):
        if self.key(name) in core.CTX.ex.dropped:
            return Poison(name)
        return v

    def assume(self, loc):
        self.between()

    def back_edge(self, loc):
        d = core.CTX.ex.dropped
        bad = False
        for n, v in self.loc.items():
            if loc.get(n) is not v and self.key(n) not in d:
                d.add(self.key(n))
                bad = True
        if bad:
            core.CTX.stop(Restart())
        if not self.same(loc):
            return True
        self.H.cover("loop_goes_on")
        return None
