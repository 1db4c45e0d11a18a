"""Shared by the harnesses: portals, abstract function bodies, fake faults."""
import sys
import types
from pyvc import ghost


def root(name):
    return ghost.FileDirDict(name)


def portal(H, name, cls="PureCodePortal", **kw):
    return getattr(H.pth, cls)(root_dict=root(name), **kw)


class Bodies:
    """Function bodies whose behaviour is chosen by the harness.

    A declared function imports `pyvc_body` and calls back here, so it runs
    through the real registration, compilation and execution code."""

    def __init__(self, H):
        self.H = H
        self.calls = []           # (name, kwargs)
        self.do = {}              # name -> callable(kwargs)
        m = types.ModuleType("pyvc_body")
        m.call = self.call
        sys.modules["pyvc_body"] = m

    def call(self, name, kw):
        self.calls.append((name, dict(kw)))
        f = self.do.get(name)
        return f(kw) if f else None

    def count(self, name):
        return sum(n == name for n, _ in self.calls)

    @staticmethod
    def src(name, params=(), uses=(), pre=""):
        p = ", ".join(params)
        kw = ", ".join(f"{a}={a}" for a in (
            x.split("=")[0].strip() for x in params) if not a.startswith("*"))
        s = f"def {name}({p}):\n    import pyvc_body\n"
        for u in uses:
            s += f"    {u}\n"
        s += pre
        return s + f"    return pyvc_body.call('{name}', dict({kw}))\n"


class Outer:
    class Inner:
        """A user's class."""

        def __init__(self, x):
            self.x = x

        def __eq__(self, o):
            return type(self) is type(o) and self.x == o.x
        __hash__ = None


class Boom(Exception):
    pass


class Fatal(BaseException):
    pass


def some_exception(H, label="exception", note=False):
    k = H.choose(5 if not note else 6, label)
    e = [Boom("boom"), ValueError("v", 1), KeyboardInterrupt(),
         Fatal(), StopIteration(3), Boom("noted")][k]
    if k == 5:
        e.add_note("a note of the caller")
    return e


def faults(H, limit=1):
    """Storage writes may fail, at most `limit` times; returns the list of
    failures that happened."""
    happened = []

    def hook(op, d, path, *v):
        if op == "set" and len(happened) < limit and H.flag("fault"):
            happened.append(path)
            raise ghost.StorageFault("disk full")
    H.hooks["storage"] = hook
    return happened


def many_entered(H, p, entered, others, frame):
    """Any number of portals are entered, p among them or not.  Symbolically:
    the contract of _entered_portals (decided by C07) gives a list of unknown
    length in which p is followed and any other portal stands for the rest.
    Otherwise real portals are entered around p."""
    from pyvc.many import Witnessed
    B = H.pth.BasicPortal
    if H.sym:
        if not hasattr(B, "_entered_portals"):
            H.undecided("_entered_portals not found")
        many = Witnessed(H, [p] if entered else [], others, frame, "portal")

        def contract(expected_class=None):
            return many.copy()
        B._entered_portals = staticmethod(contract)
        H.ctx.ex.assumed.add("BasicPortal._entered_portals: any entered "
                             "portals (its contract is decided by C07)")
        return
    n = [5, 5] if H.ctx.replaying else [H.choose(6, "around") for _ in "ab"]
    for j in range(2):
        for i in range(n[j]):
            portal(H, f"other{j}{i}", type(p).__name__).__enter__()
        if j == 0 and entered:
            p.__enter__()


def many_known(H, own, others, rest, frame):
    """Any number of other portals is known.  Symbolically: the contract of
    _noncurrent_portals (decided by C07) gives, in place of the rest, any
    number of portals like the one that `rest()` gives."""
    from pyvc.many import Witnessed
    B = H.pth.BasicPortal
    if not hasattr(B, "_noncurrent_portals"):
        H.undecided("_noncurrent_portals not found")

    def contract(expected_class=None):
        cur = B.entered_portals_stack[-1] if B.entered_portals_stack else None
        known = [p for p in [own] + others if p is not cur]
        if len(known) > 1 and H.flag("other order"):
            known.reverse()
        return Witnessed(H, known, rest, frame, "known portal")
    B._noncurrent_portals = staticmethod(contract)

    class Registry(dict):
        """The register of all portals, of unknown size."""

        def _stop(self, *a):
            H.undecided("all known portals are looked at directly")
        __iter__ = __len__ = __reversed__ = values = items = keys = \
            copy = __or__ = __bool__ = __eq__ = _stop
        __hash__ = None
    B.all_portals = Registry(B.all_portals)
    H.ctx.ex.assumed.add("BasicPortal._noncurrent_portals: any known portals "
                         "but the current one (its contract is decided by "
                         "C07)")


def bystanders(H, name, cls):
    """In concrete runs: further portals."""
    n = 4 if H.ctx.replaying else H.choose(5, "around")
    return [portal(H, f"{name}{i}", cls) for i in range(n)]


def nearly_the_same_signatures(H):
    """Random signatures differ, but perhaps in two digits only."""
    digits = "0123456789abcdefghijklmnopqrstuv"
    base = ["7"] * 22
    i, j = (9, 14) if H.sym or H.ctx.replaying else H.ctx.rng.sample(range(22), 2)
    n = [0]

    def f():
        n[0] += 1
        base[i], base[j] = digits[n[0] % 32], digits[n[0] // 32 % 32]
        return "".join(base)
    orig = H.get("_820_strings_signatures_converters.random_signatures",
                 "get_random_signature")
    for m in H.world.modules.values():
        for k, v in list(vars(m).items()):
            if v is orig:
                setattr(m, k, f)
