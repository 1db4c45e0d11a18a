"""What harnesses (props/Cxx.py) are written against.

A harness is one piece of Python that states contracts over the real code.  It
runs in three modes:
  symbolic   inputs are arbitrary, obligations are discharged by the solver;
  replay     inputs and choices of a counterexample, on the untransformed code
             under CPython;
  concrete   random inputs and choices on the untransformed code (a bounded
             cross-check of the verifier, never counted as proof).
"""
import random
import re
import traceback
import z3
from . import core, ghost, rt, sym, world
from .core import EngineSignal, PathEnd, Unsupported
from .sym import SBool, SInt, SReal, SStr, SVal

REGISTRY = {}

# distinct ordinary values; every two differ in type or content
POOL = ["alpha", 17, (1, "b"), [3, 4], {"k": 5}, 2.5, None, b"xy", "beta", 18,
        (1, "c"), [3, 5], {"k": 6}, 3.5, b"xz", {1, 2}, True, [], {}, "",
        ("deep", [1, {"q": (2, None)}])]


class Spec:
    def __init__(self, fn, prop, bound, contracts, replay, random):
        self.fn, self.prop, self.bound = fn, prop, bound
        self.name = fn.__name__
        self.contracts = contracts
        self.replay = replay
        self.random = random
        self.doc = " ".join((fn.__doc__ or "").split())


def harness(prop, bound="", contracts=("signature", "env"), replay=True,
            random=True):
    """bound: "" when the harness covers every input, otherwise what is
    bounded.  random: also run in concrete mode."""
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Spec(fn, prop, bound, contracts, replay, random))
        return fn
    return deco


class Failed(Exception):
    pass


class ConcreteCtx:
    concrete = True

    def __init__(self, rng, inputs=None, choices=None):
        self.rng = rng
        self.inputs = dict(inputs) if inputs is not None else {}
        self.replaying = inputs is not None
        self.choices = list(choices or [])
        self.fails = []
        self.checked = 0
        self.covers = set()
        self.signal = None
        self.trace = []
        self.used = {}
        self.ex = self
        self.assumed = set()
        self.functions = set()

    def stop(self, sig):
        if self.signal is None:
            self.signal = sig
        raise sig

    def alive(self):
        if self.signal is not None:
            raise self.signal

    def decide(self, c):
        return bool(c)

    def must(self, c):
        return bool(c)

    def approximate(self, what):
        pass

    def axiom(self, k, c):
        pass

    def choose(self, n, label=""):
        d = None
        if self.replaying:
            if self.choices and self.choices[0][0] == (label or "choice"):
                d = min(self.choices.pop(0)[1], n - 1)
            else:
                d = 0
        else:
            d = self.rng.randrange(n)
        self.trace.append(f"{label or 'choice'}={d}")
        return d

    def assume(self, c):
        if not c:
            self.stop(PathEnd())

    def check(self, name, c, info=""):
        self.alive()
        self.checked += 1
        if not c:
            self.fails.append(dict(obligation=name, info=str(info)[:2000]))
            self.stop(PathEnd())
        return True

    def cover(self, name):
        self.covers.add(name)


class H:
    """Harness services."""

    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.spec = spec
        self.sym = not ctx.concrete
        self.env = ghost.Env(ctx.concrete, getattr(ctx, "rng", None))
        self.hooks = self.env.hooks
        self.world = (world.World if self.sym else world.ConcreteWorld)(
            self.env)
        self._pth = None

    # -- code under verification
    @property
    def small(self):
        """Sizes and choices of a symbolic run, also when one is replayed."""
        return self.sym or self.ctx.replaying

    @property
    def pth(self):
        if self._pth is None:
            self._pth = self.world.start()
            if self.sym:
                for c in self.spec.contracts:
                    getattr(self, "_contract_" + c)()
        return self._pth

    def mod(self, name):
        self.pth
        return self.world.modules["pythagoras." + name]

    def get(self, modname, name):
        """A function of the code; undecided if it is not there any more."""
        self.pth
        m = self.world.modules.get("pythagoras." + modname)
        if m is None or not hasattr(m, name):
            self.ctx.stop(Unsupported(f"{modname}.{name} not found"))
        return getattr(m, name)

    def contract(self, modname, name, fn):
        return self.world.contract("pythagoras." + modname, name, fn)

    def _contract_signature(self):
        self.contract("_820_strings_signatures_converters.hash_signatures",
                      "get_hash_signature", ghost.signature_contract)

    def _contract_randsig(self):
        """get_random_signature: some text, different each time."""
        given = []

        def f():
            x = self.safe_text("random_signature")
            for y in given:
                self.assume(~self.eq(x, y))
            given.append(x)
            return x
        self.contract("_820_strings_signatures_converters.random_signatures",
                      "get_random_signature", f)

    def _contract_env(self):
        """build_execution_environment_summary: some dictionary."""
        def f():
            return {"hostname": "host", "pid": 1}
        self.contract("_020_logging_portals.execution_environment_summary",
                      "build_execution_environment_summary", f)

    def _contract_source(self):
        pass

    # -- inputs
    def _fresh(self, name):
        if self.sym:
            return self.ctx.name(name)
        n = self.ctx.used.get(name, 0)
        self.ctx.used[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    def val(self, name, features=False, among=None):
        """An arbitrary value."""
        name = self._fresh(name)
        if self.sym:
            return self.ctx.input(name, SVal(z3.Const(name, sym.Val), name,
                                             features))
        if name in self.ctx.inputs:
            v = self.ctx.inputs[name]
            if isinstance(v, str) and "!" in v:
                return _copy(POOL[int(v.rsplit("!", 1)[1]) % len(POOL)])
        return _copy(self.ctx.rng.choice(among or POOL))

    def int(self, name, lo=None, hi=None):
        name = self._fresh(name)
        if self.sym:
            x = self.ctx.input(name, SInt(z3.Int(name)))
            if lo is not None:
                self.ctx.add(x.t >= lo)
            if hi is not None:
                self.ctx.add(x.t <= hi)
            return x
        if isinstance(self.ctx.inputs.get(name), int):
            return self.ctx.inputs[name]
        r = self.ctx.rng
        a = lo if lo is not None else -(10 ** 6)
        b = hi if hi is not None else a + r.choice([3, 100, 10 ** 6, 2 ** 70])
        return r.choice([a, b, r.randint(a, b), r.randint(a, min(b, a + 5))])

    def real(self, name, lo=None, hi=None, strict_hi=False):
        name = self._fresh(name)
        if self.sym:
            x = self.ctx.input(name, SReal(z3.Real(name)))
            if lo is not None:
                self.ctx.add(x.t >= sym._num(lo))
            if hi is not None:
                self.ctx.add(x.t < sym._num(hi) if strict_hi
                             else x.t <= sym._num(hi))
            return x
        v = self.ctx.inputs.get(name)
        if isinstance(v, (int, float)):
            return float(v)
        r = self.ctx.rng
        a = lo if lo is not None else -1000.0
        b = hi if hi is not None else a + 2000.0
        c = [a, r.uniform(a, b), a + (b - a) / 2]
        if not strict_hi:
            c.append(b)
        return float(r.choice(c))

    def bool(self, name):
        name = self._fresh(name)
        if self.sym:
            return self.ctx.input(name, SBool(z3.Bool(name)))
        if isinstance(self.ctx.inputs.get(name), bool):
            return self.ctx.inputs[name]
        return self.ctx.rng.random() < 0.5

    def text(self, name, fresh=False):
        """Any text."""
        name = self._fresh(name)
        if self.sym:
            return self.ctx.input(name, SStr(z3.String(name)))
        v = self.ctx.inputs.get(name)
        if isinstance(v, str):
            return v
        r = self.ctx.rng
        return "".join(r.choice("abcXYZ 01_\n{}%\\'\"é") for _ in range(
            r.randrange(6)))

    def safe_text(self, name):
        """A non-empty text of URL-safe characters."""
        name = self._fresh(name)
        if self.sym:
            x = self.ctx.input(name, SStr(z3.String(name), safe=True))
            self.ctx.add(z3.Length(x.t) > 0)
            return x
        v = self.ctx.inputs.get(name)
        if isinstance(v, str):
            out = "".join(c if c in ghost.SAFE else "u%x" % ord(c)
                          for c in v)
            return out or "u"
        r = self.ctx.rng
        return "".join(r.choice("abcdefghijkvwxyz01239") for _ in range(
            r.randint(1, 8)))

    def choose(self, n, label):
        return self.ctx.choose(n, label)

    def flag(self, label):
        return self.ctx.choose(2, label) == 1

    # -- statements
    def assume(self, c):
        if self.sym and isinstance(c, SBool):
            c = c.t
        self.ctx.assume(c)

    def check(self, name, c, info=""):
        if self.sym:
            if isinstance(c, SBool):
                c = c.t
            elif not isinstance(c, bool) and not z3.is_expr(c):
                c = bool(c)
            if c is False:
                # decided on the way: still a claim about this path
                pass
        self.ctx.check(f"{self.spec.prop}.{self.spec.name}.{name}", c, info)

    def cover(self, name):
        self.ctx.cover(f"{self.spec.name}.{name}")

    def same(self, a, b):
        """Equal type and content."""
        if self.sym:
            return sym.same(a, b)
        return concrete_same(a, b)

    def eq(self, a, b):
        """a == b as a claim, not a branch."""
        if self.sym and (getattr(type(a), "_vc_sym", False)
                         or getattr(type(b), "_vc_sym", False)):
            r = a == b
            return r
        return a == b

    def implies(self, a, b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            return SBool(z3.Implies(sym.bterm(a), sym.bterm(b)))
        return (not a) or bool(b)

    def all(self, *cs):
        if any(isinstance(c, SBool) for c in cs):
            return SBool(z3.And([sym.bterm(c) for c in cs]))
        return all(cs)

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)."""
        try:
            r = f(*a, **k)
        except EngineSignal:
            raise
        except BaseException as e:
            self.ctx.alive()
            return None, e
        self.ctx.alive()
        return r, None

    def ends(self, name, f, *a, **k):
        """The result of f, which must end: in concrete runs, within 5
        seconds of processor time."""
        if self.sym:
            return f(*a, **k)
        import signal

        class TooLong(BaseException):
            pass

        def stop(*_):
            late.append(1)
            signal.setitimer(signal.ITIMER_VIRTUAL, 1)  # if it is swallowed
            raise TooLong()
        old = signal.signal(signal.SIGVTALRM, stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, 5)
        late = []
        try:
            r = f(*a, **k)
            if late:
                raise TooLong()
        except TooLong:
            r = None
            self.check(name, False, "no end within 5 s of processor time")
            self.undecided("no result")
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        return r

    def undecided(self, why):
        self.ctx.stop(Unsupported(why))

    # -- storage
    def snapshot(self, root=None):
        """Everything stored (below root)."""
        return [(e.parts, e.ftype, e.blob) for e in self.env.fs.live
                if root is None or e.parts[:1] == (root,)]

    def stored(self, *parts, ftype=None):
        return [e for e in self.env.fs.live
                if (ftype is None or e.ftype == ftype)
                and len(e.parts) >= len(parts)
                and ghost.parts_equal(e.parts[:len(parts)], parts)]

    def thaw(self, e):
        return ghost.thaw(e.blob)


def _copy(v):
    import copy
    return copy.deepcopy(v)


def concrete_same(a, b):
    import joblib
    if type(a) is not type(b):
        return False
    try:
        if a is b:
            return True
        return joblib.hash(a) == joblib.hash(b)
    except Exception:
        return a == b


# ---------------------------------------------------------------- running
def run_symbolic(spec, deadline, max_paths=20000):
    ex = core.Explorer(deadline, max_paths)
    ex.errors = []

    def one(ctx):
        h = H(ctx, spec)
        try:
            try:
                spec.fn(h)
            except EngineSignal:
                raise
            except Exception as e:
                ctx.alive()
                m = None
                if ctx.solver.check() == z3.unsat:
                    return
                try:
                    m = ctx.solver.model()
                except z3.Z3Exception:
                    pass
                rep = ctx.report(f"{spec.prop}.{spec.name}.no_exception",
                                 "".join(traceback.format_exception(e))[-1500:],
                                 m)
                ex.errors.append(rep)
                if len(ex.errors) > 5:
                    ctx.stop(Unsupported("exceptions in the harness"))
        finally:
            h.world.close()
    status = ex.run(one)
    return ex, status


def innermost_is_harness(e):
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return True
    if isinstance(e, (TypeError, AttributeError)) and "NoneType" in str(e) \
            and not re.search(r"\._[a-z]", tb[-1].line or "._a"):
        return False              # nothing was returned where a value is due
    return "/props/" in tb[-1].filename or "/pyvc/api" in tb[-1].filename


def run_concrete(spec, rng, inputs=None, choices=None):
    """Returns (ctx, status) - status: ok, end, undecided."""
    ctx = ConcreteCtx(rng, inputs, choices)
    core.CTX = ctx
    h = H(ctx, spec)
    status = "ok"
    try:
        try:
            spec.fn(h)
            ctx.alive()
        except Unsupported as s:
            status = "undecided: " + str(s)
        except EngineSignal:
            status = "end"
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if ctx.signal is not None:
                status = "end"
            elif innermost_is_harness(e):
                status = "undecided: harness " + repr(e)[:300]
            else:
                ctx.fails.append(dict(
                    obligation=f"{spec.prop}.{spec.name}.no_exception",
                    info="".join(traceback.format_exception(e))[-2000:]))
    finally:
        try:
            h.world.close()
        finally:
            core.CTX = None
    return ctx, status
