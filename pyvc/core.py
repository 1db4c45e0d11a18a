"""Path contexts, obligations and the explorer (z3 back end).

The verifier explores every path of a harness by re-execution: a path is the
list of decisions taken at symbolic branches.  A branch is followed only if it
is feasible together with everything assumed so far, so the set of explored
paths covers all inputs.  Obligations are discharged path by path.
"""
import time
import z3

QUERY_MS = 6000
BRANCH_MS = 500     # an undecided branch is explored
CTX = None            # the current path (one per process)


def ctx():
    return CTX


class EngineSignal(BaseException):
    """Never handled by verified code."""


class PathEnd(EngineSignal):
    """The current path is finished (infeasible, or cut at a loop head)."""


class Unsupported(EngineSignal):
    """Something outside the verifier's reach: the harness is undecided."""


class Restart(EngineSignal):
    """Loop frames or invariants changed: explore again from scratch."""


class Deadline(EngineSignal):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0


STATS = Stats()


class Obligation:
    __slots__ = ("name", "checked", "discharged", "trivial", "fails",
                 "unknown", "notes")

    def __init__(self, name):
        self.name = name
        self.checked = self.discharged = self.trivial = 0
        self.fails = []
        self.unknown = 0
        self.notes = []


class Ctx:
    """One path."""
    concrete = False

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions = []
        self.labels = []
        self.pcs = []
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_MS)
        self.solver.set("random_seed", 0)
        self.fresh_n = {}
        self.inputs = {}      # name -> value/term, for counterexamples
        self.trace = []       # human-readable events
        self.approx = []      # over-approximations made on this path
        self.signal = None    # first engine signal raised on this path
        self.axioms_done = set()
        self.known = {}       # decided conditions (ids of simplified terms)
        self.keep = []        # keeps those terms alive
        self.steps = 0
        self.model = None     # satisfies everything assumed so far

    # -- signals
    def stop(self, sig):
        if self.signal is None:
            self.signal = sig
        raise sig

    def alive(self):
        if self.signal is not None:
            raise type(self.signal)(*self.signal.args)

    def approximate(self, what):
        if what not in self.approx:
            self.approx.append(what)

    # -- symbols
    def name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return base if n == 0 else f"{base}!{n}"

    def input(self, name, val):
        self.inputs[name] = val
        return val

    def last_part(self, parts):
        """Some text (an over-approximation)."""
        from . import sym
        self.approximate("last part of a text")
        return sym.SStr(z3.String(self.name("last_part")))

    # -- solver
    def _check(self, *extra):
        if time.time() > self.ex.deadline:
            self.stop(Deadline())
        t = time.time()
        r = self.solver.check(*extra)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        return r

    def add(self, c):
        self.pcs.append(c)
        self.solver.add(c)
        if self.model is not None and not self._in_model(c):
            self.model = None

    def _in_model(self, c):
        if isinstance(c, bool):
            return c
        try:
            return z3.is_true(self.model.eval(c, model_completion=True))
        except z3.Z3Exception:
            return False

    def _branch(self, c):
        """Is c possible?  Returns (answer, a model if there is one)."""
        if self.model is not None and self._in_model(c):
            return True, self.model
        self.solver.set("timeout", BRANCH_MS)
        r = self._check(c)
        self.solver.set("timeout", QUERY_MS)
        m = None
        if r == z3.sat:
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                pass
        return r != z3.unsat, m

    def axiom(self, key, c):
        """A fact about a term, added once per path."""
        if key in self.axioms_done:
            return
        self.axioms_done.add(key)
        self.add(c)

    def feasible(self, *extra):
        return self._check(*extra) != z3.unsat

    def must(self, c):
        """True if c is entailed (no forking, nothing recorded)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(c)) == z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        self.alive()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.known:
            return self.known[c.get_id()]
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i > 3000:
                self.stop(Unsupported("too many decisions on one path"))
            can_t, m_t = self._branch(c)
            can_f, m_f = self._branch(z3.Not(c))
            if can_t and can_f:
                self.ex.push(self.decisions + [False])
                d = True
                self.model = m_t
            elif can_t:
                d = True
                self.model = m_t
            elif can_f:
                d = False
                self.model = m_f
            else:
                self.stop(PathEnd())
        self.decisions.append(d)
        self.labels.append(None)
        n = z3.Not(c)
        self.add(c if d else n)
        self.known[c.get_id()] = d
        n = z3.simplify(n)
        self.known[n.get_id()] = not d
        self.keep.append((c, n))
        return d

    def choose(self, n, label=""):
        """Non-deterministic choice of 0..n-1."""
        self.alive()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.ex.push(self.decisions + [k])
            d = 0
        self.decisions.append(d)
        self.labels.append(label or "choice")
        if label:
            self.trace.append(f"{label}={d}")
        return d

    def assume(self, c):
        if hasattr(c, "t"):
            c = c.t
        if isinstance(c, bool):
            if not c:
                self.stop(PathEnd())
            return
        self.alive()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.add(c)
        if z3.is_false(c) or not self.feasible():
            self.stop(PathEnd())

    def check(self, name, c, info=""):
        """A proof obligation."""
        self.alive()
        if hasattr(c, "t"):
            c = c.t
        ob = self.ex.obligation(name)
        ob.checked += 1
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            ob.discharged += 1
            ob.trivial += 1
            return True
        if c is False:
            r = self._check()
            if r == z3.unsat:
                self.stop(PathEnd())
        else:
            r = self._check(z3.Not(c))
            if r == z3.unknown:
                r = self._retry(c)
            if r == z3.unsat:
                ob.discharged += 1
                return True
        if r == z3.sat:
            m = None
            try:
                s = z3.Solver()
                s.set("timeout", QUERY_MS)
                for p in self.pcs:
                    s.add(p)
                if c is not False:
                    s.add(z3.Not(c))
                if s.check() == z3.sat:
                    m = s.model()
            except z3.Z3Exception:
                pass
            ob.fails.append(self.report(name, info, m))
        else:
            ob.unknown += 1
        if c is False:
            self.stop(PathEnd())
        self.add(c)
        return False

    def _retry(self, c):
        s = z3.Solver()
        s.set("timeout", 2 * QUERY_MS)
        s.set("random_seed", 7)
        for p in self.pcs:
            s.add(p)
        s.add(z3.Not(c))
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        return r

    def cover(self, name):
        """Reachability of a program point under all assumptions."""
        self.alive()
        if name not in self.ex.covers:
            if self._check() == z3.unsat:
                self.stop(PathEnd())
        self.ex.covers[name] = self.ex.covers.get(name, 0) + 1

    def report(self, name, info, model):
        from . import sym
        ins = {}
        for k, v in self.inputs.items():
            try:
                ins[k] = sym.concretize(v, model)
            except Exception as e:
                ins[k] = f"<{type(e).__name__}>"
        return dict(obligation=name, info=str(info)[:2000], inputs=ins,
                    approximations=self.approx[:10],
                    symbolic=bool(self.pcs),
                    choices=[[l, d] for l, d in zip(self.labels,
                                                   self.decisions) if l],
                    decisions=list(self.decisions),
                    trace=[str(t)[:300] for t in self.trace[-60:]],
                    path_condition=[str(z3.simplify(p))[:300]
                                    for p in self.pcs[-40:]])


class Explorer:
    def __init__(self, deadline, max_paths=20000, only=None):
        self.deadline = deadline
        self.max_paths = max_paths
        self.work = [only or []]
        self.obs = {}
        self.covers = {}
        self.paths = 0
        self.memo = {}        # survives restarts
        self.dropped = set()  # dropped invariant candidates
        self.functions = set()
        self.assumed = set()
        self.restarts = 0

    def push(self, prefix):
        self.work.append(prefix)

    def obligation(self, name):
        if name not in self.obs:
            self.obs[name] = Obligation(name)
        return self.obs[name]

    def run(self, harness):
        """harness(ctx) explores one path.  Returns a status string."""
        while True:
            try:
                self._run(harness)
                return "ok"
            except Restart:
                self.restarts += 1
                if self.restarts > 200:
                    return "unsupported: too many restarts"
                self.work = [[]]
                self.obs = {}
                self.covers = {}
                self.paths = 0
            except Unsupported as e:
                return "unsupported: " + str(e)
            except Deadline:
                return "unsupported: deadline"
            except RecursionError:
                return "unsupported: recursion"
            except z3.Z3Exception as e:
                return "unsupported: z3 " + str(e)[:200]

    def _run(self, harness):
        global CTX
        while self.work:
            prefix = self.work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("too many paths")
            if time.time() > self.deadline:
                raise Deadline()
            c = Ctx(self, prefix)
            CTX = c
            try:
                try:
                    harness(c)
                except EngineSignal as s:
                    if c.signal is None:
                        c.signal = s
                if c.signal is not None and not isinstance(c.signal, PathEnd):
                    raise c.signal
            finally:
                CTX = None


def opaque(cls):
    """What a stand-in for a collection does not define is unsupported."""
    def stop(*a, **k):
        CTX.stop(Unsupported(f"operation on a {cls.__name__}"))

    for n in ("iter len bool contains getitem setitem delitem reversed or "
              "and sub xor ror rand rsub rxor add radd mul ior iand isub ixor "
              "iadd lt le gt ge call").split():
        n = f"__{n}__"
        if not any(n in vars(b) for b in cls.__mro__[:-1]):
            setattr(cls, n, stop)

    def missing(self, n):
        if n.startswith("_") or not any(hasattr(t, n) for t in (
                dict, list, set)):
            raise AttributeError(n)
        CTX.stop(Unsupported(f"{n} of a {cls.__name__}"))
    if not any("__getattr__" in vars(b) for b in cls.__mro__[:-1]):
        cls.__getattr__ = missing
    return cls
