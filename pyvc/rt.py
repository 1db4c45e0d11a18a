"""Run-time support of transformed code: the vc__ object."""
import ast
import builtins
import sys
import types
import z3
from . import core, sym
from .core import EngineSignal, PathEnd, Unsupported, Restart
from .sym import Sym, SBool, SInt, SReal, SStr, SVal

_len, _str, _isinstance, _type = len, str, isinstance, type


def stop(msg):
    core.CTX.stop(Unsupported(msg))


def is_sym(x):
    return getattr(_type(x), "_vc_sym", False)


# ------------------------------------------------------- builtin functions
def b_len(x):
    m = getattr(_type(x), "_vc_len", None)
    if m is not None:
        return m(x)
    return _len(x)


def b_str(*a, **k):
    if _len(a) == 1 and not k:
        x = a[0]
        if _isinstance(x, SStr):
            return x
        if _isinstance(x, SInt):
            t = sym.int2s(x.t)
            core.CTX.axiom(("int2s", x.t.get_id()), z3.And(
                sym.s2int(t) == x.t, z3.Length(t) > 0))
            return SStr(t, safe=True, low=True, ne=True)
        m = getattr(_type(x), "_vc_str", None)
        if m is not None:
            return m(x)
        if is_sym(x):
            stop(f"str of {_type(x).__name__}")
        if has_sym(x):
            return f"<{_type(x).__name__}>"
        f = _type(x).__str__
        if f is object.__str__:
            f = _type(x).__repr__
        if _isinstance(f, types.FunctionType):
            return f(x)
    return _str(*a, **k)


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and _isinstance(x, (tuple, list, set, frozenset)):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and _isinstance(x, dict):
        return any(has_sym(i, depth - 1) for i in dict.values(x)) or any(
            has_sym(i, depth - 1) for i in dict.keys(x))
    if depth and _isinstance(x, BaseException):
        return has_sym(x.args, depth - 1)
    return False


def b_isinstance(x, c):
    if not is_sym(x):
        m = getattr(_type(x), "_vc_isinstance", None)
        if m is not None:
            return m(x, c)
        return _isinstance(x, c)
    if _isinstance(c, (tuple, types.UnionType)):
        cs = c if _isinstance(c, tuple) else c.__args__
        return any(b_isinstance(x, i) for i in cs)
    if _isinstance(x, SStr):
        return issubclass(_str, c)
    if _isinstance(x, SBool):
        return issubclass(bool, c)
    if _isinstance(x, SInt):
        return issubclass(int, c)
    if _isinstance(x, SReal):
        return issubclass(float, c)
    if _isinstance(x, SVal):
        if c is object:
            return True
        mod = getattr(c, "__module__", "")
        if mod.startswith(("pythagoras", "persidict", "parameterizable",
                           "pyvc")):
            return False
        if not x.features:
            return False
        return core.CTX.decide(z3.Function(
            f"isinstance_{c.__qualname__}", sym.Val, z3.BoolSort())(x.t))
    return _isinstance(x, c)


def b_hasattr(x, n):
    m = getattr(_type(x), "_vc_hasattr", None)
    if m is not None:
        return m(x, n)
    return hasattr(x, n)


def b_getattr(x, n, *d):
    m = getattr(_type(x), "_vc_getattr", None)
    if m is not None:
        try:
            return m(x, n)
        except AttributeError:
            if d:
                return d[0]
            raise
    return getattr(x, n, *d)


def b_callable(x):
    if is_sym(x):
        return _isinstance(x, SVal) and x.features and core.CTX.decide(
            z3.Function("callable", sym.Val, z3.BoolSort())(x.t))
    if _isinstance(x, sym.SShape):
        return False
    return callable(x)


def b_type(*a, **k):
    if _len(a) == 1:
        x = a[0]
        if _isinstance(x, SVal):
            return sym.SType(x)
        for c, t in ((SStr, _str), (SInt, int), (SReal, float),
                     (SBool, bool)):
            if _isinstance(x, c):
                return t
    return _type(*a, **k)


def b_int(*a, **k):
    x = a[0] if a else 0
    if _isinstance(x, SInt):
        return x
    if _isinstance(x, SBool):
        return sym.wrapnum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if _isinstance(x, SReal):
        f = z3.ToInt(x.t)
        return sym.wrapnum(z3.If(z3.Or(x.t >= 0, z3.ToReal(f) == x.t),
                                 f, f + 1))
    if _isinstance(x, SStr):
        base = a[1] if _len(a) > 1 else k.get("base", 10)
        h = RT.hooks.get("int_of_text")
        if h:
            return h(x, base)
        stop("int of a symbolic string")
    m = getattr(_type(x), "_vc_int", None)
    if m:
        return m(x, a[1] if _len(a) > 1 else k.get("base", 10))
    return int(*a, **k)


def b_float(*a):
    if a and _isinstance(a[0], SInt):
        return SReal(z3.ToReal(a[0].t))
    if a and _isinstance(a[0], SReal):
        return a[0]
    return float(*a)


def b_bool(*a):
    if a and is_sym(a[0]):
        return SBool(a[0].t) if _isinstance(a[0], SBool) else bool(a[0])
    return bool(*a)


def b_max(*a, key=None, default=None, **k):
    xs = a if _len(a) > 1 else a[0]
    m = getattr(_type(xs), "_vc_max", None)
    if m:
        return m(xs, True)
    xs = list(xs)
    if key is None and any(is_sym(x) for x in xs):
        out = xs[0]
        for x in xs[1:]:
            c = x > out
            out = _ite(c, x, out)
        return out
    if not xs and default is not None:
        return default
    return max(xs, key=key)


def b_min(*a, key=None, default=None, **k):
    xs = a if _len(a) > 1 else a[0]
    m = getattr(_type(xs), "_vc_max", None)
    if m:
        return m(xs, False)
    xs = list(xs)
    if key is None and any(is_sym(x) for x in xs):
        out = xs[0]
        for x in xs[1:]:
            out = _ite(x < out, x, out)
        return out
    if not xs and default is not None:
        return default
    return min(xs, key=key)


def _ite(c, a, b):
    if _isinstance(c, SBool):
        ta, tb = sym._num(a), sym._num(b)
        if ta is None or tb is None:
            return a if c else b
        if ta.sort() != tb.sort():
            ta, tb = (z3.ToReal(t) if t.is_int() else t for t in (ta, tb))
        return sym.wrapnum(z3.If(c.t, ta, tb))
    return a if c else b


def b_range(*a):
    if any(_isinstance(x, SInt) for x in a):
        from .loops import SymRange
        return SymRange(*a)
    return range(*a)


def b_list(*a):
    if a and hasattr(_type(a[0]), "_vc_list"):
        return a[0]._vc_list()
    return list(*a)


def b_tuple(*a):
    if a and hasattr(_type(a[0]), "_vc_list"):
        return a[0]._vc_list()
    return tuple(*a)


def b_set(*a):
    if a and hasattr(_type(a[0]), "_vc_set"):
        return a[0]._vc_set()
    if not a and "empty_set" in RT.hooks:
        return RT.hooks["empty_set"]()
    return set(*a)


def b_dict(*a, **k):
    if a and hasattr(_type(a[0]), "_vc_dict"):
        return a[0]._vc_dict()
    if not a and not k and "empty_dict" in RT.hooks:
        return RT.hooks["empty_dict"]()
    return dict(*a, **k)


def b_sorted(x, key=None, reverse=False):
    m = getattr(_type(x), "_vc_sorted", None)
    if m:
        return m(x, key, reverse)
    return sorted(x, key=key, reverse=reverse)


def b_reversed(x):
    m = getattr(_type(x), "_vc_reversed", None)
    if m:
        return m(x)
    return reversed(x)


def b_iter(x, *a):
    m = getattr(_type(x), "_vc_iter", None)
    if m and not a:
        return m(x)
    return iter(x, *a)


def b_next(x, *a):
    m = getattr(_type(x), "_vc_next", None)
    if m:
        return m(x, *a)
    return next(x, *a)


def b_any(x):
    m = getattr(_type(x), "_vc_any", None)
    if m:
        return m(x)
    for i in x:
        if i:
            return True
    return False


def b_all(x):
    m = getattr(_type(x), "_vc_all", None)
    if m:
        return m(x)
    for i in x:
        if not i:
            return False
    return True


def b_id(x):
    m = getattr(_type(x), "_vc_id", None)
    if m:
        return m(x)
    return id(x)


def b_repr(x):
    if has_sym(x):
        return f"<{_type(x).__name__}>"
    return repr(x)


def b_print(*a, sep=" ", end="\n", file=None, flush=False):
    f = file if file is not None else RT.world.fakes["sys"].stdout
    out = ""
    for i, x in enumerate(a):
        out = out + (sep if i else "") + b_str(x)
    f.write(out + end)


def b_exec(code, g=None, l=None):
    h = RT.hooks.get("exec")
    if h:
        return h(code, g, l)
    return exec(code, g, l)


def b_compile(*a, **k):
    h = RT.hooks.get("compile")
    if h:
        return h(*a, **k)
    return compile(*a, **k)


def b_open(*a, **k):
    h = RT.hooks.get("open")
    if h:
        return h(*a, **k)
    stop("open of a file")


def b_setattr(o, n, v):
    return setattr(o, n, v)


OVERRIDE = {id(getattr(builtins, n[2:])): f for n, f in list(
    globals().items()) if n.startswith("b_")}


class _Unbound:
    pass


# ------------------------------------------------------------------ loops
class Loop:
    cut = again = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def hv(self, name, v):
        return v


class WhileLoop:
    LIMIT = 60

    def __init__(self, rt, qual, names):
        self.rt, self.qual, self.names = rt, qual, names
        self.k = 0
        self.inv = None
        self.state = 0

    def head(self, loc):
        """True: the loop is cut here and its variables become arbitrary."""
        h = self.rt.hooks.get("while")
        if self.state == 2:          # back edge of a cut loop
            if self.inv.back_edge(loc) is not True:
                core.CTX.stop(PathEnd())
            return False
        self.k += 1
        if self.state == 0 and h is not None:
            inv = h(self.qual, self.names, loc)
            if inv is not None:
                self.inv = inv
                inv.entry(loc)
                self.state = 1
                return True
        if self.k > self.LIMIT:
            stop(f"loop in {self.qual} exceeds {self.LIMIT} iterations")
        return False

    def hv(self, name, v):
        return self.inv.havoc(name, v)

    def begin(self, loc):
        if self.state == 1:
            self.state = 2
            self.inv.assume(loc)


def _abstract(it):
    """What a stored dictionary of unknown content iterates over."""
    from . import ghost
    if isinstance(it, ghost.FileDirDict):
        k = it.keys()
        if hasattr(_type(k), "_vc_len"):
            return k
    return it


class RTObj:
    """The object `vc__` of transformed modules."""

    def __init__(self):
        self.world = None
        self.hooks = {}
        self.comp_hooks = []

    def fn(self, name):
        c = core.CTX
        if c is not None:
            c.ex.functions.add(name)
            c.steps += 1
            if c.steps > 20000:
                stop("too many calls on one path")
        h = self.hooks.get("fn")
        if h:
            h(name)

    def kwarg(self, d):
        if "vc__kw" in d:
            d = dict(d)
            out = d.pop("vc__kw")
            for k, v in d.items():
                out[k] = v
            return out
        return d

    def signal(self):
        e = sys.exc_info()[1]
        if _isinstance(e, EngineSignal):
            raise e
        if core.CTX is not None:
            core.CTX.alive()

    def bound(self, name, loc):
        return name in loc

    def call(self, f, /, *a, **k):
        o = OVERRIDE.get(id(f))
        if o is not None:
            return o(*a, **k)
        if _type(f) is BUILTIN and _type(f.__self__) is _str:
            if f.__name__ == "join" and _len(a) == 1 and not k:
                return join(f.__self__, a[0])
        return f(*a, **k)

    def callkw(self, f, args, parts):
        kw = {}
        for p in parts:
            if _isinstance(p, tuple):
                if p[0] in kw:
                    raise TypeError(f"got multiple values for {p[0]}")
                kw[p[0]] = p[1]
            elif hasattr(_type(p), "_vc_kw"):
                rest = [q for q in parts if q is not p]
                if any(not _isinstance(q, tuple) for q in rest):
                    stop("several keyword parts with a symbolic one")
                for n, v in rest:
                    if p._vc_contains(n):
                        raise TypeError(f"got multiple values for {n}")
                return self.call(f, *args, vc__kw=p._vc_kw(), **dict(rest))
            else:
                for n in p.keys():
                    if n in kw:
                        raise TypeError(f"got multiple values for {n}")
                    kw[n] = p[n]
        return self.call(f, *args, **kw)

    def getitem(self, o, k):
        if is_sym(k):
            if _isinstance(o, _str) and _isinstance(k, SInt):
                return str_at(o, k)
            if _isinstance(o, (list, tuple)) and _isinstance(k, SInt):
                n = _len(o)
                for i in range(-n, n):
                    if k == i:
                        return o[i]
                raise IndexError("index out of range")
            if _type(o) is dict:
                return dict_at(o, k)
        return o[k]

    def setitem(self, o, k, v):
        o[k] = v

    def mkset(self, *xs):
        if any(is_sym(x) for x in xs):
            h = self.hooks.get("set")
            if h is None:
                stop("set of symbolic values")
            return h(xs)
        return set(xs)

    def mkdict(self):
        h = self.hooks.get("empty_dict")
        return h() if h else {}

    def contains(self, o, x):
        m = getattr(_type(o), "_vc_contains", None)
        if m is not None:
            return m(o, x)
        if is_sym(x) and _isinstance(o, (dict, set, frozenset)):
            out = False
            for y in o:
                if x == y:
                    return True
            return False
        if is_sym(x) and _isinstance(o, _str):
            return SBool(z3.Contains(z3.StringVal(sym._enc(o)), x.t))
        return x in o

    def fmt(self, x, conv, spec):
        if spec == "" and conv in (-1, 115):
            return b_str(x)
        if has_sym(x):
            return f"<{_type(x).__name__}>"
        if conv == 114:
            x = repr(x)
        elif conv == 97:
            x = ascii(x)
        elif conv == 115:
            x = b_str(x)
        return format(x, spec)

    def fstr(self, *parts):
        out = ""
        for p in parts:
            out = out + p
        return out

    def comp(self, kind, f, it, cond, flat):
        it = _abstract(it)
        m = getattr(_type(it), "_vc_comp", None)
        if m is not None:
            return m(it, kind, f, cond, flat)
        if kind == "gen":
            return self._gen(f, it, cond, flat)
        xs = self._gen(f, it, cond, flat)
        if kind == "list":
            return list(xs)
        if kind == "set":
            return set(xs)
        out = {}
        for k, v in xs:
            out[k] = v
        return out

    def _gen(self, f, it, cond, flat):
        for x in it:
            if flat:
                if cond is None or cond(x):
                    yield f(x)
            else:
                x = tuple(x)
                if cond is None or cond(*x):
                    yield f(*x)

    def forloop(self, qual, it, loc, names):
        it = _abstract(it)
        m = getattr(_type(it), "_vc_loop", None)
        if m is not None:
            return m(it, self, qual, loc, names)
        return Loop(it)

    def whileloop(self, qual, names):
        return WhileLoop(self, qual, names)


BUILTIN = _type("".join)


def join(sep, parts):
    """sep.join(parts)"""
    m = getattr(_type(parts), "_vc_join", None)
    if m is not None:
        return m(parts, sep)
    parts = list(parts)
    if not any(is_sym(x) for x in parts):
        return sep.join(parts)
    for x in parts:
        if not _isinstance(x, (_str, SStr)):
            raise TypeError("sequence item: expected str instance")
    out = parts[0]
    for x in parts[1:]:
        out = out + sep + x if sep else out + x
    return out


digit_f = None


def str_at(s, k):
    n = _len(s)
    from . import digits
    if s == digits.ALPHABET and core.CTX.must(z3.And(k.t >= 0, k.t < 32)):
        return digits.Digit(k.t)
    if not core.CTX.decide(z3.And(k.t < n, k.t >= -n)):
        raise IndexError("string index out of range")
    t = z3.StringVal(sym._enc(s))
    i = z3.If(k.t < 0, k.t + n, k.t)
    return sym.mkstr(z3.SubString(t, i, 1), False, s == s.lower())


def dict_at(d, k):
    if hasattr(k, "index_in"):
        return k.index_in(d)
    if _isinstance(k, SStr) and d and all(
            _isinstance(x, _str) for x in d) and all(
            _type(v) is int for v in d.values()):
        if not core.CTX.decide(z3.Or([k.t == sym.sterm(x) for x in d])):
            raise KeyError(k)
        out = None
        for x, v in d.items():
            out = z3.IntVal(v) if out is None else z3.If(
                k.t == sym.sterm(x), z3.IntVal(v), out)
        return sym.wrapnum(out)
    for x, v in d.items():
        if k == x:
            return v
    raise KeyError(k)


RT = RTObj()
