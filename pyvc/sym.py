"""Symbolic values: proxies over z3 terms that real Python code computes with."""
import z3
from . import core
from .core import Unsupported

S = z3.StringSort()
Val = z3.DeclareSort("Val")

_C = z3.Datatype("Content")
_C.declare("cval", ("v", Val))
_C.declare("cstr", ("s", S))
_C.declare("cint", ("i", z3.IntSort()))
_C.declare("creal", ("r", z3.RealSort()))
_C.declare("catom", ("a", S))              # None, True, class names ...
_C.declare("cnil")
_C.declare("ccons", ("hd", _C), ("tl", _C))
_C.declare("cobj", ("cls", S), ("body", _C))
_C.declare("csig", ("desc", S), ("of", _C))   # a signature, as a text
Content = _C.create()


def stop(msg):
    core.CTX.stop(Unsupported(msg))


class Sym:
    """Base of all proxies."""
    __slots__ = ()
    _vc_sym = True

    def __hash__(self):
        stop(f"hash of a symbolic {type(self).__name__}")

    def __reduce_ex__(self, p):
        stop("native pickling of a symbolic value")

    def __iter__(self):
        stop(f"native iteration over a {type(self).__name__}")

    def __index__(self):
        stop(f"native index from a {type(self).__name__}")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t

    def __bool__(self):
        return core.CTX.decide(self.t)

    def __eq__(self, o):
        return SBool(self.t == bterm(o))

    def __ne__(self, o):
        return SBool(self.t != bterm(o))

    def __and__(self, o):
        return SBool(z3.And(self.t, bterm(o)))

    def __or__(self, o):
        return SBool(z3.Or(self.t, bterm(o)))
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))
    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"SBool({self.t})"


def bterm(o):
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, SBool):
        return o.t
    if z3.is_expr(o):
        return o
    return z3.BoolVal(bool(o))


def _num(o):
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, float):
        from fractions import Fraction
        f = Fraction(o)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(o, (SInt, SReal)):
        return o.t
    return None


def _rounded(exact, *ints):
    """A float made from integers: the exact value if these are small, and
    else anything within the relative error of rounding."""
    c = core.CTX
    big = z3.Or([z3.Or(i > 2 ** 53, i < -2 ** 53) for i in ints])
    if c.must(z3.Not(big)) or not c.decide(big):
        return exact
    c.approximate("rounding of large numbers")
    if c.decide(z3.Or(exact >= 2 ** 1024, exact <= -2 ** 1024)):
        raise OverflowError("integer too large for a float")
    q = z3.Real(c.name("rounded"))
    e = z3.If(exact >= 0, exact, -exact) / 2 ** 52
    c.add(z3.And(q - exact <= e, exact - q <= e))
    return q


def _arith(f):
    def op(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        a = self.t
        if a.sort() != b.sort():
            i = a if a.is_int() else b
            a, b = (z3.ToReal(a) if a.is_int() else a,
                    z3.ToReal(b) if b.is_int() else b)
            return wrapnum(_rounded(f(a, b), i))
        return wrapnum(f(a, b))
    return op


def _rel(f):
    def op(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        a = self.t
        if a.sort() != b.sort():
            a, b = (z3.ToReal(a) if a.is_int() else a,
                    z3.ToReal(b) if b.is_int() else b)
        return SBool(f(a, b))
    return op


def wrapnum(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t) if t.is_int() else SReal(t)


class _Num(Sym):
    __slots__ = ()
    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: b + a)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: b - a)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _arith(lambda a, b: b * a)
    __lt__ = _rel(lambda a, b: a < b)
    __le__ = _rel(lambda a, b: a <= b)
    __gt__ = _rel(lambda a, b: a > b)
    __ge__ = _rel(lambda a, b: a >= b)

    def __eq__(self, o):
        if _num(o) is None:
            return False
        return _rel(lambda a, b: a == b)(self, o)

    def __ne__(self, o):
        if _num(o) is None:
            return True
        return _rel(lambda a, b: a != b)(self, o)
    __hash__ = Sym.__hash__

    def __neg__(self):
        return wrapnum(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrapnum(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return core.CTX.decide(self.t != 0)

    def __truediv__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        a = z3.ToReal(self.t) if self.t.is_int() else self.t
        b = z3.ToReal(b) if b.is_int() else b
        if core.CTX.decide(b == 0):
            raise ZeroDivisionError("division by zero")
        ints = [t for t in (self.t, _num(o)) if t.is_int()]
        return SReal(_rounded(a / b, *ints) if ints else a / b)

    def __rtruediv__(self, o):
        return SReal(z3.ToReal(_num(o)) if _num(o).is_int() else _num(o)
                     ).__truediv__(self)


pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


class SInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _divisor(self, o):
        b = _num(o)
        if b is None or not b.is_int():
            return None
        if core.CTX.decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return b

    def __floordiv__(self, o):
        b = self._divisor(o)
        if b is None:
            return NotImplemented
        q = self.t / b
        # z3 rounds so that the remainder is >= 0; Python floors
        if core.CTX.must(b > 0):
            return wrapnum(q)
        return wrapnum(z3.If(z3.And(b < 0, self.t % b != 0), q - 1, q))

    def __mod__(self, o):
        b = self._divisor(o)
        if b is None:
            return NotImplemented
        r = self.t % b
        if core.CTX.must(b > 0):
            return wrapnum(r)
        return wrapnum(z3.If(z3.And(b < 0, r != 0), r + b, r))

    def __divmod__(self, o):
        return self // o, self % o

    def __rshift__(self, o):
        if not isinstance(o, int):
            stop("shift by a symbolic amount")
        return wrapnum(self.t / (1 << o))

    def __rlshift__(self, o):
        return o * 2 ** self

    def __lshift__(self, o):
        if not isinstance(o, int):
            stop("shift by a symbolic amount")
        return wrapnum(self.t * (1 << o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            out, bit = z3.IntVal(0), 0
            if o & (o + 1) == 0:
                return wrapnum(self.t % (o + 1))
            n = o
            while n:
                if n & 1:
                    out = out + ((self.t / (1 << bit)) % 2) * (1 << bit)
                n >>= 1
                bit += 1
            return wrapnum(out)
        stop("bitwise and with a symbolic mask")
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and o >= 0:
            out, bit, n = self.t, 0, o
            while n:
                if n & 1:
                    b = (self.t / (1 << bit)) % 2
                    out = out + (1 - b) * (1 << bit)
                n >>= 1
                bit += 1
            return wrapnum(out)
        stop("bitwise or with symbolic operand")
    __ror__ = __or__

    def __rpow__(self, base):
        if base != 2:
            stop("power with a symbolic exponent")
        core.CTX.approximate("2**n with n < 0 is an integer") \
            if not core.CTX.must(self.t >= 0) else None
        t = pow2(self.t)
        core.CTX.axiom(("pow2", self.t.get_id()), z3.And(
            t >= 1, *[z3.Implies(self.t == k, t == 2 ** k)
                      for k in range(0, 65)],
            z3.Implies(self.t > 64, t > 2 ** 64)))
        return SInt(t)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o < 5:
            out = 1
            for _ in range(o):
                out = self * out
            return out
        stop("power of a symbolic number")

    def __repr__(self):
        return f"SInt({self.t})"

    def __format__(self, spec):
        stop("native formatting")

    def __str__(self):
        return f"<{self.t}>"


class SReal(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SReal({self.t})"

    def __str__(self):
        return f"<{self.t}>"


def sterm(o):
    if isinstance(o, str):
        return z3.StringVal(_enc(o))
    if isinstance(o, SStr):
        return o.t
    return None


def _enc(s):
    return "".join(c if 32 <= ord(c) < 127 and c != "\\"
                   else "\\u{%x}" % ord(c) for c in s)


safe_pred = z3.Function("safe_str", S, z3.BoolSort())
lower_f = z3.Function("lower", S, S)
int2s = z3.Function("int2str", z3.IntSort(), S)
s2int = z3.Function("str2int", S, z3.IntSort())
replace_f = z3.Function("replace_all", S, S, S, S)


class SStr(Sym):
    """A symbolic string.  safe: only URL-safe characters (or empty);
    low: no upper-case letters; ne: known to be non-empty."""
    __slots__ = ("t", "safe", "low", "ne")

    def __init__(self, t, safe=False, low=False, ne=False):
        self.t, self.safe, self.low, self.ne = t, safe, low, ne

    def __eq__(self, o):
        if isinstance(o, SSig):
            return o.__eq__(self)
        b = sterm(o)
        if b is None:
            return False
        if isinstance(o, str) and o != o.lower() and self.low:
            return False
        return SBool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
    __hash__ = Sym.__hash__

    def _cat(self, o, rev):
        b = sterm(o)
        if b is None:
            return NotImplemented
        from .ghost import is_safe
        safe = self.safe and (o == "" or is_safe(o))
        low = self.low and (o.low if isinstance(o, SStr) else o == o.lower())
        ne = self.ne or (o.ne if isinstance(o, SStr) else o != "")
        return mkstr(z3.Concat(b, self.t) if rev else z3.Concat(self.t, b),
                     safe, low, ne)

    def __add__(self, o):
        return self._cat(o, False)

    def __radd__(self, o):
        return self._cat(o, True)

    def __lt__(self, o):
        return SBool(self.t < sterm(o))

    def __gt__(self, o):
        return SBool(sterm(o) < self.t)

    def __le__(self, o):
        return SBool(self.t <= sterm(o))

    def __ge__(self, o):
        return SBool(sterm(o) <= self.t)

    def __bool__(self):
        return self.ne or core.CTX.decide(z3.Length(self.t) > 0)

    def _vc_len(self):
        return wrapnum(z3.Length(self.t))

    def __len__(self):
        stop("native len of a symbolic string")

    def __contains__(self, o):
        return core.CTX.decide(z3.Contains(self.t, sterm(o)))

    def _vc_contains(self, o):
        return SBool(z3.Contains(self.t, sterm(o)))

    def __getitem__(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                stop("slice step")
            lo, hi = k.start, k.stop

            def norm(x, dflt):
                if x is None:
                    return dflt
                t = _num(x)
                return z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t),
                             z3.If(t > n, n, t))
            a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
            return mkstr(z3.SubString(self.t, a, z3.If(b > a, b - a, 0)),
                         self.safe, self.low)
        t = _num(k)
        if core.CTX.decide(z3.And(t < n, t >= -n)):
            return mkstr(z3.SubString(self.t, z3.If(t < 0, n + t, t), 1),
                         self.safe, self.low)
        raise IndexError("string index out of range")

    def lower(self):
        if self.low:
            return self
        r = SStr(lower_f(self.t), self.safe, True, self.ne)
        core.CTX.axiom(("lower", self.t.get_id()), z3.And(
            z3.Length(r.t) == z3.Length(self.t),
            lower_f(r.t) == r.t))
        return r

    def startswith(self, o):
        return SBool(z3.PrefixOf(sterm(o), self.t))

    def endswith(self, o):
        return SBool(z3.SuffixOf(sterm(o), self.t))

    def find(self, o):
        return wrapnum(z3.IndexOf(self.t, sterm(o), 0))

    def replace(self, a, b, count=-1):
        if count == 1:
            return mkstr(z3.Replace(self.t, sterm(a), sterm(b)))
        return mkstr(replace_f(self.t, sterm(a), sterm(b)))

    def split(self, sep=None, maxsplit=-1):
        return SplitList(self, sep)

    def encode(self, *a):
        return self

    def strip(self, *a):
        stop("strip of a symbolic string")

    def __format__(self, spec):
        stop("native formatting of a symbolic string")

    def __str__(self):
        return f"<{self.t}>"

    def __repr__(self):
        return f"SStr({self.t})"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            stop(f"str.{name} of a symbolic string")
        raise AttributeError(name)


class SplitList:
    """Opaque list of the parts of a symbolic string."""

    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def _vc_content(self):
        return content(("split", self.s, self.sep))

    def __iter__(self):
        stop("iteration over the parts of a symbolic string")
    __len__ = __iter__

    def __getitem__(self, k):
        if k == 0 and type(self.sep) is str and self.sep:
            t, p = self.s.t, z3.StringVal(_enc(self.sep))
            return SStr(z3.If(z3.Contains(t, p), z3.SubString(
                t, 0, z3.IndexOf(t, p, 0)), t))
        if k == -1:
            return core.CTX.last_part(self)
        stop("parts of a symbolic string")


class SSig(SStr):
    """The signature of a content, preceded by a descriptor (a text).

    Signatures of different contents differ (assumed), so comparing two of
    them compares the contents."""
    __slots__ = ("desc", "con", "raw")

    def __init__(self, desc, con):
        self.desc, self.con, self.raw = desc, con, None
        self.safe = self.low = self.ne = True

    @property
    def t(self):
        if self.raw is None:
            s = sig_term(self.con)
            self.raw = s if type(self.desc) is str and not self.desc \
                else z3.Concat(sterm(self.desc), s)
        return self.raw

    def __eq__(self, o):
        if isinstance(o, SSig) and not (
                type(self.desc) is str and type(o.desc) is str):
            return SBool(z3.simplify(z3.And(
                sterm(self.desc) == sterm(o.desc), self.con == o.con)))
        if type(o) is str and type(self.desc) is not str:
            return SBool(self.t == sterm(o))
        if type(o) is str:
            g = ground_sig(o)
            if g is None:
                if len(o) != len(self.desc) + 22 or not o.startswith(
                        self.desc):
                    return False
                return SBool(self.t == sterm(o))
            o = g
        if isinstance(o, SSig):
            if o.desc != self.desc:
                if len(o.desc) == len(self.desc):
                    return False
                return SBool(self.t == o.t) if len(o.desc) == len(
                    self.desc) else False
            return SBool(self.con == o.con)
        if isinstance(o, SStr):
            return SBool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
    __hash__ = Sym.__hash__

    def __radd__(self, o):
        from .ghost import is_safe
        if type(o) is str and is_safe(o) and o == o.lower():
            return SSig(o + self.desc, self.con)
        if type(o) is SStr and o.safe and o.low:
            return SSig(o + self.desc if type(self.desc) is not str
                        or self.desc else o, self.con)
        return self._cat(o, True)

    def lower(self):
        return self

    def _vc_len(self):
        if type(self.desc) is not str:
            return SStr._vc_len(self)
        return len(self.desc) + 22

    def _vc_content(self):
        return Content.csig(sterm(self.desc), self.con)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and k.stop is None \
                and k.start == -22:
            return SSig("", self.con)
        return SStr.__getitem__(self, k)


def reduced(conds):
    """The same conjunction without what follows from equal constants."""
    eqs = []
    for c in conds:
        c = z3.simplify(c)
        if z3.is_eq(c) and c.arg(0).sort() == Val and all(
                z3.is_const(c.arg(i)) for i in (0, 1)):
            eqs.append((c.arg(0), c.arg(1)))
    if not eqs:
        return conds
    out = [a == b for a, b in eqs]
    for c in conds:
        if not z3.is_true(z3.simplify(z3.substitute(c, *eqs))):
            out.append(c)
    return out


SIG_LEN = 22
sigf = z3.Function("signature", Content, S)
siginv = z3.Function("signature_inv", S, Content)
GROUND = {}              # text of a ground signature -> content


def sig_term(con):
    t = sigf(con)
    core.CTX.axiom(("sig", con.get_id()), z3.And(
        siginv(t) == con, z3.Length(t) == SIG_LEN))
    return t


def ground_sig(s):
    """The SSig of a text that ends in a known signature, or None."""
    c = GROUND.get(s[-SIG_LEN:])
    return None if c is None else SSig(s[:-SIG_LEN], c)


def mkstr(t, safe=False, low=False, ne=False):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return _dec(t)
    return SStr(t, safe, low, ne)


def _dec(t):
    import re
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), s)


tname_f = z3.Function("type_name_lower", Val, S)
len_f = z3.Function("len_of", Val, z3.IntSort())
haslen_f = z3.Function("has_len", Val, z3.BoolSort())
hasshape_f = z3.Function("has_shape", Val, z3.BoolSort())
truth_f = z3.Function("truth", Val, z3.BoolSort())


class SType:
    """type(x) of a symbolic value."""

    def __init__(self, v):
        self.v = v

    def __getattribute__(self, n):
        if n in ("__name__", "__qualname__"):
            t = z3.Function("type" + n[1:-2], Val, S)(self.v.t)
            core.CTX.axiom(("tn", t.get_id()), z3.Length(t) > 0)
            return SStr(t, safe=True, ne=True)
        if n == "__module__":
            return SStr(z3.Function("type_module", Val, S)(self.v.t),
                        safe=True)
        return object.__getattribute__(self, n)

    def __eq__(self, o):
        if isinstance(o, SType):
            return SBool(z3.Function("type_name", Val, S)(self.v.t)
                         == z3.Function("type_name", Val, S)(o.v.t))
        return False

    def __hash__(self):
        stop("hash of a symbolic type")


class SVal(Sym):
    """An arbitrary user value: data without Pythagoras-specific behaviour.
    Equality of terms means equality of type and content."""
    __slots__ = ("t", "label", "features")

    def __init__(self, t, label="", features=True):
        self.t, self.label, self.features = t, label, features

    @property
    def __class__(self):
        return SValClass(self)

    def __eq__(self, o):
        if isinstance(o, SVal):
            return SBool(self.t == o.t)
        return False

    def __ne__(self, o):
        if isinstance(o, SVal):
            return SBool(self.t != o.t)
        return True
    __hash__ = Sym.__hash__

    def __bool__(self):
        return core.CTX.decide(truth_f(self.t))

    def _vc_len(self):
        n = len_f(self.t)
        core.CTX.axiom(("len", self.t.get_id()), n >= 0)
        return wrapnum(n)

    def _vc_hasattr(self, name):
        if name in ("get_ValueAddr", "__notes__"):
            return False
        if name == "__len__":
            return core.CTX.decide(haslen_f(self.t)) if self.features \
                else False
        if name == "shape":
            return core.CTX.decide(hasshape_f(self.t)) if self.features \
                else False
        if name in ("__class__", "__eq__", "__hash__", "__str__",
                    "__getstate__", "__reduce__", "__reduce_ex__"):
            return True
        return core.CTX.decide(z3.Function(
            "has_attr_" + name, Val, z3.BoolSort())(self.t))

    def _vc_getattr(self, name):
        if name == "__class__":
            return SType(self)
        if name == "__len__" and self._vc_hasattr(name):
            return self._vc_len
        if name == "shape" and self._vc_hasattr(name):
            return SShape(self)
        raise AttributeError(name)

    def __getattr__(self, name):
        if name.startswith("_vc") or name in (
                "__name__", "__qualname__", "__wrapped__", "__call__",
                "__array__", "__fspath__", "__bases__", "__module__",
                "__dict__", "__index__", "__length_hint__"):
            raise AttributeError(name)
        return self._vc_getattr(name)

    def _vc_str(self):
        return SStr(z3.Function("str_of", Val, S)(self.t))

    def __str__(self):
        return f"<{self.t}>"

    def __repr__(self):
        return f"SVal({self.t})"


def SValClass(v):
    return SType(v)


class SShape:
    """shape of an array-like symbolic value: opaque tuple of numbers."""

    def __init__(self, v):
        self.v = v

    def __iter__(self):
        ndim = z3.Function("ndim", Val, z3.IntSort())(self.v.t)
        most = getattr(core.CTX, "most_dimensions", 3)
        core.CTX.axiom(("ndim", self.v.t.get_id()),
                       z3.And(ndim >= 0, ndim <= most))
        core.CTX.approximate(f"at most {most} dimensions")
        k = 0
        while k < most and core.CTX.decide(ndim > k):
            d = z3.Function("dim", Val, z3.IntSort(), z3.IntSort())(
                self.v.t, k)
            core.CTX.axiom(("dim", self.v.t.get_id(), k), d >= 0)
            yield SInt(d)
            k += 1


# ---------------------------------------------------------------- content
def content(x):
    """The content of a value as a term: equal terms = equal content, as far
    as pickling (and hence joblib's hashing) can tell."""
    C = Content
    if hasattr(type(x), "_vc_content"):
        return x._vc_content()
    if isinstance(x, SVal):
        return C.cval(x.t)
    if isinstance(x, SStr):
        return C.cstr(x.t)
    if isinstance(x, SInt):
        return C.cint(x.t)
    if isinstance(x, SReal):
        return C.creal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, C.catom(z3.StringVal("True")),
                     C.catom(z3.StringVal("False")))
    if x is None or isinstance(x, bool):
        return C.catom(z3.StringVal(repr(x)))
    if type(x) is int:
        return C.cint(z3.IntVal(x))
    if type(x) is float:
        return C.creal(_num(x))
    if type(x) is str:
        if GROUND and len(x) >= SIG_LEN:
            g = ground_sig(x)
            if g is not None:
                return g._vc_content()
        return C.cstr(z3.StringVal(_enc(x)))
    if isinstance(x, type):
        return C.catom(z3.StringVal("class " + x.__qualname__))
    if type(x) in (tuple, list):
        return C.cobj(z3.StringVal(type(x).__name__), _lst(
            [content(i) for i in x]))
    if type(x) in (set, frozenset):
        return C.cobj(z3.StringVal(type(x).__name__), _lst(
            [content(i) for i in sorted(x, key=repr)]))
    if type(x) is dict:
        return C.cobj(z3.StringVal("dict"), _items(x))
    if isinstance(x, BaseException):
        return C.cobj(z3.StringVal(type(x).__name__), content(x.args))
    if callable(x) and not hasattr(type(x), "__getstate__"):
        stop(f"content of {type(x).__name__}")
    # an ordinary object: class, items of dict payload, state
    body = []
    if isinstance(x, dict):
        body.append(_items(x))
    if isinstance(x, str):
        body.append(C.cstr(z3.StringVal(_enc(str.__str__(x)))))
    body.append(content(getstate(x)))
    return C.cobj(z3.StringVal(type(x).__qualname__), _lst(body))


def getstate(x):
    gs = type(x).__getstate__
    if gs is object.__getstate__:
        d = getattr(x, "__dict__", None)
        return dict(d) if d else None
    return x.__getstate__()


def _lst(ts):
    out = Content.cnil
    for t in reversed(ts):
        out = Content.ccons(t, out)
    return out


def _items(d):
    ks = list(dict.keys(d))
    if not all(isinstance(k, str) for k in ks):
        ks = sorted(ks, key=repr)
    else:
        ks = sorted(ks)
    return _lst([Content.ccons(content(k), content(dict.__getitem__(d, k)))
                 for k in ks])


def same(a, b):
    """Equality of content as an SBool or bool."""
    try:
        return SBool(z3.simplify(content(a) == content(b)))
    except z3.Z3Exception:
        return False


# ------------------------------------------------------------- concretize
def concretize(v, model):
    if isinstance(v, (list, tuple)):
        return [concretize(i, model) for i in v]
    if isinstance(v, dict):
        return {str(k): concretize(i, model) for k, i in v.items()}
    if not hasattr(v, "t") and not z3.is_expr(v):
        return v if isinstance(v, (int, str, float, bool, type(None))) \
            else repr(v)
    if model is None:
        return None
    t = model.eval(v.t if hasattr(v, "t") else v, model_completion=True)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return float(t.as_fraction())
    if z3.is_algebraic_value(t):
        return float(t.approx(20).as_fraction())
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    if z3.is_string_value(t):
        return _dec(t)
    return str(t)
