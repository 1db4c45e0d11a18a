"""Ghost environment: assumed contracts on dependencies.

One `Env` per path.  The same stand-ins serve symbolic runs and concrete
replays; in a concrete replay values are ordinary Python objects and pickling,
hashing, comparison, logging and streams are the real ones.
"""
import collections.abc
import pickle
import random as _random
import string
import sys
import types
import z3
from . import core, sym
from .core import EngineSignal
from .sym import SBool, SInt, SReal, SStr, SVal

ENV = None
SAFE = set(string.ascii_letters + string.digits + "()_-~.=")


def is_safe(s):
    if isinstance(s, SStr):
        return s.safe
    return isinstance(s, str) and all(c in SAFE for c in s)


class StorageFault(OSError):
    """Raised by the storage in fault-injecting harnesses."""


# =========================================================== persidict
def replace_unsafe_chars(a_str, replace_with):
    if isinstance(a_str, SStr):
        if a_str.safe:
            return a_str
        f = z3.Function("replace_unsafe", sym.S, sym.S, sym.S)
        return SStr(f(a_str.t, sym.sterm(replace_with)), safe=True,
                    low=a_str.low)
    return "".join(c if c in SAFE else replace_with for c in a_str)


class SafeStrTuple(collections.abc.Sequence, collections.abc.Hashable):
    def __init__(self, *args, **kwargs):
        assert len(kwargs) == 0
        assert len(args) > 0
        out = []
        for a in args:
            if isinstance(a, SafeStrTuple):
                out.extend(a.str_chain)
            elif isinstance(a, SStr):
                if not a.safe:
                    assert core.CTX.decide(z3.And(
                        sym.safe_pred(a.t), z3.Length(a.t) > 0)), a
                else:
                    assert a.ne or core.CTX.decide(z3.Length(a.t) > 0)
                out.append(a)
            elif isinstance(a, str):
                assert 0 < len(a) < 254
                assert is_safe(a), a
                out.append(str(a))
            elif isinstance(a, collections.abc.Sequence) and not isinstance(
                    a, collections.abc.Mapping):
                if len(a) > 0:
                    out.extend(SafeStrTuple(*a).str_chain)
            else:
                assert False, f"Invalid argument type: {type(a)}"
        self.str_chain = tuple(out)

    def __getitem__(self, key):
        return self.str_chain[key]

    def __len__(self):
        return len(self.str_chain)

    def __hash__(self):
        return hash(self.str_chain)

    def __repr__(self):
        return f"{type(self).__name__}({self.str_chain})"

    def __eq__(self, other):
        if isinstance(other, SafeStrTuple):
            if type(self).__eq__ != type(other).__eq__:
                return other.__eq__(self)
        else:
            other = SafeStrTuple(other)
        return self.str_chain == other.str_chain

    def __add__(self, other):
        other = SafeStrTuple(other)
        return SafeStrTuple(*(self.str_chain + other.str_chain))

    def __radd__(self, other):
        other = SafeStrTuple(other)
        return SafeStrTuple(*(other.str_chain + self.str_chain))

    def __iter__(self):
        return iter(self.str_chain)

    def __contains__(self, item):
        return item in self.str_chain

    def __reversed__(self):
        return SafeStrTuple(*reversed(self.str_chain))


class ParameterizableClass:
    def __init__(self, *a, **k):
        pass

    def get_params(self):
        return {}

    def __get_portable_params__(self):
        out = {"__class_name__": type(self).__name__}
        for k, v in self.get_params().items():
            if isinstance(v, ParameterizableClass):
                v = v.__get_portable_params__()
            out[k] = v
        register_parameterizable_class(type(self))
        return out


_registry = {}


def register_parameterizable_class(cls):
    _registry[cls.__name__] = cls


def get_object_from_portable_params(params):
    params = dict(params)
    cls = _registry[params.pop("__class_name__")]
    for k, v in params.items():
        if isinstance(v, dict) and "__class_name__" in v:
            params[k] = get_object_from_portable_params(v)
    return cls(**params)


def sort_dict_by_keys(d):
    return {k: d[k] for k in sorted(d)}


PersiDictKey = SafeStrTuple | str


class PersiDict(collections.abc.MutableMapping, ParameterizableClass):
    def __init__(self, immutable_items=False, digest_len=8,
                 base_class_for_values=None, *a, **k):
        self.immutable_items = bool(immutable_items)
        self.digest_len = digest_len
        self.base_class_for_values = base_class_for_values

    def get_params(self):
        return dict(immutable_items=self.immutable_items,
                    digest_len=self.digest_len,
                    base_class_for_values=self.base_class_for_values)

    def __contains__(self, key):
        raise NotImplementedError

    def __getitem__(self, key):
        raise NotImplementedError

    def __setitem__(self, key, value):
        raise NotImplementedError

    def __delitem__(self, key):
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError

    def _generic_iter(self, iter_type):
        raise NotImplementedError

    def __iter__(self):
        return self._generic_iter("keys")

    def keys(self):
        return self._generic_iter("keys")

    def values(self):
        return self._generic_iter("values")

    def items(self):
        return self._generic_iter("items")

    def timestamp(self, key):
        raise NotImplementedError

    def get(self, key, default=None):
        return self[key] if key in self else default

    def delete_if_exists(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        key = SafeStrTuple(key)
        if key in self:
            try:
                self.__delitem__(key)
                return True
            except EngineSignal:
                raise
            except Exception:
                return False
        return False

    def newest_keys(self, max_n=None):
        ks = sorted(self.keys(), key=self.timestamp, reverse=True)
        return ks if max_n is None else ks[:max_n]

    def newest_values(self, max_n=None):
        return [self[k] for k in self.newest_keys(max_n)]

    def clear(self):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        for k in list(self.keys()):
            self.delete_if_exists(k)


class Entry:
    __slots__ = ("parts", "ftype", "blob", "ts", "n")

    def __init__(self, parts, ftype, blob, ts, n):
        self.parts, self.ftype, self.blob = parts, ftype, blob
        self.ts, self.n = ts, n


def parts_equal(a, b):
    """Decides whether two paths are equal."""
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return False
            continue
        c = x == y
        if c is False:
            return False
        if isinstance(c, SBool):
            conds.append(c.t)
    if not conds:
        return True
    if len(conds) > 1:
        conds = sym.reduced(conds)
    return core.CTX.decide(z3.And(*conds) if len(conds) > 1 else conds[0])


class GhostFS:
    """The storage shared by all portals of a path: paths to pickled data."""

    def __init__(self, env):
        self.env = env
        self.live = []
        self.log = []            # (op, parts, ftype)
        self.n = 0

    def find(self, parts, ftype):
        for e in self.live:
            if e.ftype == ftype and parts_equal(e.parts, parts):
                return e
        return None

    def put(self, parts, ftype, blob, ts=None):
        e = self.find(parts, ftype)
        self.n += 1
        ts = self.env.clock if ts is None else ts
        if e is None:
            e = Entry(parts, ftype, blob, ts, self.n)
            self.live.append(e)
        else:
            e.blob, e.ts, e.n = blob, ts, self.n
        return e

    def drop(self, e):
        self.live.remove(e)

    def under(self, prefix, ftype):
        return [e for e in self.live if e.ftype == ftype
                and len(e.parts) > len(prefix)
                and parts_equal(e.parts[:len(prefix)], prefix)]

    def snapshot(self):
        return [(e.parts, e.ftype, e.blob) for e in self.live]


class GhostDir:
    """A directory name (base_dir) with possibly symbolic parts."""

    def __init__(self, parts):
        self.parts = parts

    def __eq__(self, o):
        return isinstance(o, GhostDir) and parts_equal(self.parts, o.parts)

    def __hash__(self):
        return 1

    def __str__(self):
        return "/" + "/".join(str(p) for p in self.parts)
    __repr__ = __str__

    def __fspath__(self):
        return str(self)


class FileDirDict(PersiDict):
    def __init__(self, base_dir="__file_dir_dict__", file_type="pkl",
                 immutable_items=False, digest_len=8,
                 base_class_for_values=None):
        super().__init__(immutable_items, digest_len, base_class_for_values)
        if not isinstance(base_dir, GhostDir):
            base_dir = GhostDir(tuple(
                p for p in str(base_dir).split("/") if p))
        self._dir = base_dir
        self.file_type = file_type
        assert file_type in ("pkl", "json") or issubclass(
            base_class_for_values, str)

    @property
    def base_dir(self):
        return self._dir

    _base_dir = base_dir

    @property
    def base_url(self):
        return "file://" + str(self._dir)

    def get_params(self):
        p = PersiDict.get_params(self)
        p.update(base_dir=self._dir, file_type=self.file_type)
        return p

    def get_subdict(self, key):
        key = SafeStrTuple(key)
        p = self.get_params()
        p["base_dir"] = GhostDir(self._dir.parts + key.str_chain)
        return type(self)(**p)

    def _path(self, key):
        return self._dir.parts + SafeStrTuple(key).str_chain

    def __contains__(self, key):
        p = self._path(key)
        ENV.storage("contains", self, p)
        return ENV.fs.find(p, self.file_type) is not None

    def __getitem__(self, key):
        p = self._path(key)
        ENV.storage("get", self, p)
        e = ENV.fs.find(p, self.file_type)
        if e is None:
            raise KeyError("no such file")
        return thaw(e.blob)

    def __setitem__(self, key, value):
        if self.base_class_for_values is not None:
            assert isinstance(value, self.base_class_for_values) or (
                isinstance(value, SStr)
                and issubclass(str, self.base_class_for_values))
        p = self._path(key)
        ENV.storage("set", self, p, value)
        if self.immutable_items and ENV.fs.find(
                p, self.file_type) is not None:
            raise KeyError("Can't modify an immutable item")
        ENV.fs.put(p, self.file_type, freeze(value, self.file_type))
        ENV.fs.log.append(("set", p, self.file_type))

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete immutable items")
        p = self._path(key)
        ENV.storage("del", self, p)
        e = ENV.fs.find(p, self.file_type)
        if e is None:
            raise KeyError("no such file")
        ENV.fs.drop(e)
        ENV.fs.log.append(("del", p, self.file_type))

    def _entries(self):
        ENV.storage("iter", self, self._dir.parts)
        h = ENV.hooks.get("enumerate")
        if h is not None:
            r = h(self)
            if r is not None:
                return r
        out = ENV.fs.under(self._dir.parts, self.file_type)
        if all(isinstance(p, str) for e in out for p in e.parts):
            out.sort(key=lambda e: e.parts)
        return out

    def _vc_len(self):
        out = self._entries()
        if hasattr(type(out), "_vc_len"):
            return out._vc_len()
        return len(out)

    def __len__(self):
        return self._vc_len()

    def _generic_iter(self, iter_type):
        assert iter_type in ("keys", "values", "items")
        out = self._entries()
        if hasattr(type(out), "_vc_map"):
            d = self
            return out._vc_map(
                (lambda k: k) if iter_type == "keys" else
                (lambda k: d[k]) if iter_type == "values" else
                (lambda k: (k, d[k])))
        return self._gen(out, iter_type)

    def _gen(self, out, iter_type):
        n = len(self._dir.parts)
        for e in out:
            if e not in ENV.fs.live:
                continue
            k = SafeStrTuple(*e.parts[n:])
            if iter_type == "keys":
                yield k
            elif iter_type == "values":
                yield self[k]
            else:
                yield (k, self[k])

    def timestamp(self, key):
        h = ENV.hooks.get("timestamp")
        if h is not None:
            r = h(self, key)
            if r is not None:
                return r
        e = ENV.fs.find(self._path(key), self.file_type)
        if e is None:
            raise KeyError("no such file")
        return e.ts


# ------------------------------------------------------------- pickling
class Frozen:
    __slots__ = ("kind", "cls", "a", "b")

    def __init__(self, kind, cls, a, b=None):
        self.kind, self.cls, self.a, self.b = kind, cls, a, b


def freeze(v, ftype="pkl"):
    if core.CTX is not None and core.CTX.concrete:
        if ftype == "pkl":
            return ("pkl", pickle.dumps(v))
        if ftype == "json":
            import jsonpickle
            return ("json", jsonpickle.dumps(v, keys=True))
        assert isinstance(v, str)
        return ("raw", str(v))
    return ("sym", _freeze(v, {}))


def _freeze(v, memo):
    if getattr(type(v), "_vc_sym", False) or v is None or type(v) in (
            bool, int, float, str, bytes, type(Ellipsis)):
        return v
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, type) or isinstance(v, (types.FunctionType,
                                             types.ModuleType)):
        if isinstance(v, types.ModuleType):
            raise TypeError("cannot pickle module")
        return Frozen("ref", None, v)
    if hasattr(type(v), "_vc_frozen"):
        return Frozen("ref", None, v._vc_frozen())
    if type(v) in (tuple, list, set, frozenset):
        f = Frozen("seq", type(v), None)
        memo[id(v)] = (f, v)
        f.a = [_freeze(i, memo) for i in v]
        return f
    if type(v) is dict:
        f = Frozen("dict", dict, None)
        memo[id(v)] = (f, v)
        f.a = [(_freeze(k, memo), _freeze(i, memo)) for k, i in v.items()]
        return f
    if isinstance(v, BaseException):
        f = Frozen("exc", type(v), None)
        memo[id(v)] = (f, v)
        f.a = _freeze(v.args, memo)
        f.b = _freeze(dict(v.__dict__), memo)
        return f
    if type(v).__module__.startswith(("pythagoras", "persidict", "pyvc",
                                      "parameterizable", "props")) \
            or isinstance(v, (dict, str)):
        f = Frozen("obj", type(v), None)
        memo[id(v)] = (f, v)
        if isinstance(v, dict):
            f.a = ("d", [(_freeze(k, memo), _freeze(dict.__getitem__(v, k),
                                                    memo))
                         for k in dict.keys(v)])
        elif isinstance(v, str):
            f.a = ("s", str.__str__(v))
        f.b = _freeze(sym.getstate(v), memo)
        return f
    return Frozen("ref", None, v)


def thaw(blob):
    kind, data = blob
    if kind == "pkl":
        return pickle.loads(data)
    if kind == "json":
        import jsonpickle
        return jsonpickle.loads(data, keys=True)
    if kind == "raw":
        return data
    return _thaw(data, {})


def _thaw(f, memo):
    if not isinstance(f, Frozen):
        return f
    if id(f) in memo:
        return memo[id(f)]
    if f.kind == "ref":
        return f.a
    if f.kind == "seq":
        out = f.cls(_thaw(i, memo) for i in f.a)
    elif f.kind == "dict":
        out = {}
        for k, i in f.a:
            out[_thaw(k, memo)] = _thaw(i, memo)
    elif f.kind == "exc":
        out = f.cls.__new__(f.cls, *_thaw(f.a, memo))
        out.args = _thaw(f.a, memo)
        out.__dict__.update(_thaw(f.b, memo))
    else:
        if f.a and f.a[0] == "s":
            out = str.__new__(f.cls, f.a[1])
        else:
            out = f.cls.__new__(f.cls)
        if f.a and f.a[0] == "d":
            for k, i in f.a[1]:
                dict.__setitem__(out, _thaw(k, memo), _thaw(i, memo))
        state = _thaw(f.b, memo)
        memo[id(f)] = out
        if hasattr(out, "__setstate__"):
            if state is not None:
                out.__setstate__(state)
        elif state:
            out.__dict__.update(state)
        return out
    memo[id(f)] = out
    return out


# ----------------------------------------------------- contracts: hashing
hexdg = z3.Function("hexdigest", sym.Content, sym.S)



def ground(x, depth=12):
    if getattr(type(x), "_vc_sym", False) or hasattr(type(x), "_vc_content"):
        return False
    if depth == 0:
        return False
    if isinstance(x, (tuple, list, set, frozenset)):
        return all(ground(i, depth - 1) for i in x)
    if isinstance(x, dict) and type(x) is dict:
        return all(ground(k, depth - 1) and ground(v, depth - 1)
                   for k, v in x.items())
    if x is None or type(x) in (str, int, float, bool):
        return True
    if isinstance(x, type):
        return True
    st = [getstate(x)]
    if isinstance(x, dict):
        st += list(dict.items(x))
    return all(ground(i, depth - 1) for i in st)


def getstate(x):
    return sym.getstate(x)


def signature_contract(x):
    """get_hash_signature(x): a text of 22 base-32 digits that is a function
    of the content of x, different for different contents (C01, C02; absence
    of SHA-256 collisions is assumed)."""
    c = core.CTX
    if c.concrete:
        raise AssertionError
    con = z3.simplify(sym.content(x))
    if ground(x):
        import hashlib
        h = int(hashlib.sha256(con.sexpr().encode()).hexdigest(), 16)
        out = ""
        while h:
            out = "0123456789abcdefghijklmnopqrstuv"[h & 31] + out
            h >>= 5
        out = out[:22]
        sym.GROUND[out] = con
        c.keep.append(con)
        t = sym.sigf(con)
        c.axiom(("sig", con.sexpr()), z3.And(
            t == z3.StringVal(out),
            sym.siginv(z3.StringVal(out)) == con))
        return out
    return sym.SSig("", con)


class _Hasher:
    def __init__(self, hash_name="md5", **kw):
        self.hash_name = hash_name

    def hash(self, obj, return_digest=True):
        con = sym.content(obj)
        f = hexdg if self.hash_name == "sha256" else z3.Function(
            "hexdigest_" + str(self.hash_name), sym.Content, sym.S)
        return SStr(f(con), safe=True, low=True)


class DeepDiff:
    """Empty exactly when the two contents are equal."""

    def __init__(self, t1, t2, **kw):
        s = sym.same(t1, t2)
        if kw and not (s is True):
            coarse = z3.Function("deepdiff_coarse_" + "_".join(sorted(kw)),
                                 sym.Content, sym.Content, z3.BoolSort())
            core.CTX.approximate("DeepDiff options")
            s = SBool(z3.Or(s.t, coarse(sym.content(t1), sym.content(t2))))
        self.same = s

    def _vc_len(self):
        s = self.same
        if isinstance(s, SBool):
            return sym.wrapnum(z3.If(s.t, z3.IntVal(0), z3.IntVal(1)))
        return 0 if s else 1

    def __len__(self):
        return 0 if self.same else 1

    def __bool__(self):
        return not bool(self.same)

    def __eq__(self, o):
        if o == {}:
            return self.same
        return NotImplemented
    __hash__ = None

    def _vc_str(self):
        return "<diff>"


# ------------------------------------------------------ streams and logging
class Stream:
    def __init__(self, name):
        self.name = name
        self.written = []
        self.flushed = 0

    def write(self, data):
        self.written.append(data)

    def flush(self):
        self.flushed += 1

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def text(self):
        return joined(self.written)


def joined(xs):
    out = ""
    for x in xs:
        out = out + x
    return out


class StringIO(Stream):
    def __init__(self, initial_value="", newline="\n"):
        super().__init__("buffer")
        if initial_value:
            self.written.append(initial_value)

    def getvalue(self):
        return joined(self.written)


class NullStream(Stream):
    pass


class LogRecord:
    def __init__(self, levelno, msg):
        self.levelno, self.msg = levelno, msg

    def getMessage(self):
        return self.msg


class Handler:
    def __init__(self, level=0):
        self.level = level
        self.formatter = None
        self.filters = []

    def format(self, record):
        return record.msg

    def handle(self, record):
        self.emit(record)
        return True

    def emit(self, record):
        raise NotImplementedError

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, f):
        self.formatter = f

    def acquire(self):
        pass
    release = flush = close = acquire


class Logger:
    def __init__(self):
        self.handlers = []
        self.level = 30
        self.disabled = False

    def log(self, levelno, msg):
        if levelno >= self.level:
            rec = LogRecord(levelno, msg)
            for h in self.handlers:
                if rec.levelno >= h.level:
                    h.handle(rec)

    def addHandler(self, h):
        if h not in self.handlers:
            self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def setLevel(self, n):
        self.level = n


# ------------------------------------------------------------------- env
class Env:
    def __init__(self, concrete, rng=None):
        global ENV
        ENV = self
        sym.GROUND.clear()
        self.concrete = concrete
        self.fs = GhostFS(self)
        self.hooks = {}
        self.clock = 1_700_000_000.0
        self.slept = []
        self.atexit = []
        self.procs = []
        self.rng = rng or _random.Random(0)
        self.n_uuid = 0
        self.fake_patches = []
        _registry.clear()
        _registry["FileDirDict"] = FileDirDict

    def storage(self, op, d, path, *v):
        h = self.hooks.get("storage")
        if h is not None:
            h(op, d, path, *v)

    def draw(self, lo=0.0, hi=1.0, what="draw"):
        h = self.hooks.get("draw")
        if h is not None:
            return h(lo, hi, what)
        return lo + (hi - lo) * 0.5

    # fakes shared by both modes
    def fake_time(env):
        m = types.ModuleType("time")

        def time():
            h = env.hooks.get("time")
            return h() if h else env.clock

        def sleep(d):
            env.slept.append(d)
            h = env.hooks.get("sleep")
            if h:
                h(d)
            else:
                env.clock = env.clock + d
        m.time, m.sleep = time, sleep
        m.monotonic = m.perf_counter = time
        m.time_ns = lambda: int(time() * 1e9)
        return m

    def fake_random(env):
        m = types.ModuleType("random")

        class Random:
            what = "generator"

            def __init__(self, seed=None):
                pass

            def random(self):
                return env.draw(0.0, 1.0, self.what)

            def uniform(self, a, b):
                return env.draw(a, b, self.what)

            def randint(self, a, b):
                h = env.hooks.get("randint")
                if h:
                    return h(a, b)
                return env.rng.randint(a, b)

            def randrange(self, a, b=None):
                return self.randint(0, a - 1) if b is None \
                    else self.randint(a, b - 1)

            def choice(self, xs):
                h = env.hooks.get("choice")
                return h(xs) if h else xs[env.rng.randrange(len(xs))]

            def shuffle(self, xs):
                h = env.hooks.get("shuffle")
                if h:
                    h(xs)
                else:
                    env.rng.shuffle(xs)

            def sample(self, xs, k):
                return env.rng.sample(xs, k)

            def seed(self, *a):
                pass
        r = Random()
        r.what = "module"
        m.Random = Random
        for n in ("random", "uniform", "randint", "randrange", "choice",
                  "shuffle", "sample", "seed"):
            setattr(m, n, getattr(r, n))
        return m

    def fake_uuid(env):
        m = types.ModuleType("uuid")

        class U:
            def __init__(self):
                h = env.hooks.get("uuid")
                if h:
                    self.int = h()
                else:
                    env.n_uuid += 1
                    self.int = _random.Random(env.n_uuid).getrandbits(128)
                if isinstance(self.int, int):
                    self.hex = "%032x" % self.int
        m.uuid4 = U
        m.uuid1 = U
        m.getnode = lambda: 0x1234567890
        return m

    def fake_atexit(env):
        m = types.ModuleType("atexit")
        m.register = lambda f, *a, **k: env.atexit.append((f, a, k)) or f
        m.unregister = lambda f: None
        return m

    def fake_multiprocessing(env):
        m = types.ModuleType("multiprocessing")

        class Process:
            def __init__(self, group=None, target=None, name=None, args=(),
                         kwargs=None, daemon=None):
                self.target, self.args = target, args
                self.kwargs = kwargs or {}
                self.started = self.joined = False

            def start(self):
                self.started = True
                env.procs.append(self)
                h = env.hooks.get("process_start")
                if h:
                    h(self)

            def join(self, timeout=None):
                self.joined = True
                h = env.hooks.get("process_join")
                if h:
                    h(self)

        class Ctx:
            pass
        Ctx.Process = Process
        m.get_context = lambda kind=None: Ctx()
        m.Process = Process
        return m


class Opaque:
    """A library object whose behaviour does not matter here."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Opaque()

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_vc"):
            raise AttributeError(n)
        return Opaque()


class OpaqueModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque


def persidict_module():
    m = types.ModuleType("persidict")
    for n in ("SafeStrTuple", "replace_unsafe_chars", "PersiDict",
              "FileDirDict", "PersiDictKey"):
        setattr(m, n, globals()[n])
    m.SAFE_CHARS_SET = SAFE
    m.get_safe_chars = lambda: set(SAFE)
    p = types.ModuleType("persidict.persi_dict")
    p.PersiDict, p.PersiDictKey = PersiDict, PersiDictKey
    m.persi_dict = p
    return m, p


def parameterizable_module():
    m = types.ModuleType("parameterizable")
    for n in ("ParameterizableClass", "register_parameterizable_class",
              "get_object_from_portable_params", "sort_dict_by_keys"):
        setattr(m, n, globals()[n])
    return m


def sklearn_module():
    m = types.ModuleType("sklearn")
    s = types.ModuleType("sklearn.model_selection")

    class ParameterGrid:
        def __init__(self, grid):
            self.grid = grid

        def __iter__(self):
            import itertools
            ks = sorted(self.grid)
            for vs in itertools.product(*(self.grid[k] for k in ks)):
                yield dict(zip(ks, vs))
    s.ParameterGrid = ParameterGrid
    m.model_selection = s
    return m, s


def misc_modules():
    torch = types.ModuleType("torch")
    torch.cuda = types.SimpleNamespace(device_count=lambda: 0)
    psutil = types.ModuleType("psutil")
    psutil.cpu_count = lambda *a, **k: 8
    psutil.getloadavg = lambda: (0.0, 0.0, 0.0)
    psutil.disk_usage = lambda p: ("disk", 1)
    psutil.virtual_memory = lambda: ("mem", 1)
    psutil.cpu_percent = lambda *a, **k: 1.0
    return torch, psutil
