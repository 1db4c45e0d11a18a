"""Loads /repo's modules: transformed for symbolic runs, as they are for
concrete replays."""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import sys
import types
from . import core, ghost, rt
from .transform import transform

REPO = os.environ.get("PYVC_REPO", "/repo")
_code = {}
_memo_fns = {}


def code_of(path, modname):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _code:
        with open(path, encoding="utf-8") as f:
            _code[k] = transform(f.read(), path, modname)
    return _code[k]


class SysProxy(types.ModuleType):
    def __getattr__(self, n):
        return getattr(sys, n)


class ModulesView(dict):
    def __init__(self, w):
        self.w = w

    def __getitem__(self, n):
        if n in self.w.modules:
            return self.w.modules[n]
        return sys.modules[n]

    def __contains__(self, n):
        return n in self.w.modules or n in sys.modules

    def get(self, n, d=None):
        return self[n] if n in self else d


def _memo(f):
    cache = _memo_fns.setdefault(f.__module__ + "." + f.__qualname__, {})

    def g(x, *a, **k):
        if type(x) is not str:
            return f(x, *a, **k)
        key = (x, repr(a), repr(sorted(k.items())))
        if key not in cache:
            cache[key] = f(x, *a, **k)
        return cache[key]
    return g


class World:
    """Symbolic world: a fresh copy of the package per path."""
    concrete = False

    def __init__(self, env):
        self.env = env
        self.modules = {}
        rt.RT.world = self
        rt.RT.hooks = {}
        self.hooks = rt.RT.hooks
        b = dict(vars(builtins))
        b["__import__"] = self._import
        self.builtins = b
        self.build_fakes()

    def build_fakes(self):
        env = self.env
        f = self.fakes = {}
        f["time"] = env.fake_time()
        f["random"] = env.fake_random()
        f["uuid"] = env.fake_uuid()
        f["atexit"] = env.fake_atexit()
        f["multiprocessing"] = env.fake_multiprocessing()
        f["persidict"], f["persidict.persi_dict"] = ghost.persidict_module()
        f["parameterizable"] = ghost.parameterizable_module()
        f["sklearn"], f["sklearn.model_selection"] = ghost.sklearn_module()
        f["torch"], f["psutil"] = ghost.misc_modules()
        f["pandas"] = ghost.OpaqueModule("pandas")
        j = f["joblib"] = types.ModuleType("joblib")
        j.hashing = f["joblib.hashing"] = types.ModuleType("joblib.hashing")
        j.hashing.Hasher = j.hashing.NumpyHasher = ghost._Hasher
        d = f["deepdiff"] = types.ModuleType("deepdiff")
        d.DeepDiff = ghost.DeepDiff
        s = f["sys"] = SysProxy("sys")
        s.stdout = ghost.Stream("stdout")
        s.stderr = ghost.Stream("stderr")
        s.__stdout__, s.__stderr__ = s.stdout, s.stderr
        s.modules = ModulesView(self)

        def default_hook(*a):
            env.hooks.get("default_excepthook", lambda *a: None)(*a)
        s.excepthook = s.__excepthook__ = default_hook
        self.sys = s
        io_ = f["io"] = types.ModuleType("io")
        io_.StringIO = ghost.StringIO
        io_.TextIOBase = object
        lg = f["logging"] = types.ModuleType("logging")
        lg.Handler, lg.root = ghost.Handler, ghost.Logger()
        lg.getLogger = lambda name=None: lg.root
        lg.DEBUG, lg.INFO, lg.WARNING, lg.ERROR = 10, 20, 30, 40
        lg.StreamHandler = ghost.Handler
        lg.NOTSET, lg.CRITICAL = 0, 50
        lg.LogRecord = ghost.LogRecord
        self.logging = lg
        tb = f["traceback"] = types.ModuleType("traceback")

        def print_exc(limit=None, file=None, chain=True):
            (file or s.stderr).write("<traceback>\n")

        def format_exception(*a, **k):
            return ["Traceback (most recent call last):\n", "<frames>\n"]

        def print_exception(*a, **k):
            s.stderr.write("<traceback>\n")
        tb.print_exc, tb.format_exception = print_exc, format_exception
        tb.format_exc = lambda *a, **k: "".join(format_exception())
        tb.print_exception = print_exception
        tb.print_stack = lambda *a, **k: None
        import autopep8
        ap = f["autopep8"] = types.ModuleType("autopep8")
        ap.fix_code = _memo(autopep8.fix_code)
        cp = f["copy"] = types.ModuleType("copy")
        import copy as _copy
        cp.copy, cp.deepcopy = _copy.copy, _copy.deepcopy
        self.hooks["open"] = lambda *a, **k: ghost.NullStream("devnull")

    # -- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if name in self.fakes or top in self.fakes:
            if fromlist:
                return self.fakes.get(name) or self.fakes[top]
            return self.fakes[top]
        if top != "pythagoras":
            return importlib.__import__(name, None, None, fromlist or (), 0)
        m = self.load(name)
        if not fromlist:
            return self.modules[top]
        for n in fromlist:
            if n != "*" and not hasattr(m, n):
                try:
                    self.load(name + "." + n)
                except ModuleNotFoundError:
                    pass
        return m

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = None
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            path, pkg = os.path.join(base, "__init__.py"), name
        elif os.path.isfile(base + ".py"):
            path, pkg = base + ".py", name.rpartition(".")[0]
        else:
            raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name)
        m.__file__, m.__package__ = path, pkg
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["vc__"] = rt.RT
        if pkg == name:
            m.__path__ = [base]
        self.modules[name] = m
        exec(code_of(path, name), m.__dict__)
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def start(self):
        return self.load("pythagoras")

    def close(self):
        pass

    # -- callee contracts
    def contract(self, modname, name, fn):
        """Replaces a function by its contract wherever it is imported."""
        m = self.modules.get(modname)
        if m is None or not hasattr(m, name):
            return False
        orig = getattr(m, name)
        for x in self.modules.values():
            for k, v in list(vars(x).items()):
                if v is orig:
                    setattr(x, k, fn)
        core.CTX.ex.assumed.add(f"{modname}.{name}")
        return True


_plain = {}


class RepoLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        if self.path not in _plain:
            _plain[self.path] = self.source_to_code(
                self.get_data(self.path), self.path)
        return _plain[self.path]


class RepoFinder(importlib.abc.MetaPathFinder):
    """Imports the package from REPO, compiling each file once."""

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "pythagoras":
            return None
        base = os.path.join(REPO, *name.split("."))
        for f, pkg in ((os.path.join(base, "__init__.py"), True),
                       (base + ".py", False)):
            if os.path.isfile(f):
                return importlib.util.spec_from_file_location(
                    name, f, loader=RepoLoader(name, f),
                    submodule_search_locations=[base] if pkg else None)
        return None


class ConcreteWorld:
    """The real package, imported by CPython, with the ghost dependencies."""
    concrete = True

    def __init__(self, env):
        self.env = env
        self.hooks = {}
        self.saved = {}
        fakes = {}
        fakes["persidict"], fakes["persidict.persi_dict"] = \
            ghost.persidict_module()
        fakes["parameterizable"] = ghost.parameterizable_module()
        fakes["sklearn"], fakes["sklearn.model_selection"] = \
            ghost.sklearn_module()
        fakes["torch"], fakes["psutil"] = ghost.misc_modules()
        self.fakes = fakes
        self.sys = sys
        import logging
        self.logging = logging
        self.state = (sys.stdout, sys.stderr, sys.excepthook,
                      logging.root.handlers[:], logging.root.level)

    def start(self):
        if not any(isinstance(f, RepoFinder) for f in sys.meta_path):
            sys.meta_path.insert(0, RepoFinder())
        for n in [n for n in sys.modules
                  if n == "pythagoras" or n.startswith("pythagoras.")]:
            del sys.modules[n]
        sys.modules.update(self.fakes)
        sys.dont_write_bytecode = True
        import time
        import random
        import uuid
        import atexit
        import multiprocessing
        m = importlib.import_module("pythagoras")
        subst = {}
        env = self.env
        for real, fake in ((time, env.fake_time()),
                           (random, env.fake_random()),
                           (uuid, env.fake_uuid()),
                           (atexit, env.fake_atexit()),
                           (multiprocessing, env.fake_multiprocessing())):
            subst[id(real)] = fake
            for k, v in vars(fake).items():
                if not k.startswith("__") and hasattr(real, k):
                    subst[id(getattr(real, k))] = v
        self.keep = subst
        self.modules = {}
        for n, x in list(sys.modules.items()):
            if n == "pythagoras" or n.startswith("pythagoras."):
                self.modules[n] = x
                for k, v in list(vars(x).items()):
                    if id(v) in subst:
                        setattr(x, k, subst[id(v)])
        lp = getattr(m, "LoggingPortal", None)
        if lp is not None:
            lp.entropy_infuser = subst[id(random)].Random()
        return m

    def contract(self, modname, name, fn):
        return False

    def close(self):
        import logging
        sys.stdout, sys.stderr, sys.excepthook = self.state[:3]
        logging.root.handlers = self.state[3]
        logging.root.setLevel(self.state[4])
