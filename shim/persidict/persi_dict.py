import os
import pickle
import pathlib
from collections.abc import MutableMapping
from parameterizable import ParameterizableClass, register_parameterizable_class
from .safe import SafeStrTuple

PersiDictKey = SafeStrTuple | str


class PersiDict(MutableMapping, ParameterizableClass):
    def __init__(self, immutable_items=False, digest_len=8,
                 base_class_for_values=None, *a, **k):
        self.immutable_items = bool(immutable_items)
        self.digest_len = digest_len
        self.base_class_for_values = base_class_for_values

    def get_params(self):
        return dict(immutable_items=self.immutable_items,
                    digest_len=self.digest_len,
                    base_class_for_values=self.base_class_for_values)

    def __contains__(self, key):
        raise NotImplementedError

    def __getitem__(self, key):
        raise NotImplementedError

    def __setitem__(self, key, value):
        raise NotImplementedError

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        raise NotImplementedError

    def __len__(self):
        raise NotImplementedError

    def _generic_iter(self, iter_type):
        raise NotImplementedError

    def __iter__(self):
        return self._generic_iter("keys")

    def keys(self):
        return self._generic_iter("keys")

    def values(self):
        return self._generic_iter("values")

    def items(self):
        return self._generic_iter("items")

    def timestamp(self, key):
        raise NotImplementedError

    def get(self, key, default=None):
        return self[key] if key in self else default

    def delete_if_exists(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        key = SafeStrTuple(key)
        if key in self:
            try:
                self.__delitem__(key)
                return True
            except Exception:
                return False
        return False

    def newest_keys(self, max_n=None):
        ks = sorted(self.keys(), key=self.timestamp, reverse=True)
        return ks if max_n is None else ks[:max_n]

    def newest_values(self, max_n=None):
        return [self[k] for k in self.newest_keys(max_n)]

    def clear(self):
        if self.immutable_items:
            raise KeyError("Can't delete an immutable key-value pair")
        for k in list(self.keys()):
            self.delete_if_exists(k)


_BACKUP = {}


class FileDirDict(PersiDict):
    def __init__(self, base_dir="__file_dir_dict__", file_type="pkl",
                 immutable_items=False, digest_len=8,
                 base_class_for_values=None):
        super().__init__(immutable_items, digest_len, base_class_for_values)
        self._base_dir = str(base_dir)
        self.file_type = file_type
        assert file_type in ("pkl", "json") or issubclass(
            base_class_for_values, str)
        os.makedirs(self._base_dir, exist_ok=True)
        self._base_dir = os.path.abspath(self._base_dir)

    @property
    def base_dir(self):
        return self._base_dir

    @property
    def base_url(self):
        return "file://" + self._base_dir

    def get_params(self):
        p = PersiDict.get_params(self)
        p.update(base_dir=self._base_dir, file_type=self.file_type)
        return p

    def get_subdict(self, key):
        key = SafeStrTuple(key)
        p = self.get_params()
        p["base_dir"] = os.path.join(self._base_dir, *key.str_chain)
        return type(self)(**p)

    def _path(self, key, create=False):
        key = SafeStrTuple(key)
        d = os.path.join(self._base_dir, *key.str_chain[:-1])
        if create:
            os.makedirs(d, exist_ok=True)
        return os.path.join(d, key.str_chain[-1] + "." + self.file_type)

    def _load(self, path):
        if self.file_type == "pkl":
            with open(path, "rb") as f:
                return pickle.loads(f.read())
        with open(path) as f:
            s = f.read()
        if self.file_type == "json":
            import jsonpickle
            return jsonpickle.loads(s, keys=True)
        return s

    def _save(self, path, value):
        tmp = path + ".tmp__"
        if self.file_type == "pkl":
            data = pickle.dumps(value)
        elif self.file_type == "json":
            import jsonpickle
            data = jsonpickle.dumps(value, keys=True).encode()
        else:
            assert isinstance(value, str)
            data = value.encode()
        with open(tmp, "wb") as f:
            f.write(data)
        os.replace(tmp, path)

    def __contains__(self, key):
        return os.path.isfile(self._path(key))

    def __getitem__(self, key):
        p = self._path(key)
        if not os.path.isfile(p):
            raise KeyError(f"File {p} does not exist")
        return self._load(p)

    def __setitem__(self, key, value):
        if self.base_class_for_values is not None:
            assert isinstance(value, self.base_class_for_values)
        p = self._path(key, create=True)
        if self.immutable_items and os.path.exists(p):
            raise KeyError("Can't modify an immutable item")
        self._save(p, value)

    def __delitem__(self, key):
        if self.immutable_items:
            raise KeyError("Can't delete immutable items")
        p = self._path(key)
        if not os.path.isfile(p):
            raise KeyError(f"File {p} does not exist")
        os.remove(p)

    def _walk(self):
        suffix = "." + self.file_type
        base = pathlib.Path(self._base_dir)
        out = []
        for root, _dirs, files in os.walk(self._base_dir):
            rel = pathlib.Path(root).relative_to(base).parts
            for f in sorted(files):
                if f.endswith(suffix):
                    out.append(tuple(rel) + (f[:-len(suffix)],))
        return sorted(out)

    def __len__(self):
        return len(self._walk())

    def _generic_iter(self, iter_type):
        assert iter_type in ("keys", "values", "items")
        for parts in self._walk():
            k = SafeStrTuple(*parts)
            if iter_type == "keys":
                yield k
            elif iter_type == "values":
                yield self[k]
            else:
                yield (k, self[k])

    def timestamp(self, key):
        p = self._path(key)
        if not os.path.isfile(p):
            raise KeyError(f"File {p} does not exist")
        return os.path.getmtime(p)


register_parameterizable_class(FileDirDict)
