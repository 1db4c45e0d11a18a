"""Stand-in for the old `parameterizable` release (Dec 2024 API) that
pythagoras 0.17.2 was written for and that is not installed here.

Only used when checks REPLAY inputs on the real pythagoras code.
"""
_registry = {}


class ParameterizableClass:
    def __init__(self, *a, **k):
        pass

    def get_params(self):
        return {}

    def __get_portable_params__(self):
        out = {"__class_name__": type(self).__name__}
        for k, v in self.get_params().items():
            if isinstance(v, ParameterizableClass):
                v = v.__get_portable_params__()
            out[k] = v
        register_parameterizable_class(type(self))
        return out


def register_parameterizable_class(cls):
    _registry[cls.__name__] = cls


def get_object_from_portable_params(params):
    params = dict(params)
    cls = _registry[params.pop("__class_name__")]
    for k, v in params.items():
        if isinstance(v, dict) and "__class_name__" in v:
            params[k] = get_object_from_portable_params(v)
    return cls(**params)


def sort_dict_by_keys(d):
    return {k: d[k] for k in sorted(d)}
