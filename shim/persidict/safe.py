import string
from collections.abc import Sequence, Hashable, Mapping

SAFE_CHARS_SET = set(string.ascii_letters + string.digits + "()_-~.=")
SAFE_STRING_MAX_LENGTH = 254


def get_safe_chars():
    return set(SAFE_CHARS_SET)


def replace_unsafe_chars(a_str, replace_with):
    return "".join(c if c in SAFE_CHARS_SET else replace_with for c in a_str)


class SafeStrTuple(Sequence, Hashable):
    def __init__(self, *args, **kwargs):
        assert len(kwargs) == 0
        assert len(args) > 0
        out = []
        for a in args:
            if isinstance(a, SafeStrTuple):
                out.extend(a.str_chain)
            elif isinstance(a, str):
                assert len(a) > 0
                assert len(a) < SAFE_STRING_MAX_LENGTH
                assert all(c in SAFE_CHARS_SET for c in a), a
                out.append(a)
            elif isinstance(a, Sequence) and not isinstance(a, Mapping):
                if len(a) > 0:
                    out.extend(SafeStrTuple(*a).str_chain)
            else:
                assert False, f"Invalid argument type: {type(a)}"
        self.str_chain = tuple(out)

    def __getitem__(self, key):
        return self.str_chain[key]

    def __len__(self):
        return len(self.str_chain)

    def __hash__(self):
        return hash(self.str_chain)

    def __repr__(self):
        return f"{type(self).__name__}({self.str_chain})"

    def __eq__(self, other):
        if isinstance(other, SafeStrTuple):
            if type(self).__eq__ != type(other).__eq__:
                return other.__eq__(self)
        else:
            other = SafeStrTuple(other)
        return self.str_chain == other.str_chain

    def __add__(self, other):
        other = SafeStrTuple(other)
        return SafeStrTuple(*(self.str_chain + other.str_chain))

    def __radd__(self, other):
        other = SafeStrTuple(other)
        return SafeStrTuple(*(other.str_chain + self.str_chain))

    def __iter__(self):
        return iter(self.str_chain)

    def __contains__(self, item):
        return item in self.str_chain

    def __reversed__(self):
        return SafeStrTuple(*reversed(self.str_chain))
