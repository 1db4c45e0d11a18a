"""Stand-in for the old `persidict` release (Dec 2024 API) that pythagoras
0.17.2 was written for and that is not installed here.

File-backed, like the original: base_dir/<key parts...>.<file_type>.
Only used when checks REPLAY inputs on the real pythagoras code.
The contract it implements is the one assumed for PersiDict in
/verif/DESIGN.md ("assumed contracts on dependencies").
"""
from .safe import (SAFE_CHARS_SET, replace_unsafe_chars, SafeStrTuple,
                   get_safe_chars)
from .persi_dict import PersiDict, FileDirDict, PersiDictKey
