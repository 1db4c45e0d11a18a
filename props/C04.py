"""C04: the first value written under a key of a first-entry store stays."""
from pyvc.api import harness


def store(H, p):
    from pyvc.ghost import FileDirDict
    w = FileDirDict("store", "pkl", immutable_items=True, digest_len=0)
    F = H.get("_800_persidict_extensions.first_entry_dict", "FirstEntryDict")
    return w, F(w, p)


# contents that are nearly the same
NEAR = [([1, 2], [2, 1], [1, 2, 2], (1, 2)), (1, 1.0, True, "1", 2),
        ("text", "Text", "text ", b"text"), (0.1 + 0.2, 0.3, 0.3000001),
        ({"a": 1, "b": None}, {"a": 1}, {"a": 1, "b": 0}, {"a": 1.0,
                                                           "b": None}),
        (None, 0, "", [], {}, False), ({1, 2}, {1, 2, 3}, [1, 2]),
        ([[1, [2, 3]], 4], [[1, [3, 2]], 4], [4, [1, [2, 3]]]),
        ({"k": [{"x": 1}, {"x": 2}]}, {"k": [{"x": 2}, {"x": 1}]}),
        ("a" * 5000, "a" * 4999 + "b"), (list(range(300)), list(range(301)))]


def some_values(H, *names):
    """Any values; in concrete runs also ones that are nearly the same."""
    if H.sym or H.flag("unrelated"):
        return [H.val(n) for n in names]
    group = NEAR[H.choose(len(NEAR), "group")]
    return [H.val(n, among=group) for n in names]


def probability(H):
    k = H.choose(4, "probability")
    if k == 0:
        return None
    if k == 1:
        return 0
    if k == 2:
        return 1
    return H.real("p", 0, 1)


@harness("C04")
def assignment(H):
    """Any assignment, in any state of the store, with or without a racing
    writer: the first value stays, exactly one key is touched, and the error
    is raised exactly when a drawn check finds a difference."""
    p = probability(H)
    w, d = store(H, p)
    k, k2 = H.safe_text("key"), H.safe_text("other_key")
    H.assume(k != k2)
    v, first, v2, vr = some_values(H, "value", "first", "other_value",
                                   "racing_value")
    occupied, other = H.flag("occupied"), H.flag("other_occupied")
    if occupied:
        w[k] = first
    if other:
        w[k2] = v2
    draws, raced = [], []

    def draw(lo, hi, what):
        r = H.real("draw", 0.0, 1.0, strict_hi=True)
        draws.append(r)
        return r

    def racing(op, dd, path, *a):
        if dd is w and not raced and not occupied and not busy:
            if H.flag("race"):
                raced.append(1)
                busy.append(1)
                _, lost = H.attempt(w.__setitem__, k, vr)
                busy.pop()
                if lost is None:
                    won.append(1)
    busy, won = [], []
    H.hooks["draw"] = draw
    H.hooks["storage"] = racing
    _, err = H.attempt(d.__setitem__, k, v)
    H.hooks.clear()
    H.cover("returned" if err is None else "raised")
    # which value came first
    taken = occupied or bool(won)
    kept = first if occupied else vr if won else v
    H.check("key_present", k in w)
    H.check("first_value_kept", H.same(w[k], kept))
    H.check("other_key_presence", (k2 in w) == other)
    if other:
        H.check("other_key_value", H.same(w[k2], v2))
    H.check("no_extra_keys", len(H.env.fs.live) == 1 + int(other))
    differ = not H.same(kept, v)
    if err is not None:
        H.check("error_only_if_occupied_and_different",
                taken and differ, repr(err)[:300])
        H.check("error_only_if_drawn", p is not None and p != 0)
        if not (isinstance(p, int) and p == 1):
            H.check("error_only_below_probability",
                    any(bool(r < p) for r in draws))
    elif taken and differ:
        H.check("always_checked_with_probability_1",
                not (isinstance(p, int) and p == 1))
        if p is not None and not isinstance(p, int) and p > 0:
            H.check("silent_only_above_probability",
                    any(bool(r >= p) for r in draws))


@harness("C04")
def reassignment_in_sequence(H):
    """Two assignments in a row through the wrapper itself."""
    p = probability(H)
    w, d = store(H, p)
    k = H.safe_text("key")
    a, b = some_values(H, "a", "b")
    H.hooks["draw"] = lambda lo, hi, what: H.real("draw", 0.0, 1.0, True)
    d[k] = a
    H.check("stored", H.same(d[k], a))
    _, err = H.attempt(d.__setitem__, k, b)
    H.cover("second")
    H.check("still_first", H.same(d[k], a))
    if err is not None:
        H.check("error_only_if_different", not H.same(a, b))
    _, err = H.attempt(d.__setitem__, k, a)
    H.check("same_value_accepted", err is None, err)
    H.check("still_first_again", H.same(d[k], a))


@harness("C04")
def never_removed(H):
    """Deleting or clearing through the store is refused."""
    w, d = store(H, probability(H))
    k, k2, v = H.safe_text("key"), H.safe_text("key2"), H.val("v")
    H.assume(k != k2)
    w[k] = v
    how = H.choose(4, "how")
    _, err = H.attempt((lambda: d.delete_if_exists(k),
                        lambda: d.__delitem__(k),
                        lambda: d.clear(),
                        lambda: d.delete_if_exists(k2))[how])
    H.cover("tried")
    H.check("refused", err is not None)
    H.check("kept", (k in w) and H.same(w[k], v))


@harness("C04")
def reading_agrees_with_storage(H):
    """Lookup, membership, counting, iteration, time stamps."""
    w, d = store(H, probability(H))
    k, k2, k3 = (H.safe_text(n) for n in ("k1", "k2", "asked"))
    n = H.choose(3, "entries")
    H.assume(k != k2)
    if n > 0:
        w[k] = H.val("v1")
    if n > 1:
        w[k2] = H.val("v2")
    H.cover("store")
    inside = k3 in w
    H.check("membership", (k3 in d) == inside)
    got, err = H.attempt(d.__getitem__, k3)
    if inside:
        H.check("lookup", err is None and H.same(got, w[k3]))
        H.check("timestamp", d.timestamp(k3) == w.timestamp(k3))
    else:
        H.check("missing", isinstance(err, KeyError))
    H.check("count", len(d) == len(w))
    H.check("keys", H.same([x.str_chain for x in d.keys()],
                           [x.str_chain for x in w.keys()]))
    H.check("values", H.same(list(d.values()), list(w.values())))
    H.check("items", H.same([(a.str_chain, b) for a, b in d.items()],
                            [(a.str_chain, b) for a, b in w.items()]))
    H.check("iter", H.same([x.str_chain for x in d],
                           [x.str_chain for x in w]))


@harness("C04")
def construction(H):
    """Only an immutable storage and a probability in [0, 1] are accepted."""
    from pyvc.ghost import FileDirDict
    F = H.get("_800_persidict_extensions.first_entry_dict", "FirstEntryDict")
    imm = H.flag("immutable")
    w = FileDirDict("store", "pkl", immutable_items=imm)
    p = H.real("p")
    d, err = H.attempt(F, w, p)
    ok = imm and bool(p >= 0) and bool(p <= 1)
    H.cover("accepted" if ok else "refused")
    H.check("accepted_iff_valid", (err is None) == ok, err)
