"""C23: portals over the same storage share one append-only record."""
from pyvc import ghost
from pyvc.api import harness
from . import common

SW = "_090_swarming_portals.swarming_portals"
CLASSES = ("BasicPortal", "LoggingPortal", "DataPortal", "OrdinaryCodePortal",
           "SafeCodePortal", "AutonomousCodePortal", "PureCodePortal",
           "SwarmingPortal", "DefaultLocalPortal")
WITH_P, WITH_ISLAND, WITH_WORKERS = CLASSES[2:], CLASSES[5:], CLASSES[7:]


def cls_of(H, name):
    mods = {"LoggingPortal": "_020_logging_portals.logging_portals",
            "DataPortal": "_030_data_portals.data_portals",
            "OrdinaryCodePortal":
                "_040_ordinary_functions.ordinary_core_classes",
            "SafeCodePortal": "_050_safe_functions.safe_core_classes",
            "AutonomousCodePortal":
                "_060_autonomous_functions.autonomous_core_classes"}
    if name in mods:
        return H.get(mods[name], name)
    return getattr(H.pth, name)


def known(H):
    return list(H.pth.BasicPortal.all_portals.values())


def state(H):
    return (list(map(id, known(H))), len(H.env.fs.live), len(H.env.fs.log),
            len(H.env.procs), len(H.env.atexit),
            list(map(id, H.pth.BasicPortal.entered_portals_stack)))


def refused(H, f, bad, before, what):
    (res, err) = H.attempt(f)
    if err is not None:
        H.check(what + "_refused_only_if_wrong", bad)
        H.check(what + "_refused_by_error", isinstance(
            err, (AssertionError, ValueError, TypeError)), repr(err))
        H.check(what + "_nothing_created", state(H) == before,
                (before, state(H)))
        return None
    H.check(what + "_wrong_refused", H.implies(bad, False))
    return res


# ------------------------------------------------------------- settings
@harness("C23")
def probability(H):
    """Any real number as the probability, any class of portals."""
    name = WITH_P[H.choose(len(WITH_P), "class")]
    x = H.real("p", -2 if not H.sym else None, 3 if not H.sym else None)
    kw = dict(p_consistency_checks=x)
    if name in WITH_WORKERS:
        kw["n_background_workers"] = 0
    H.cover("built")
    before = state(H)
    p = refused(H, lambda: cls_of(H, name)(common.root("r"), **kw),
                (x < 0) | (x > 1), before, "probability")
    if p is None:
        return
    H.check("kept", H.same(p.p_consistency_checks, x))
    H.check("used_by_values", H.same(
        p.value_store._p_consistency_checks, x))
    if name in CLASSES[6:]:
        H.check("used_by_results", H.same(
            p.execution_results._p_consistency_checks, x))
    H.check("known", known(H) == [p])


@harness("C23")
def odd_probability(H):
    """Values other than ordinary real numbers."""
    name = WITH_P[H.choose(len(WITH_P), "class")]
    x = (float("nan"), float("inf"), -float("inf"), 2, -1, True, 0, 1,
         None)[H.choose(9, "value")]
    kw = dict(p_consistency_checks=x)
    if name in WITH_WORKERS:
        kw["n_background_workers"] = 0
    bad = x is not None and not (0 <= x <= 1)
    H.cover("built")
    p = refused(H, lambda: cls_of(H, name)(common.root("r"), **kw),
                bad, state(H), "probability")
    if p is not None:
        H.check("kept", p.p_consistency_checks == (x or 0))


@harness("C23")
def probability_of_a_store(H):
    """A write-once store, used on its own."""
    x = H.real("p", -2 if not H.sym else None, 3 if not H.sym else None)
    D = H.get("_800_persidict_extensions.first_entry_dict", "FirstEntryDict")
    inner = ghost.FileDirDict("s", immutable_items=True)
    H.cover("built")
    d = refused(H, lambda: D(inner, x), (x < 0) | (x > 1), state(H), "store")
    if d is not None:
        H.check("kept", H.same(d._p_consistency_checks, x))


@harness("C23")
def odd_probability_of_a_store(H):
    """The same with values other than ordinary real numbers."""
    x = (float("nan"), float("inf"), -float("inf"), 2, -1, True, 0, 1,
         None)[H.choose(9, "value")]
    D = H.get("_800_persidict_extensions.first_entry_dict", "FirstEntryDict")
    inner = ghost.FileDirDict("s", immutable_items=True)
    H.cover("built")
    refused(H, lambda: D(inner, x), x is not None and not (0 <= x <= 1),
            state(H), "store")


@harness("C23")
def island_and_workers(H):
    """Islands and numbers of workers, right or wrong."""
    name = WITH_ISLAND[H.choose(len(WITH_ISLAND), "class")]
    kw, bad = {}, False
    island = ("Samos", "", "Thera", 5, None, b"", ())[H.choose(7, "island")]
    kw["default_island_name"] = island
    bad = not (isinstance(island, str) and len(island) > 0)
    n = None
    if name in WITH_WORKERS:
        n = H.int("workers", -3 if not H.sym else None,
                  3 if not H.sym else None)
        kw["n_background_workers"] = n
        bad = bad | (n < 0) if not isinstance(bad, bool) or not bad else True
        if H.sym:
            H.world.hooks["range"] = (H, lambda i: True, lambda: (), [])
    H.cover("built")
    p = refused(H, lambda: cls_of(H, name)(common.root("r"), **kw),
                bad, state(H), "settings")
    if p is None:
        return
    H.check("island_kept", p.default_island_name == island)
    if n is not None:
        H.check("workers_kept", H.same(p.n_background_workers, n))


@harness("C23")
def wrong_among_others(H):
    """A refused portal leaves the others alone."""
    q = common.portal(H, "q", "PureCodePortal")
    if H.flag("entered"):
        q.__enter__()
    name = WITH_P[H.choose(len(WITH_P), "class")]
    kw, wrong = dict(p_consistency_checks=0.5), H.choose(3, "wrong")
    if name in WITH_WORKERS:
        kw["n_background_workers"] = 0
    if wrong == 0:
        kw["p_consistency_checks"] = 1.5
    elif wrong == 1:
        H.assume(name in WITH_ISLAND)
        kw["default_island_name"] = ""
    else:
        H.assume(name in WITH_WORKERS)
        kw["n_background_workers"] = -1
    before = state(H)
    H.cover("built")
    p = refused(H, lambda: cls_of(H, name)(common.root(
        ("q", "r")[H.choose(2, "storage")]), **kw), True, before, "settings")
    H.check("refused", p is None)
    H.check("still_chosen", H.pth.BasicPortal.get_best_portal_to_use() is q)


# -------------------------------------------------------------- rebuild
SETTINGS = ("file_type", "immutable_items", "digest_len",
            "base_class_for_values")


def stores(obj, prefix=""):
    """All stores reachable from a portal's attributes."""
    out = {}
    for k, v in sorted(vars(obj).items()):
        if isinstance(v, ghost.FileDirDict):
            out[prefix + k] = ("plain", v)
        elif isinstance(v, ghost.PersiDict):
            out[prefix + k] = (type(v).__name__, v._wrapped_dict,
                               v._p_consistency_checks)
        elif type(v).__name__ == "OverlappingMultiDict":
            out.update(stores(v, prefix + k + "."))
    return out


def same_stores(H, a, b, what):
    x, y = stores(a), stores(b)
    H.check(what + "_stores", set(x) == set(y), (sorted(x), sorted(y)))
    for k in x:
        H.check(f"{what}_{k}_kind", x[k][0] == y[k][0])
        u, v = x[k][1], y[k][1]
        H.check(f"{what}_{k}_place", u.base_dir == v.base_dir)
        H.check(f"{what}_{k}_settings", all(
            getattr(u, s) == getattr(v, s) for s in SETTINGS),
            [(getattr(u, s), getattr(v, s)) for s in SETTINGS])
        if len(x[k]) > 2:
            H.check(f"{what}_{k}_checks", H.same(
                0 if x[k][2] is None else x[k][2],
                0 if y[k][2] is None else y[k][2]))


ISLANDS = ("Thera", " Thera ", "thera", "0", " ", "a/b", "\u00e9\n", "Sa" * 99,
           "None", "'x'")


def any_portal(H, names=CLASSES):
    name = names[H.choose(len(names), "class")]
    kw = {}
    if name in WITH_P and H.flag("p given"):
        x = H.real("p", 0, 1)
        H.assume((x >= 0) & (x <= 1))
        kw["p_consistency_checks"] = x
    if name in WITH_ISLAND and H.flag("island given"):
        kw["default_island_name"] = ISLANDS[
            0 if H.sym else H.choose(len(ISLANDS), "island")]
    if name in WITH_WORKERS:
        kw["n_background_workers"] = 2 * H.choose(2, "workers")
        if H.flag("runtime given"):
            kw["runtime_id"] = H.safe_text("runtime")
    how = H.choose(5, "storage")
    if how == 0:
        storage = "r"
    elif how == 1:
        storage = ghost.FileDirDict("r")
    elif how == 2:
        storage = ghost.FileDirDict("r/s", file_type="json", digest_len=4,
                                    immutable_items=True)
    elif how == 3:
        storage = ghost.FileDirDict(ghost.GhostDir(
            ("r", H.safe_text("folder"))))
    else:
        storage = None
    if storage is not None:
        kw["root_dict"] = storage
    return cls_of(H, name)(**kw), kw, name


def forget_default(H):
    """As in another session."""
    D = H.pth.DefaultLocalPortal
    D._default_local_portal_instance, D._calls_counter = None, 0


@harness("C23")
def rebuilt(H):
    """A portal made from the reported parameters of another one."""
    p, kw, name = any_portal(H)
    way = H.choose(2, "way")
    params = p.get_params() if way == 0 else p.__get_portable_params__()
    H.cover("built")
    if name == "DefaultLocalPortal":
        forget_default(H)
    log = len(H.env.fs.log)
    if way == 0:
        q = type(p)(**params)
    else:
        q = H.get(SW, "parameterizable").get_object_from_portable_params(
            params)
    H.check("another", q is not p and type(q) is type(p))
    same_stores(H, p, q, "rebuilt")
    a, b = p.get_params(), q.get_params()
    H.check("parameters", list(a) == list(b))
    for k in a:
        if k == "root_dict":
            H.check("root", a[k].get_params() == b[k].get_params())
        else:
            H.check("parameter_" + k, H.same(a[k], b[k]))
    for k in kw:
        if k != "root_dict":
            H.check("reported_" + k, H.same(a[k], kw[k]))
    H.check("nothing_written", len(H.env.fs.log) == log)


@harness("C23")
def one_folder_per_record(H):
    """Different records never share files."""
    p, kw, name = any_portal(H, CLASSES[1:])
    H.cover("built")
    s = {k: v[1] for k, v in stores(p).items() if k != "root_dict"}
    if "root_dict" in kw:
        r = kw["root_dict"]
        want = r.base_dir if isinstance(r, ghost.FileDirDict) else \
            ghost.FileDirDict(r).base_dir
        H.check("where_asked", p.root_dict.base_dir == want)
    for k, v in s.items():
        n = len(p.root_dict.base_dir.parts)
        H.check("below_the_root", H.all(
            p.root_dict.base_dir == ghost.GhostDir(v.base_dir.parts[:n]),
            v.base_dir.parts[n:] == (k.split(".")[0],)),
            (k, v.base_dir))
        H.check("literal_keys", v.digest_len == 0)
    for k, v in s.items():
        for j, w in s.items():
            if j < k:
                H.check("disjoint", not (
                    v.base_dir.parts[-1] == w.base_dir.parts[-1]
                    and v.file_type == w.file_type), (j, k))


# ------------------------------------------------------------ append-only
APPEND_ONLY = ("value_store", "execution_results", "crash_history",
               "event_log", "run_history.json", "run_history.txt",
               "run_history.pkl")


def store(p, name):
    for a in name.split("."):
        p = getattr(p, a)
    return p


def value_for(H, name, label):
    if name in ("crash_history", "event_log", "run_history.json"):
        return {"x": H.int(label)}
    if name == "run_history.txt":
        return H.text(label)
    return H.val(label)


def two_portals(H, names=CLASSES[6:8]):
    out = []
    name = names[H.choose(len(names), "class")]
    how = H.choose(4, "configuration")
    for i in range(2):
        kw = {}
        if how & (i + 1):
            x = H.real(f"p{i}", 0, 1)
            H.assume((x >= 0) & (x <= 1))
            kw["p_consistency_checks"] = x
        if name in WITH_WORKERS:
            kw["n_background_workers"] = 0
        if how in (1, 2) and i == how - 1:
            kw["root_dict"] = ghost.FileDirDict(
                "r", file_type="json", immutable_items=bool(i), digest_len=8)
        else:
            kw["root_dict"] = "r"
        out.append(cls_of(H, name)(**kw))
    return out


@harness("C23")
def shared_and_append_only(H):
    """Any entry of any record, written by one portal, through another."""
    p, q = two_portals(H, CLASSES[6:7])
    name = APPEND_ONLY[H.choose(len(APPEND_ONLY), "record")]
    key = (H.safe_text("a"),)
    v, w = value_for(H, name, "v"), value_for(H, name, "w")
    other = (H.safe_text("c"),)
    H.cover("built")
    H.check("absent", key not in store(q, name))
    (_, err) = H.attempt(store(p, name).__setitem__, key, v)
    H.check("can_be_added", err is None, repr(err))
    H.check("seen", key in store(q, name)
            and H.same(store(q, name)[key], v))
    H.check("counted", len(store(q, name)) == 1)
    H.check("listed", [tuple(k) for k in store(q, name).keys()] == [key])
    before = H.snapshot()
    r = (p, q)[H.choose(2, "through")]
    d = store(r, name)
    op = H.choose(7, "operation")
    (res, err) = H.attempt((
        lambda: d.__setitem__(key, w),
        lambda: d.__delitem__(key),
        lambda: d.delete_if_exists(key),
        lambda: d.clear(),
        lambda: d.pop(key),
        lambda: d.update([(key, w)]),
        lambda: d.setdefault(key, w))[op])
    H.check("kept", H.snapshot() == before and key in store(q, name)
            and H.same(store(p, name)[key], v))
    if op in (1, 2, 3, 4):
        H.check("deletion_refused", isinstance(err, Exception), res)
    # another key is a new entry
    x = value_for(H, name, "x")
    H.assume(other[0] != key[0])
    (_, err) = H.attempt(store(q, name).__setitem__, other, x)
    H.check("can_be_extended", err is None
            and H.same(store(p, name)[other], x), repr(err))
    H.check("first_kept", H.same(store(p, name)[key], v))


@harness("C23")
def requests_can_be_removed(H):
    """Requests are shared, may be repeated, and may be removed."""
    p, q = two_portals(H)
    key = (H.safe_text("a"), H.safe_text("b"))
    H.cover("built")
    p.execution_requests[key] = True
    if H.flag("again"):
        q.execution_requests[key] = True
    H.check("seen", key in q.execution_requests)
    d = (p, q)[H.choose(2, "through")].execution_requests
    if H.flag("if exists"):
        H.check("reported", bool(d.delete_if_exists(key)))
        H.check("only_once", not d.delete_if_exists(key))
    else:
        del d[key]
    H.check("gone", H.all(key not in p.execution_requests,
                          key not in q.execution_requests))


@harness("C23")
def shared_record(H):
    """Values, results, requests and logs of one portal seen in another."""
    p, q = two_portals(H)
    b = common.Bodies(H)
    v = H.val("result")
    b.do["f"] = lambda kw: v
    src = b.src("f", ["x"], uses=(["print()"] if H.flag(
        "prints") else []))
    f = H.pth.pure(portal=p)(src)
    with p:
        # names are not the point: one fixed argument
        addr = H.pth.PureFnExecutionResultAddr(f, dict(x=7))
    H.cover("built")
    with p:
        addr.request_execution()
    parts = tuple(addr)
    H.check("request_seen", parts in q.execution_requests)
    res = f(x=7)
    H.check("result", H.same(res, v))
    H.check("request_gone", parts not in q.execution_requests)
    H.check("result_seen", parts in q.execution_results)
    a = q.execution_results[parts]
    H.check("value_seen", tuple(a) in q.value_store
            and H.same(q.value_store[tuple(a)], v))
    for n in ("crash_history", "event_log", "run_history.json",
              "run_history.txt", "run_history.pkl", "run_history.py"):
        H.check("log_" + n, [tuple(k) for k in store(p, n).keys()] == [
            tuple(k) for k in store(q, n).keys()])


# ------------------------------------------------------- default portal
@harness("C23")
def one_default_portal(H):
    """Creations of the default portal, some refused, in any order."""
    D = H.pth.DefaultLocalPortal
    first, n = None, H.choose(3, "attempts") + 1
    for i in range(n):
        what = H.choose(6, "how")
        kw, bad = {}, False
        if what == 1:
            kw, bad = dict(p_consistency_checks=7), True
        elif what == 2:
            kw, bad = dict(default_island_name=""), True
        elif what == 3:
            kw = dict(n_background_workers=H.choose(2, "workers"))
        elif what == 4:
            kw = dict(root_dict="elsewhere", runtime_id="abc",
                      default_island_name="Thera", p_consistency_checks=0.25)
        if what == 5:
            f = H.pth.BasicPortal.get_best_portal_to_use
        else:
            f = lambda: D(**kw)
        done = state(H)
        procs = len(H.env.procs)
        (p, err) = H.attempt(f)
        if first is None and bad:
            H.check("refused", err is not None and state(H) == done)
            continue
        if first is None:
            H.check("created", err is None and type(p) is D, repr(err))
            first = p
            H.check("known", known(H) == [p])
            H.check("storage", str(p.root_dict.base_dir) == (
                "/elsewhere" if what == 4 else
                str(ghost.FileDirDict(D.default_base_dir()).base_dir)))
            H.check("settings", p.default_island_name == (
                "Thera" if what == 4 else "Samos")
                and p.p_consistency_checks == (0.25 if what == 4 else 0))
            H.check("workers", len(H.env.procs) - procs == kw.get(
                "n_background_workers", 3))
            continue
        H.check("the_same", err is None and p is first, repr(err))
        H.check("untouched", state(H) == done)
    H.cover("done")


@harness("C23")
def default_portal_is_never_another(H):
    """Other portals, wherever entered, never become the default one."""
    D = H.pth.DefaultLocalPortal
    late = H.flag("late")
    if late:
        q = common.portal(H, "q")
    d = D()
    if not late:
        q = common.portal(H, "q")
    if H.flag("entered"):
        q.__enter__()
    H.cover("built")
    H.check("one", D() is d and q is not d)
    H.check("known_once", sum(x is d for x in known(H)) == 1)
    H.check("storage", d.root_dict.base_dir != q.root_dict.base_dir)
