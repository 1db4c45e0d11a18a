"""C22: swarm workers run only eligible requests of a live parent."""
from pyvc import ghost
from pyvc.api import harness
from pyvc.many import Collect
from . import common

SW = "_090_swarming_portals.swarming_portals"


def node(H):
    return H.get("_820_strings_signatures_converters.node_signatures",
                 "get_node_signature")()


def marks(H, root):
    """{node: runtime id} as stored below a root."""
    out = {}
    for e in H.env.fs.live:
        if e.parts[:2] == (root, "compute_nodes") and e.ftype == "pkl" \
                and e.parts[-1] == "runtime_id":
            out[e.parts[2]] = H.thaw(e)
    return out


# ------------------------------------------------------------- creation
def check_worker(H, proc, p, where):
    """A started process is a worker set up like its portal."""
    kw = proc.kwargs
    H.check("target" + where, proc.target is H.get(SW, "_background_worker"))
    H.check("started" + where, proc.started)
    # what the worker will see
    n = len(H.env.procs)
    q = H.get(SW, "parameterizable").get_object_from_portable_params(
        dict(kw))
    H.check("class" + where, type(q) is type(p))
    H.check("storage" + where, q.root_dict.base_dir == p.root_dict.base_dir)
    H.check("settings" + where, H.all(
        H.same(q.p_consistency_checks, p.p_consistency_checks),
        H.same(q.default_island_name, p.default_island_name)))
    H.check("runtime" + where, H.same(q.runtime_id, p.runtime_id))
    H.check("starts_no_workers" + where, len(H.env.procs) == n
            and H.same(q.n_background_workers, 0))


def a_portal(H, n):
    kw = dict(root_dict=common.root("r"), n_background_workers=n)
    if H.flag("island given"):
        kw["default_island_name"] = "Thera"
    if H.flag("p given"):
        x = H.real("p", 0, 1)
        H.assume((x >= 0) & (x <= 1))
        kw["p_consistency_checks"] = x
    if H.flag("runtime given"):
        kw["runtime_id"] = H.safe_text("runtime")
    return H.pth.SwarmingPortal(**kw), kw


@harness("C22")
def creation(H):
    """A portal with any number of workers and any settings."""
    n = H.int("workers", -3 if not H.sym else None, 5 if not H.sym else None)
    made = []

    def after(i):
        return len(H.env.procs) == made[-1] + 1 and H.env.procs[-1].started

    def frame():
        made.append(len(H.env.procs))
        return ()
    seen = []
    H.world.hooks["range"] = (H, after, frame, seen) if H.sym else None
    loops = []
    started = H.env.hooks

    def on_start(proc):
        loops.append(proc)
    started["process_start"] = on_start
    (res, err) = H.attempt(a_portal, H, n)
    H.cover("created")
    if err is not None:
        H.check("only_negative_numbers_are_refused", n < 0)
        H.check("refused_by_assertion", isinstance(err, (
            AssertionError, ValueError)), repr(err))
        H.check("nothing_started", H.env.procs == [])
        return
    p, kw = res
    H.check("negative_numbers_are_refused", n >= 0)
    H.check("as_configured", H.same(p.n_background_workers, n))
    if H.sym:
        # the loop over the workers is skipped here: it stands for n
        # iterations, each of which starts one
        H.check("no_other_processes", H.env.procs == [])
        if len(seen) != 1:
            H.undecided("not one loop over a range")
        H.check("number", seen[0].size() == n)
    else:
        H.check("number", len(H.env.procs) == n, len(H.env.procs))
        for x in H.env.procs:
            check_worker(H, x, p, "")
    m = marks(H, "r")
    if "runtime_id" in kw:
        H.check("runtime_kept", H.same(p.runtime_id, kw["runtime_id"]))
        H.check("no_mark_of_a_worker", m == {})
        H.check("mark_not_removed_by_a_worker", H.env.atexit == [])
    else:
        H.check("marked", set(m) == {node(H)} and H.same(
            m[node(H)], p.runtime_id))
        H.check("live", bool(p.parent_runtime_is_live()))


@harness("C22", bound="0 to 3 workers")
def workers(H):
    """Every worker of a portal is set up with its storage and settings."""
    n = H.choose(4, "workers")
    cls = H.choose(2, "default portal")
    if cls:
        p = H.pth.DefaultLocalPortal()
        n = 3
    else:
        p, kw = a_portal(H, n)
    H.cover("created")
    H.check("number", len(H.env.procs) == n, len(H.env.procs))
    if cls:
        # a worker is another process, where no default portal exists yet
        D = H.pth.DefaultLocalPortal
        D._default_local_portal_instance, D._calls_counter = None, 0
    for x in list(H.env.procs)[:1 + H.choose(2, "another one")]:
        check_worker(H, x, p, "")
        if cls:
            D._default_local_portal_instance, D._calls_counter = None, 0


# ------------------------------------------------------------- the mark
@harness("C22")
def parent_is_live(H):
    """Any own identity, anything or nothing stored as the mark."""
    me, other = H.safe_text("me"), H.safe_text("other")
    p = H.pth.SwarmingPortal(root_dict=common.root("r"), runtime_id=me,
                             n_background_workers=0)
    what = H.choose(5, "mark")
    nodes = p.compute_nodes.pkl
    if what == 1:
        nodes[[node(H), "runtime_id"]] = other
    elif what == 2:
        nodes[["another_node", "runtime_id"]] = me
    elif what == 3:
        nodes[[node(H), "runtime_id"]] = me
    elif what == 4:
        nodes[[node(H), "runtime_id"]] = me

        def hook(op, d, path, *v):
            if op == "get":
                raise ghost.StorageFault("unreadable")
        H.hooks["storage"] = hook
    before = H.snapshot()
    got = True if p.parent_runtime_is_live() else False
    H.cover("answered")
    if what == 1:
        H.check("exactly_the_own_mark", H.eq(me, other) if got
                else ~H.eq(me, other) if H.sym else me != other)
    else:
        H.check("live_exactly_with_the_mark", got is (what == 3))
    now = H.snapshot()
    H.check("nothing_changed", len(now) == len(before) and all(
        a[2] is b[2] for a, b in zip(now, before)))
    H.check("no_portal_left_entered",
            len(H.pth.BasicPortal.entered_portals_stack) == 0)


@harness("C22", bound="up to 3 portals of any classes in any order, one "
         "failure")
def the_mark_goes(H):
    """Clearing a portal or ending the program removes the marks."""
    made = []
    for i in range(3 if H.small else 9):
        k = H.choose(4, "portal")
        if k == 0:
            break
        if k == 1:
            common.portal(H, f"r{i}", ("PureCodePortal", "DataPortal")[i % 2])
        else:
            r = i if k == 2 else 0
            made.append((f"r{r}", H.pth.SwarmingPortal(
                root_dict=common.root(f"r{r}"), n_background_workers=0)))
    if H.flag("another node is in use") and made:
        made[0][1].compute_nodes.pkl[["elsewhere", "runtime_id"]] = "x"
        elsewhere = {"elsewhere": "x"}
    else:
        elsewhere = {}
    H.cover("made")
    here = node(H)
    for r, p in made:
        H.check("marked", here in marks(H, r))
    if made and H.flag("cleared"):
        r, p = made.pop(H.choose(len(made), "which"))
        p._clear()
        H.check("mark_removed", here not in marks(H, r))
        made = [x for x in made if x[0] != r]
        for s, q in made:
            H.check("others_marked", here in marks(H, s))
        gone = [r]
    else:
        gone = []
    fails = []
    if H.flag("a failure"):
        def hook(op, d, path, *v):
            if op == "del" and not fails:
                fails.append(path[0])
                raise ghost.StorageFault("cannot delete")
        H.hooks["storage"] = hook
    for f, a, k in reversed(H.env.atexit):
        _, e = H.attempt(f, *a, **k)
        H.check("quiet_end", e is None, repr(e))
    H.hooks.pop("storage", None)
    for r, p in made:
        if r not in fails:
            m = marks(H, r)
            H.check("mark_removed_at_the_end", here not in m, r)
        H.check("no_longer_live", p.runtime_id not in marks(
            H, r).values() or r in fails)
    if elsewhere:
        H.check("other_nodes_keep_theirs", any(
            marks(H, f"r{i}").get("elsewhere") == "x" for i in range(9)))
    H.check("nobody_left_entered",
            len(H.pth.BasicPortal.entered_portals_stack) == 0)


# ------------------------------------------------------ the worker's loop
class Live:
    """The contract of parent_runtime_is_live in a worker: any answer, until
    it is False; from then on the parent stays gone."""

    def __init__(self, H):
        self.H, self.gone, self.asked = H, False, 0
        self.last = None

    def __call__(self, portal):
        self.asked += 1
        if not self.gone:
            self.gone = self.H.flag("parent is gone")
        self.last = not self.gone
        return self.last


def child(H):
    kw = H.pth.SwarmingPortal(
        root_dict=common.root("r"), n_background_workers=0,
        runtime_id="rt").__get_portable_params__()
    kw["n_background_workers"] = (0, 3)[H.choose(2, "asked for")]
    return kw


@harness("C22")
def worker_loop(H):
    """An arbitrary iteration of a worker's loop."""
    from pyvc.loops import Cut
    kw = child(H)
    live = Live(H)
    H.pth.SwarmingPortal.parent_runtime_is_live = lambda s: live(s)
    W = H.get(SW, "_background_worker")
    one = H.get(SW, "_process_random_execution_request")
    running = []

    def start(proc):
        H.check("parent_was_live", live.last is True)
        H.check("runs_requests", proc.target is one)
        H.check("one_at_a_time", all(x.joined for x in running))
        H.check("no_own_workers", proc.kwargs["n_background_workers"] == 0)
        H.check("same_portal", {k: v for k, v in proc.kwargs.items()
                                if k != "n_background_workers"}
                == {k: v for k, v in kw.items()
                    if k != "n_background_workers"})
        running.append(proc)
        live.last = None          # must be asked again
    H.hooks["process_start"] = start
    if H.sym:
        H.world.hooks["while"] = lambda qual, names, loc: Cut(
            H, qual, names, loc, lambda loc: True) \
            if qual.endswith("_background_worker") else None
    else:
        n = H.ctx.rng.randrange(4)

        def stop(proc):
            live.gone = len(running) >= n
        H.hooks["process_join"] = stop
    H.attempt(W, **dict(kw))
    H.cover("ended")
    H.check("ends_only_when_the_parent_is_gone", live.gone)
    H.check("waits_for_its_process", all(x.joined for x in running))
    H.check("nothing_left_entered",
            len(H.pth.BasicPortal.entered_portals_stack) == 0)


class Request:
    """The contract of the address of a requested call."""

    def __init__(self, H, key, log):
        self.__dict__.update(H=H, key=key, log=log, needs=None, can=None,
                             ran=0)

    @property
    def needs_execution(self):
        self.__dict__["needs"] = self.H.flag("needs execution")
        return self.needs

    @property
    def can_be_executed(self):
        self.__dict__["can"] = self.H.flag("can be executed")
        return self.can

    def execute(self):
        self.__dict__["ran"] = self.ran + 1
        self.log.append(self)
        if self.H.flag("fails"):
            raise common.Boom("in the function")
        return 1

    def __getattr__(self, n):
        self.H.undecided("attribute of a request: " + n)

    def __setattr__(self, n, v):
        self.H.undecided("attribute of a request: " + n)

    @property
    def eligible(self):
        return self.needs is True and self.can is True


@harness("C22")
def request_process(H):
    """One request-processing process: any number of requests, each of which
    may or may not be eligible, and a parent that ends at any moment."""
    if not H.sym:
        return population(H)
    from pyvc.loops import Cut
    kw = child(H)
    live = Live(H)
    H.pth.SwarmingPortal.parent_runtime_is_live = lambda s: live(s)
    ran = []
    made = []

    def a_request():
        return ghost.SafeStrTuple(H.safe_text("prefix"), H.safe_text("hash"))

    class Addresses:
        @staticmethod
        def from_strings(prefix=None, hash_signature=None, portal=None,
                         assert_readiness=True, **k):
            H.check("no_result_is_demanded", not assert_readiness)
            H.cover("asked")
            r = Request(H, (prefix, hash_signature), ran)
            made.append(r)
            return r
    H.world.modules["pythagoras." + SW].PureFnExecutionResultAddr = Addresses
    asked = []

    def ok(r):
        return H.all(r.eligible, H.same(r.key[0], asked[-1][0]),
                     H.same(r.key[1], asked[-1][1])) \
            if hasattr(type(r), "eligible") else False

    def sample():
        r = Request(H, (H.safe_text("p"), H.safe_text("h")), ran)
        r.__dict__.update(needs=True, can=True)
        return r

    def make():
        asked.append(a_request())
        return asked[-1]
    each = Collect(H, make, ok, sample,
                   lambda: (len(ran), len(H.env.procs)), "request")

    def requests(d):
        parts = d.base_dir.parts
        return each if parts[-1] == "execution_requests" else None
    H.hooks["enumerate"] = requests
    H.hooks["choice"] = lambda xs: xs[H.choose(len(xs), "picked")]
    H.hooks["randint"] = lambda lo, hi: H.int("limit", lo, hi)
    H.world.hooks["while"] = lambda qual, names, loc: Cut(
        H, qual, names, loc, lambda loc: all(
            v == [] for v in loc.values() if type(v) is list)) \
        if qual.endswith("_process_random_execution_request") else None
    H.attempt(H.get(SW, "_process_random_execution_request"), **kw)
    H.cover("ended")
    if ran:
        H.cover("executed")
    H.check("at_most_one_call", len(ran) <= 1)
    H.check("only_eligible_calls", all(r.eligible for r in ran))
    H.check("the_parent_was_live", live.last is True or not ran)
    H.check("the_parent_is_asked", live.asked > 0)
    H.check("ends_without_running_when_the_parent_is_gone",
            not (live.gone and ran))
    H.check("ends_only_then", live.gone or len(ran) == 1)
    H.check("no_processes", H.env.procs == [])
    H.check("nothing_left_entered",
            len(H.pth.BasicPortal.entered_portals_stack) == 0)


# --------------------------------------------------------- whole histories
@harness("C22", bound="up to 2 requests, one more arriving, the parent "
         "ending at one of 3 moments")
def small_populations(H):
    """The same with real functions, requests and records."""
    population(H, 2)


def population(H, size=3):
    parent = H.pth.SwarmingPortal(root_dict=common.root("r"),
                                  n_background_workers=0, runtime_id="rt")
    mark = [node(H), "runtime_id"]
    parent.compute_nodes.pkl[mark] = "rt"
    B = common.Bodies(H)
    B.do["ok"] = lambda kw: guard(kw["x"])
    B.do["f"] = lambda kw: kw["x"] + 1
    blocked = set()

    def guard(x):
        if x in blocked:
            raise common.Boom("not here")

    H.pth.strictly_autonomous(portal=parent)(B.src("ok", ("x",)))
    f = H.pth.pure(portal=parent, guards=["ok"])(B.src("f", ("x",)))
    want = {}
    addrs = []
    n = 1 + H.choose(size, "requests")
    for i in range(n):
        a = f.get_address(x=i)
        addrs.append(a)
        kind = H.choose(5, "kind of request")
        a.request_execution()
        if kind == 1:
            f.execute(x=i)
            a.request_execution()
        elif kind == 2:
            blocked.add(i)
        elif kind == 3:
            a.execution_attempts["run_a"] = {"hostname": "h"}
        elif kind == 4:
            a.drop_execution_request()
        want[i] = kind == 0
    B.calls.clear()
    kw = parent.__get_portable_params__()
    ends = H.choose(3, "the parent ends")

    def end():
        parent.compute_nodes.pkl.delete_if_exists(mark)
        state["live"] = False
    state = {"live": True, "slept": 0}
    if ends == 0:
        end()
    late = H.flag("another request arrives")

    def sleep(t):
        H.env.clock = H.env.clock + t
        state["slept"] += 1
        if state["slept"] == 1 and late and state["live"]:
            with parent:
                f.get_address(x=10).request_execution()
            want[10] = True
        elif state["slept"] > 1 or not late:
            end()
    H.hooks["sleep"] = sleep
    H.hooks["choice"] = lambda xs: xs[H.choose(len(xs), "picked")]
    procs = len(H.env.procs)
    _, e = H.attempt(H.get(SW, "_process_random_execution_request"), **kw)
    H.cover("ended")
    ran = [k["x"] for name, k in B.calls if name == "f"]
    H.check("ends_well", e is None, repr(e))
    H.check("at_most_one_call", len(ran) <= 1)
    H.check("only_eligible_calls", all(want[x] for x in ran), (ran, want))
    if ends == 0:
        H.check("nothing_runs_without_the_parent", B.calls == [])
    elif any(want.values()):
        H.check("one_is_run", len(ran) == 1, want)
    H.check("no_processes", len(H.env.procs) == procs)
    for x in ran:
        with parent:
            H.check("the_result_is_there", f.get_address(
                x=x).get() == x + 1)
