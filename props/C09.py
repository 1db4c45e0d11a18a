"""C09: logged events keep the caller's data intact in every entered portal."""
from pyvc.api import harness
from . import common
from .C06 import distinct

LP = "_020_logging_portals.logging_portals"
ENV_NAME, MSG_NAME = "execution_environment_summary", "message_list"


class Existing:
    """A container of names about which nothing is known."""

    def __init__(self, H):
        self.H = H

    def has(self, x):
        import z3
        from pyvc import sym
        f = z3.Function("existing", sym.S, z3.BoolSort())
        return sym.SBool(f(sym.sterm(x)))

    def _vc_contains(self, x):
        return self.has(x)

    def __contains__(self, x):
        return bool(self.has(x))


class NameInv:
    """Loop contract of a search for a free name: the candidate is the
    desired name, or that name was taken and the candidate extends it."""

    def __init__(self, H, names, loc, desired, existing):
        self.H, self.names = H, names
        self.desired, self.existing = desired, existing
        self.c = [n for n in names if n in loc and is_text(loc[n])]
        self.ok = len(self.c) == 1

    def holds(self, x):
        import z3
        from pyvc import sym
        d, c = sym.sterm(self.desired), sym.sterm(x)
        return sym.SBool(z3.Or(d == c, z3.And(
            self.existing.has(self.desired).t, z3.PrefixOf(d, c))))

    def entry(self, loc):
        self.H.check("loop_entry", self.holds(loc[self.c[0]]))

    def havoc(self, name, v):
        import z3
        from pyvc import sym
        if name in self.c:
            self.now = sym.SStr(z3.String(self.H.ctx.name("candidate")))
            return self.now
        if isinstance(v, (int, sym.SInt)):
            return sym.SInt(z3.Int(self.H.ctx.name("havoc")))
        return v

    def assume(self, loc):
        self.H.assume(self.holds(self.now))

    def back_edge(self, loc):
        self.H.cover("loop_preserved")
        self.H.check("loop_preserved", self.holds(loc[self.c[0]]))


def is_text(x):
    from pyvc import sym
    return isinstance(x, (str, sym.SStr))


def draws(H):
    H.hooks["randint"] = lambda a, b: H.int("random_number", a, b)


@harness("C09")
def unique_name(H):
    """make_unique_name(desired, existing): not among the existing names; the
    desired name if it is free, an extension of it otherwise.  For every
    collection of names and any number of collisions."""
    P = H.get(LP, "LoggingPortal")
    draws(H)
    if H.sym:
        d = H.text("desired")
        ex = Existing(H)

        def whil(qual, names, loc):
            inv = NameInv(H, names, loc, d, ex)
            return inv if inv.ok else None
        H.world.hooks["while"] = whil
        taken = ex.has(d)
    else:
        d = H.text("desired")
        ex = {d + s for s in ("", "_1", "_2", "x") if H.flag("taken" + s)}
        n = [0]

        def randint(a, b):
            n[0] += 1
            return a + n[0] % 3 if n[0] < 20 else H.ctx.rng.randint(a, b)
        H.hooks["randint"] = randint
        taken = d in ex
    r = P.make_unique_name(d, ex)
    H.cover("returned")
    H.check("is_text", is_text(r))
    H.check("free", ~ex.has(r) if H.sym else r not in ex, r)
    if bool(taken):
        H.check("extends", r.startswith(d))
    else:
        H.check("kept_if_free", H.eq(r, d))


@harness("C09", bound="at most 4 colliding draws, 4 existing names")
def unique_name_unrolled(H):
    """The same, every collision step by step."""
    P = H.get(LP, "LoggingPortal")
    d = "name"
    ex = {}
    for s in ("name", "name_1", "name_2", "names"):
        if H.flag(s):
            ex[s] = 1
    n = [0]

    def randint(a, b):
        n[0] += 1
        return (1, 2, 1, 2)[n[0] - 1] if n[0] < 5 and H.flag(
            "collides") else a + 1000 + n[0]
    H.hooks["randint"] = randint
    r = P.make_unique_name(desired_name=d, existing_names=ex)
    H.cover("returned")
    H.check("free", r not in ex, r)
    H.check("kept_or_extended", r == d if d not in ex
            else r.startswith(d), r)
    H.check("existing_untouched", "name" not in ex or ex["name"] == 1)


@harness("C09", bound="at most 2 messages (any items, any number of portals)",
         contracts=("signature", "env", "randsig"))
def event_with_any_items(H):
    """Whatever items the caller supplies, however many, and however many
    portals are entered: an arbitrary entered portal gets one record, in which
    no item of the caller is overwritten; a portal that is not entered gets
    none."""
    H.pth
    L = H.get(LP, "LoggingPortal")
    p, other = (common.portal(H, n, "LoggingPortal") for n in "pq")
    entered = H.flag("entered")
    common.many_entered(H, p, entered, lambda: other, lambda x: [
        f for f in H.env.fs.live if f.parts[0] != x.root_dict.base_dir.parts[0]
    ])
    args = [H.val("message") for _ in range(H.choose(3, "messages"))]
    eid = [None, "my_event"][H.choose(2, "event_id")]
    if H.sym:
        from pyvc.many import AnyItems
        kw = AnyItems(H, "item")
        H.assume(~kw.had("event_id"))

        def unique(desired_name, existing_names):
            r = H.text("unique_name")
            taken = existing_names._vc_contains(desired_name)
            H.assume(~existing_names._vc_contains(r))
            H.assume(H.implies(~taken, H.eq(r, desired_name)))
            H.assume(r.startswith(desired_name))
            return r
        if not hasattr(L, "make_unique_name"):
            H.undecided("make_unique_name not found")
        L.make_unique_name = staticmethod(unique)
        H.ctx.ex.assumed.add("LoggingPortal.make_unique_name: contract "
                             "(discharged by unique_name)")
        if H.flag("through the portal class"):
            L.log_event(eid, *args, vc__kw=kw.copy())
        elif eid is None:
            H.get(LP, "log_event")(*args, vc__kw=kw.copy())
        else:
            H.get(LP, "log_event")(*args, vc__kw=kw.copy(), event_id=eid)
    else:
        names = ITEMS + ["a", "b"]
        kw = {n: H.val(n) for n in names
              if H.ctx.replaying or H.flag("item " + n)}
        log(H, eid, args, kw)
    H.cover("logged")
    mine = [e for e in event_files(H) if e.parts[0] == "p"]
    H.check("one_record_if_entered", len(mine) == (1 if entered else 0),
            len(mine))
    for e in mine:
        if eid is not None:
            H.check("under_its_id", e.parts[-1] == eid)
        rec = H.thaw(e)
        own = own_items(H, rec, kw)
        H.check("number_of_own_items", len(own) == 1 + (1 if args else 0),
                [k for k, _ in own])
        env = [v for k, v in own if bool(k.startswith(ENV_NAME))]
        H.check("environment_summary", len(env) == 1
                and isinstance(env[0], dict))
        if args:
            msg = [v for k, v in own if bool(k.startswith(MSG_NAME))]
            H.check("messages", len(msg) == 1 and H.same(
                list(msg[0]), args))


def own_items(H, rec, kw):
    """What the record holds beside the items of the caller, which must all
    be in it."""
    if not H.sym:
        H.check("is_a_record", type(rec) is dict)
        for n in kw:
            H.check("item_present", n in rec, n)
            H.check("item_unmodified", H.same(rec[n], kw[n]), n)
        return [(k, rec[k]) for k in rec if k not in kw]
    if not hasattr(rec, "added") or rec.name != kw.name:
        H.undecided("the record is made in another way")
    for i, (k, _) in enumerate(rec.added):
        H.check("item_unmodified", ~kw.had(k), k)
        for x, _ in rec.added[:i]:
            H.check("own_names_differ", ~H.eq(k, x))
    return rec.added


ITEMS = ["x", ENV_NAME, MSG_NAME, ENV_NAME + "_7", "event_type"]


def event_files(H):
    return [e for e in H.env.fs.live if len(e.parts) > 1
            and e.parts[1] == "event_log"]


def log(H, event_id, args, kw):
    """Through the function or the portals' static method."""
    if H.flag("through the portal class"):
        P = H.get(LP, "LoggingPortal")
        return P.log_event(event_id, *args, **kw)
    f = H.get(LP, "log_event")
    if event_id is not None or H.flag("id given as none"):
        return f(*args, event_id=event_id, **kw)
    return f(*args, **kw)


@harness("C09", bound="3 portals, at most 4 entries, any subset of 5 item "
                      "names, at most 2 messages")
def event(H):
    """One record in the log of every entered portal, none elsewhere; every
    item of the caller is in it, unchanged; messages and the summary have
    names of their own."""
    H.pth
    ps = [common.portal(H, f"p{i}", "LoggingPortal") for i in range(3)]
    model = []
    for _ in range(3 if H.small else 5):
        k = H.choose(4, "enter")
        if k == 3:
            break
        if H.small and k > len(model):
            H.assume(False)
        ps[k].__enter__()
        model.append(ps[k])
    names = [n for n in ITEMS[:4 if H.small else 5]
             if (n == "x" and H.small) or H.flag("item " + n)]
    kw = {n: H.val(n) for n in names}
    args = [H.val("message") for _ in range(
        H.choose(3, "messages") if H.small else H.choose(40, "messages"))]
    eid = [None, "my_event"][H.choose(2, "event_id")]

    sevens = []

    def randint(a, b):
        if len(sevens) < 2 and H.flag("draw 7"):
            sevens.append(1)
            return 7
        return a + 100 + len(sevens)
    H.hooks["randint"] = randint
    given = dict(kw)
    log(H, eid, args, kw)
    H.cover("logged")
    H.check("caller_dict_untouched", list(kw) == list(given))
    files = event_files(H)
    for p, q in zip(ps, "012"):
        mine = [e for e in files if e.parts[0] == "p" + q]
        want = 1 if any(p is m for m in model) else 0
        H.check("one_record_per_entered_portal", len(mine) == want,
                f"{len(mine)} instead of {want}")
        for e in mine:
            if eid is not None:
                H.check("under_its_id", e.parts[-1] == eid)
            rec = H.thaw(e)
            H.check("is_a_record", type(rec) is dict)
            for n in names:
                H.check("item_present", n in rec, n)
                H.check("item_unmodified", H.same(rec[n], kw[n]), n)
            own = [n for n in rec if n not in names]
            H.check("number_of_own_items",
                    len(own) == 1 + (1 if args else 0), own)
            env = [n for n in own if n.startswith(ENV_NAME)]
            H.check("environment_summary", len(env) == 1
                    and isinstance(rec[env[0]], dict), own)
            if args:
                msg = [n for n in own if n.startswith(MSG_NAME)]
                H.check("messages", len(msg) == 1
                        and len(rec[msg[0]]) == len(args)
                        and H.all(*[H.same(x, y) for x, y in
                                    zip(rec[msg[0]], args)]), own)


@harness("C09", bound="2 portals, 3 events")
def several_events(H):
    """Events do not disturb one another, whatever happens in between."""
    H.pth
    ps = [common.portal(H, f"p{i}", "PureCodePortal") for i in range(2)]
    common.nearly_the_same_signatures(H)
    f = H.get(LP, "log_event")
    seen = []
    for i in range(3):
        with ps[H.choose(2, "portal")] as p:
            if H.flag("nested"):
                with ps[1]:
                    f(n=i, v=H.val("v"))
                where = distinct([p, ps[1]])
            else:
                f(n=i, v=H.val("v"))
                where = [p]
        seen.append(where)
        now = event_files(H)
        H.check("appended", len(now) == sum(len(w) for w in seen))
        H.cover("logged")
    for j, p in enumerate(ps):
        got = sorted(H.thaw(e)["n"] for e in event_files(H)
                     if e.parts[0] == f"p{j}")
        H.check("each_in_its_portals", got == [
            i for i, w in enumerate(seen) if any(x is p for x in w)], got)


@harness("C09", bound="2 portals")
def not_swallowed_not_half_done(H):
    """Nothing is entered: nothing is written, anywhere."""
    H.pth
    for i in range(2):
        common.portal(H, f"p{i}", "LoggingPortal")
    before = len(H.env.fs.live)
    _, err = H.attempt(log, H, None, [H.val("m")], {"x": H.val("x")})
    H.cover("logged")
    H.check("no_error", err is None, err)
    H.check("nothing_written", len(H.env.fs.live) == before)
