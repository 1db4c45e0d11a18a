"""C03: a value stored in any known portal is retrievable through any."""
from pyvc import ghost
from pyvc.api import harness
from . import common


def known_portals(H, n):
    cls = ("PureCodePortal", "DataPortal")[
        0 if H.small else H.choose(2, "class")]
    return [common.portal(H, f"p{i}", cls) for i in range(n)]


def holders(H, ps, v, allowed=None):
    """Stores v in an arbitrary subset of the portals."""
    out = []
    for i, p in enumerate(ps):
        if H.flag(f"p{i} holds it"):
            H.pth.ValueAddr(v, portal=p)
            out.append(p)
    return out


def enter(H, ps):
    if H.small:
        for p in ps[:H.choose(3, "entered")]:
            p.__enter__()
        return
    k = H.choose(len(ps) + 1, "entered")
    if k < len(ps):
        ps[k].__enter__()
        if H.flag("entered_more"):
            ps[(k + 1) % len(ps)].__enter__()


def value_files(H, i):
    return [(e.parts, e.ftype, e.blob) for e in H.env.fs.live
            if e.parts[0] == f"p{i}" and e.parts[1] == "value_store"]


def same_files(H, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[1] != y[1] or not ghost.parts_equal(x[0], y[0]) \
                or x[2] is not y[2]:
            return False
    return True


@harness("C03", bound="3 portals")
def creation(H):
    """Creating an address stores the value in that portal and nowhere
    else."""
    ps = known_portals(H, 3)
    v = H.val("v")
    there = holders(H, ps, v)
    if H.flag("another_value"):
        H.pth.ValueAddr(H.val("w"), portal=ps[0])
    before = [value_files(H, i) for i in range(3)]
    enter(H, ps)
    k = H.choose(3, "portal")
    a = H.pth.ValueAddr(v, portal=ps[k])
    H.cover("created")
    H.check("bound_to_the_portal", a.portal is ps[k])
    H.check("stored", a in ps[k].value_store
            and H.same(ps[k].value_store[a], v))
    H.check("ready", bool(a.ready))
    H.check("returns_it", H.same(a.get(), v))
    for i in range(3):
        if i != k:
            H.check("others_untouched", same_files(
                H, before[i], value_files(H, i)))
        else:
            n = len(value_files(H, i)) - len(before[i])
            H.check("at_most_one_file", n in (0, 1))
            if ps[i] in there:
                H.check("nothing_added", n == 0)


def unknown_address(H, ps, v):
    """The address of a value which no portal holds."""
    a = H.pth.ValueAddr(v, portal=ps[0])
    H.env.fs.live[:] = []
    return a


def rebuilt(H, a, portal, ps):
    """An equal address, bound to the given portal."""
    how = (0, 2, 1, 3)[H.choose(2 if H.small else 4, "how")]
    if how == 0:
        return H.pth.ValueAddr.from_strings(
            prefix=a.prefix, hash_signature=a.hash_signature, portal=portal,
            assert_readiness=False)
    b = H.pth.ValueAddr.from_strings(
        prefix=a.prefix, hash_signature=a.hash_signature, portal=portal,
        assert_readiness=False)
    if how == 1:
        return b.__copy__()
    if how == 2:
        with portal:
            return ghost.thaw(ghost.freeze(b))
    with portal:
        return H.pth.ValueAddr.from_strings(
            prefix=a.prefix, hash_signature=a.hash_signature,
            assert_readiness=False)


@harness("C03", bound="3 portals, 2 operations in a row")
def retrieval(H):
    """Whatever portals hold the value and whatever is entered: get returns
    it or raises KeyError, ready tells which; only the address's own portal
    gains it."""
    ps = known_portals(H, 3)
    v = H.val("v")
    a = unknown_address(H, ps, v)
    there = holders(H, ps, v)
    k = H.choose(3, "portal")
    b = rebuilt(H, a, ps[k], ps)
    enter(H, ps)
    nest = H.pth.BasicPortal.get_entered_portals()
    H.check("equal_address", bool(a == b))
    H.check("bound", b.portal is ps[k])
    first = H.choose(2, "first")
    for op in (first, 1 - first):
        before = [value_files(H, i) for i in range(3)]
        held = [b in p.value_store for p in ps]
        if op == 0:
            r, err = H.attempt(lambda: b.ready)
            H.check("ready_iff_held", err is None and r is any(held), err)
        else:
            r, err = H.attempt(b.get)
            if any(held):
                H.check("returned", err is None and H.same(r, v), err)
            else:
                H.check("keyerror", isinstance(err, KeyError), err)
        H.cover("asked")
        H.check("entered_portals_restored",
                H.pth.BasicPortal.get_entered_portals() == nest)
        for i in range(3):
            now = value_files(H, i)
            if i != k or held[k] or not any(held):
                H.check("untouched", same_files(H, before[i], now))
            else:
                H.check("copied_once", len(now) == len(before[i]) + 1)
                H.check("copied", b in ps[k].value_store and H.same(
                    ps[k].value_store[b], v))


def unknown_number(H, cls):
    """(own portal, another one, every other one): any number of portals is
    known; `other` is an arbitrary one, placed anywhere among them."""
    if H.sym:
        own, other, rest = (common.portal(H, n, cls) for n in ("p0", "p1",
                                                               "p2"))
        return own, other, [rest]
    out = common.bystanders(H, "x", cls)
    a, b = ("p0", "p1") if H.flag("own is older") else ("p1", "p0")
    first = common.portal(H, a, cls)
    out += common.bystanders(H, "y", cls)
    second = common.portal(H, b, cls)
    own, other = (first, second) if a == "p0" else (second, first)
    out += [common.portal(H, "p2", cls)] + common.bystanders(H, "z", cls)
    return own, other, out


@harness("C03")
def retrieval_among_any_number(H):
    """However many portals are known: get returns the value if the own
    portal or an arbitrary other one holds it, and raises KeyError if none
    does; ready tells which; only the own portal gains it."""
    cls = ("DataPortal", "PureCodePortal")[H.choose(2, "class")]
    own, other, rest = unknown_number(H, cls)
    v = H.val("v")
    a = unknown_address(H, [own], v)
    w = H.val("w")
    if H.sym:
        H.assume(~H.same(v, w))
    elif H.same(v, w):
        w = ("another", w)
    for q in rest:
        H.pth.ValueAddr(w, portal=q)
    if H.flag("own holds it"):
        H.pth.ValueAddr(v, portal=own)
    if H.flag("other holds it"):
        H.pth.ValueAddr(v, portal=other)
    b = rebuilt(H, a, own, [own])
    k = H.choose(5, "entered")
    if k == 4:
        other.__enter__()
        rest[-1].__enter__()
    elif k:
        (own, other, rest[0])[k - 1].__enter__()
    nest = list(H.pth.BasicPortal.entered_portals_stack)
    if H.sym:
        common.many_known(H, own, [other], lambda: rest[0], lambda q: [
            *(e for e in H.env.fs.live if e.parts[1] == "value_store"),
            *H.pth.BasicPortal.entered_portals_stack,
            *map(str, sorted(vars(b)))])

    def files(p):
        n = p.root_dict.base_dir.parts[0]
        return [(e.parts, e.ftype, e.blob) for e in H.env.fs.live
                if e.parts[:2] == (n, "value_store")]
    first = H.choose(2, "first")
    for op in (first, 1 - first):
        everyone = [own, other] + rest
        before = [files(p) for p in everyone]
        held = [b in p.value_store for p in everyone]
        if op == 0:
            r, err = H.attempt(lambda: b.ready)
            H.check("ready_iff_held", err is None and r is any(held), err)
        else:
            r, err = H.attempt(b.get)
            if any(held):
                H.check("returned", err is None and H.same(r, v), err)
            else:
                H.check("keyerror", isinstance(err, KeyError), err)
        H.cover("asked")
        H.check("entered_portals_restored", nest == list(
            H.pth.BasicPortal.entered_portals_stack))
        for i, p in enumerate(everyone):
            now = files(p)
            if i or held[0] or not any(held):
                H.check("untouched", same_files(H, before[i], now))
            else:
                H.check("copied_once", len(now) == len(before[i]) + 1)
                H.check("copied", b in own.value_store and H.same(
                    own.value_store[b], v))


@harness("C03")
def creation_among_any_number(H):
    """However many portals are known, whatever they hold: creating the
    address of a value, or of an address held elsewhere, makes the value
    available in that portal and changes no other one."""
    cls = ("DataPortal", "PureCodePortal")[H.choose(2, "class")]
    own, other, rest = unknown_number(H, cls)
    v = H.val("v")
    by_address = H.flag("made of an address")
    for p, name in ((own, "own"), (rest[0], "another")):
        if H.flag(name + " holds it"):
            H.pth.ValueAddr(v, portal=p)
    if by_address or H.flag("other holds it"):
        a = H.pth.ValueAddr(v, portal=other)
        if by_address and H.flag("rebuilt"):
            a = rebuilt(H, a, other, [])
    k = H.choose(4, "entered")
    if k:
        (own, other, rest[0])[k - 1].__enter__()
    if H.sym:
        common.many_known(H, own, [other], lambda: rest[0], lambda q: [
            *(e for e in H.env.fs.live if e.parts[1] == "value_store"),
            *H.pth.BasicPortal.entered_portals_stack])

    def files(p):
        n = p.root_dict.base_dir.parts[0]
        return [(e.parts, e.ftype, e.blob) for e in H.env.fs.live
                if e.parts[:2] == (n, "value_store")]
    everyone = [own, other] + rest
    before = [files(p) for p in everyone]
    b = H.pth.ValueAddr(a if by_address else v, portal=own)
    H.cover("created")
    H.check("bound_to_the_portal", b.portal is own)
    H.check("stored", b in own.value_store
            and H.same(own.value_store[b], v))
    H.check("one_file", len(files(own)) == 1)
    H.check("ready", bool(b.ready))
    H.check("returns_it", H.same(b.get(), v))
    if by_address:
        H.check("equal", bool(a == b))
    for p, x in zip(everyone[1:], before[1:]):
        H.check("others_untouched", same_files(H, x, files(p)))


@harness("C03", bound="3 portals")
def stored_after_an_unsuccessful_search(H):
    """The answer follows the storage: what was missing is found as soon as a
    portal holds it."""
    ps = known_portals(H, 3)
    v = H.val("v")
    k, j = H.choose(3, "portal"), H.choose(3, "stored in")
    a = unknown_address(H, ps, v)
    b = rebuilt(H, a, ps[k], ps)
    enter(H, ps)
    for op in ("ready", "get", "ready", "get")[H.choose(2, "first"):]:
        if op == "ready":
            H.check("not_ready", not b.ready)
        else:
            r, err = H.attempt(b.get)
            H.check("missing", isinstance(err, KeyError))
    H.pth.ValueAddr(v, portal=ps[j])
    H.cover("stored")
    if H.flag("ready_first"):
        H.check("ready", bool(b.ready))
    r, err = H.attempt(b.get)
    H.check("found", err is None and H.same(r, v), err)
    # the value survives in the address's own portal
    c = rebuilt(H, a, ps[k], ps)
    H.check("copied", c in ps[k].value_store)


@harness("C03", bound="2 portals")
def address_of_an_address(H):
    """Asking a portal for the address of an address held elsewhere makes the
    value available there."""
    ps = known_portals(H, 2)
    v = H.val("v")
    a = H.pth.ValueAddr(v, portal=ps[0])
    if H.flag("rebuilt"):
        a = rebuilt(H, a, ps[0], ps)
    enter(H, ps)
    b = H.pth.ValueAddr(a, portal=ps[1])
    H.cover("built")
    H.check("equal", bool(a == b))
    H.check("bound", b.portal is ps[1])
    H.check("stored", b in ps[1].value_store
            and H.same(ps[1].value_store[b], v))
    H.check("returned", H.same(b.get(), v))


@harness("C03", bound="2 values, 3 portals, 2 operations (12 on up to 5 "
                      "portals in concrete runs)")
def histories(H):
    """Any sequence of storing, rebuilding, asking, retrieving, forgetting,
    entering and leaving, by several addresses; every store holds what it should, always."""
    big = not H.sym and not H.ctx.replaying
    ps = known_portals(H, 3)
    vals = [H.val("v"), H.val("w")]
    if H.sym:
        H.assume(~H.same(*vals))
    elif H.same(*vals):
        vals[1] = ("another", vals[1])
    texts, held, addrs = [], [], []
    for v in vals:
        a = H.pth.ValueAddr(v, portal=ps[0])
        texts.append((a.prefix, a.hash_signature))
    H.env.fs.live[:] = []
    held = {p: set() for p in range(len(ps))}

    def make(j, i):
        """An address of value j, bound to portal i."""
        how = H.choose(4 if big else 3, "how")
        if how == 0:
            a = H.pth.ValueAddr(vals[j], portal=ps[i])
            held[i].add(j)
        elif how == 1 or not addrs:
            a = H.pth.ValueAddr.from_strings(
                prefix=texts[j][0], hash_signature=texts[j][1],
                portal=ps[i], assert_readiness=False)
        else:
            o, j, i0 = addrs[H.choose(len(addrs), "which")]
            if how == 2:
                with ps[i]:
                    a = ghost.thaw(ghost.freeze(o))
            else:
                a, i = o.__copy__(), i0
        addrs.append((a, j, i))

    def step():
        k = H.choose(7 if big else 4, "operation")
        if k == 0 or not addrs:
            make(H.choose(2, "value"), H.choose(len(ps), "portal"))
            return
        a, j, i = addrs[H.choose(len(addrs), "address")]
        somewhere = any(j in held[p] for p in held)
        if k in (1, 4):
            r, err = H.attempt(lambda: a.ready)
            H.check("ready", err is None and r is somewhere, repr(err))
            if somewhere:
                held[i].add(j)
        elif k in (2, 5):
            r, err = H.attempt(a.get)
            if somewhere:
                H.check("returned", err is None and H.same(r, vals[j]),
                        repr(err))
                held[i].add(j)
            else:
                H.check("missing", isinstance(err, KeyError), repr(err))
        elif k == 3:
            n = H.choose(len(ps) + 1, "enter")
            if n < len(ps):
                ps[n].__enter__()
            else:                     # it reads everything again
                _, err = H.attempt(getattr(a, "_invalidate_cache", int))
                H.check("forgotten", err is None, repr(err))
        elif H.flag("leave"):
            st = H.pth.BasicPortal.entered_portals_stack
            if st:
                st[-1].__exit__(None, None, None)
        elif len(ps) < 5:
            held[len(ps)] = set()
            ps.append(common.portal(H, f"p{len(ps)}", type(ps[0]).__name__))
    for s in range(12 if big else 2):
        step()
        for i in held:
            got = value_files(H, i)
            H.check("stored_exactly", len(got) == len(held[i]))
            for j in held[i]:
                H.check("stored", H.same(ps[i].value_store[texts[j]],
                                         vals[j]))
    for a, j, i in addrs:
        H.check("texts_kept", (a.prefix, a.hash_signature) == texts[j])
        H.check("portal_kept", a.portal is ps[i])
    H.cover("done")
