"""C01: base-32 text of numbers and signatures is lossless."""
from pyvc.api import harness

CONV = "_820_strings_signatures_converters.base_16_32_convertors"
SIG = "_820_strings_signatures_converters.hash_signatures"
RND = "_820_strings_signatures_converters.random_signatures"
DIG = "0123456789abcdefghijklmnopqrstuv"


def ref(n):
    out = ""
    while n:
        out, n = DIG[n % 32] + out, n // 32
    return out


def number(H, name="n"):
    return H.int(name, 0) if H.sym else H.int(name, 0, 2 ** H.ctx.rng.choice(
        (3, 10, 53, 64, 100, 128, 200, 256, 400, 700)))


def loops(H, n0):
    """Loop contracts, supplied by shape: a loop that consumes one number and
    builds one text, a loop that reads digits into numbers."""
    if not H.sym:
        return
    from pyvc import digits, sym

    def whil(qual, names, loc):
        inv = digits.BuildInv(names, loc, sym._num(n0),
                              f"C01.{H.spec.name}.loop")
        return inv if inv.ok else None

    def fold(qual, names, loc):
        inv = digits.IntVars(names, loc, f"C01.{H.spec.name}.fold")
        return inv if len(inv.names) == 1 else None
    H.world.hooks["while"] = whil
    H.world.hooks["for_digits"] = fold


def as_text(H, x):
    """(value, leading digit or -1) of a result."""
    if H.sym:
        from pyvc import digits, sym
        t = digits.text_of(x)
        if t is None:
            H.undecided("result is not a text of digits")
        return sym.SInt(t.v), sym.SInt(t.lead)
    H.check("alphabet", isinstance(x, str) and all(c in DIG for c in x), x)
    return (int(x, 32) if x else 0), (DIG.index(x[0]) if x else -1)


@harness("C01", contracts=())
def number_to_text(H):
    """convert_int_to_base32(n): digits 0-9a-v only, denotes n, no leading
    zero; for every n >= 0."""
    f = H.get(CONV, "convert_int_to_base32")
    n = number(H)
    loops(H, n)
    s = f(n)
    H.cover("returned")
    v, lead = as_text(H, s)
    H.check("denotes_n", v == n, s)
    H.check("no_leading_zero", lead != 0, s)


@harness("C01", contracts=())
def text_to_number(H):
    """convert_base_32_to_int(text) is the number the text denotes, in either
    letter case; for every text of digits."""
    f = H.get(CONV, "convert_base_32_to_int")
    if H.sym:
        from pyvc import digits, sym
        t = digits.DigText.fresh("text", upper=True)
        H.ctx.input("text", sym.SInt(t.v))
        loops(H, None)
        want = sym.SInt(t.v)
        H.assume(t.lead >= 0)
    else:
        n = number(H, "text")
        t = ref(n) or "0"
        t = "0" * H.ctx.rng.randrange(3) + "".join(
            c.upper() if H.ctx.rng.random() < .5 else c for c in t)
        want = n
    got = f(t)
    H.cover("returned")
    H.check("denoted_number", got == want, t)


@harness("C01", contracts=())
def round_trip(H):
    """Number to text and back, through both real functions."""
    f = H.get(CONV, "convert_int_to_base32")
    g = H.get(CONV, "convert_base_32_to_int")
    n = number(H)
    loops(H, n)
    s = f(n)
    back = g(s)
    H.cover("returned")
    H.check("same_number", back == n, s)


@harness("C01", contracts=())
def hexadecimal(H):
    """convert_base16_to_base32(hex) denotes the same number."""
    f = H.get(CONV, "convert_base16_to_base32")
    if H.sym:
        import z3
        from pyvc import sym
        h = sym.SStr(z3.String("hex"), low=True)
        n = H.int("n", 0)
        H.assume(z3.Length(h.t) > 0)
        H.world.hooks["int_of_text"] = lambda s, base: n if (
            base == 16 and s is h) else H.undecided("int of another text")
        loops(H, n)
    else:
        n = number(H)
        h = "0" * H.ctx.rng.randrange(3) + ("%x" % n)
        if H.ctx.rng.random() < .5:
            h = h.upper()
    s = f(h)
    H.cover("returned")
    v, lead = as_text(H, s)
    H.check("denotes_n", v == n, s)
    H.check("no_leading_zero", H.implies(n != 0, lead != 0), s)


@harness("C01", contracts=())
def hexadecimal_of_nothing(H):
    """The empty hexadecimal text denotes 0."""
    s = H.get(CONV, "convert_base16_to_base32")("")
    H.cover("returned")
    H.check("zero", (int(s, 32) if s else 0) == 0)


@harness("C01", contracts=())
def hash_signature(H):
    """get_hash_signature(x): the first 22 characters of the base-32 text of
    the SHA-256 digest of x."""
    f = H.get(SIG, "get_hash_signature")
    x = H.val("x")
    if H.sym:
        import z3
        from pyvc import sym, ghost
        b32 = z3.Function("base32_of_hex", sym.S, sym.S)
        H.contract(CONV, "convert_base16_to_base32",
                   lambda h: sym.SStr(b32(sym.sterm(h)), True, True))
        want = sym.mkstr(z3.SubString(b32(ghost.hexdg(sym.content(x))), 0,
                                      22))
    else:
        import joblib.hashing
        import sys
        K = joblib.hashing.NumpyHasher if "numpy" in sys.modules \
            else joblib.hashing.Hasher
        want = ref(int(K(hash_name="sha256").hash(x), 16))[:22]
    got = f(x)
    H.cover("returned")
    if H.sym and not isinstance(got, sym.SStr):
        H.undecided("result is not a text")
    H.check("first_22_of_sha256_in_base_32", got == want)


@harness("C01", contracts=())
def random_signature(H):
    """get_random_signature(): the first 22 characters of the base-32 text of
    a random number."""
    f = H.get(RND, "get_random_signature")
    n = H.int("uuid", 0, 2 ** 128 - 1)
    H.hooks["uuid"] = lambda: n
    if H.sym:
        import z3
        from pyvc import sym
        b32 = z3.Function("base32_of_int", z3.IntSort(), sym.S)
        H.contract(CONV, "convert_int_to_base32",
                   lambda n: sym.SStr(b32(sym._num(n)), True, True))
        got = f()
        H.cover("returned")
        H.check("first_22_in_base_32", got == sym.mkstr(
            z3.SubString(b32(sym._num(n)), 0, 22)))
    else:
        got = f()
        H.check("first_22_in_base_32",
                set(got) <= set(DIG) and len(got) <= 22)
        H.check("of_the_random_number", got == ref(n)[:22])
