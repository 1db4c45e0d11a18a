"""C12: the autonomy analysis accepts self-contained functions only.

Proof by structural induction over syntax trees.  For one arbitrary name x,
every kind of node is visited by the real visitor, its subtrees being arbitrary
(`Abs`) and handled by the induction hypothesis:

 soundness (x is bound nowhere in the tree): if x is read in the node, or
   declared global or nonlocal, x has been reported afterwards; reported names
   stay reported; a name is only taken for known if it is bound or reported.
 completeness (no global/nonlocal declaration of x): if every read of x in the
   node comes after a binding of x, visiting the node does not report x;
   bindings make x known.
 nonlocals (no assumption about x): x is reported as an unbound nonlocal name
   only if some function in the node declares it so and no enclosing function
   of its own has bound it before.
 globals (no assumption about x): if x is declared global anywhere in the node,
   it is reported as such, whatever binds it elsewhere.
"""
import ast
import contextlib
import z3
from pyvc import sym
from pyvc.api import harness
from . import common

NU = "_060_autonomous_functions.names_usage_analyzer"
AC = "_060_autonomous_functions.autonomous_core_classes"
SETS = ("local", "imported", "accessible", "unclassified_deep",
        "explicitly_global_unbound_deep", "explicitly_nonlocal_unbound_deep")
REPORTED = SETS[3:]
FALSE = z3.BoolVal(False)
FEATS = ("R", "U", "B", "Y", "G", "D", "M")
# R: x is read (or declared global/nonlocal) somewhere in the tree
# U: x is read before it is bound in the tree, in the order of the text
# B: the tree binds x in the scope it belongs to
# Y: the scope the tree belongs to yields in the tree
# G: x is declared global somewhere in the tree
# D: x is declared nonlocal in the tree, by the function the tree belongs to
# M: a function defined in the tree needs x bound outside of it (declares it
#    nonlocal) where no function of the tree has bound x before


def Or(*ts):
    return z3.Or([t if z3.is_expr(t) else z3.BoolVal(bool(t)) for t in ts]
                 or [FALSE])


def And(*ts):
    return z3.And(*ts)


Not = z3.Not
Imp = z3.Implies


def parse_kinds():
    out = {}
    for n, c in vars(ast).items():
        if isinstance(c, type) and issubclass(c, ast.AST) and c.__doc__ \
                and c.__doc__.startswith(n + "("):
            fs = c.__doc__[len(n) + 1:].split(")")[0]
            out[n] = [tuple(reversed(f.split())) for f in fs.split(", ")]
    return out


KINDS = parse_kinds()
OUTSIDE = {"Interactive", "Expression", "FunctionType", "TypeIgnore",
           # PEP 695 type parameters: outside the supported syntax
           "TypeAlias", "TypeVar", "TypeVarTuple", "ParamSpec",
           # removed by the normalization (C11)
           "AnnAssign", "Module",
           # never a node of its own for the visitor
           "Load", "Store", "Del"}
NODES = sorted(k for k in KINDS if k not in OUTSIDE)
SCOPES = ("FunctionDef", "AsyncFunctionDef", "Lambda")


class Theory:
    """State of an analyzer, for the loop rule and the induction rule."""

    def __init__(self, H, mode):
        self.H, self.mode, self.c = H, mode, H.ctx
        from pyvc import names
        self.n = names

    # -- states
    def objects(self, loc):
        out = []
        for v in loc.values():
            if isinstance(v, self.A) and all(v is not o for o in out):
                out.append(v)
        return out

    def sets(self, a):
        out = {}
        for k, v in vars(a.names).items():
            if isinstance(v, (set, self.n.NameSet)):
                out[k] = self.n.NameSet.lift(v)
                if out[k] is None:
                    self.H.undecided("unexpected contents of " + k)
        for k in SETS:
            if k not in out:
                self.H.undecided(f"the analyzer has no set {k}")
        return out

    def read(self, a):
        s = self.sets(a)
        s["#"] = sym._num(a.n_yelds)
        return s

    def havoc(self, a):
        for k, v in list(vars(a.names).items()):
            if isinstance(v, (set, self.n.NameSet)):
                setattr(a.names, k, self.n.NameSet(z3.Bool(
                    self.c.name("in_" + k))))
        for k, v in list(vars(a).items()):
            if isinstance(v, (set, self.n.NameSet)):
                setattr(a, k, self.n.NameSet(z3.Bool(self.c.name("in_" + k))))
        a.n_yelds = sym.SInt(z3.Int(self.c.name("n_yields")))

    @staticmethod
    def rej(s):
        return Or(*[s[k] for k in REPORTED])

    def inv(self, s):
        return Imp(Or(s["accessible"], s["local"], s["imported"]),
                   self.rej(s))

    # -- candidate facts of a loop
    def facts(self, b, a, F):
        out = {}
        for k in b:
            if k != "#":
                out["same " + k] = a[k] == b[k]
                out["grows " + k] = Imp(b[k], a[k])
        out["yields grow"] = a["#"] >= b["#"]
        out["yields counted"] = Imp(F["Y"], a["#"] > b["#"])
        out["yields same"] = a["#"] == b["#"]
        out["no yields"] = Imp(Not(F["Y"]), a["#"] == b["#"])
        out["rej grows"] = Imp(self.rej(b), self.rej(a))
        out["globals"] = Imp(F["G"], a[SETS[4]])
        if self.mode == "globals":
            return out
        if self.mode == "nonlocals":
            for k in ("local", "imported", "accessible"):
                out["bound " + k] = Imp(F["B"], a[k])
                out["named " + k] = Imp(F.get("N", FALSE), a[k])
            out["nonlocals"] = Imp(a[SETS[5]], Or(b[SETS[5]], F["D"], And(
                F["M"], Not(b["accessible"]))))
            return out
        if self.mode == "sound":
            out["inv"] = Imp(self.inv(b), self.inv(a))
            out["reported"] = Imp(F["R"], self.rej(a))
        else:
            for k in ("local", "imported", "accessible"):
                out["bound " + k] = Imp(F["B"], a[k])
                out["named " + k] = Imp(F.get("N", FALSE), a[k])
            out["nothing new"] = Imp(self.rej(a), self.rej(b))
            out["only unbound"] = Imp(self.rej(a), Or(self.rej(b), And(
                F["U"], Not(b["accessible"]))))
        return out

    # -- the specification of visiting a tree
    def post(self, b, a, F, sort):
        out = {}
        if self.mode == "globals":
            out["global_declarations_reported"] = Imp(F["G"], a[SETS[4]])
            out["stays_reported_as_global"] = Imp(b[SETS[4]], a[SETS[4]])
        elif self.mode == "nonlocals":
            out["known_names_stay_known"] = Imp(b["accessible"],
                                                a["accessible"])
            out["binding_makes_known"] = Imp(F["B"], a["accessible"])
            out["only_unbound_nonlocals_reported"] = Imp(
                a[SETS[5]], Or(b[SETS[5]], F["D"], And(
                    F["M"], Not(b["accessible"]))))
        elif self.mode == "sound":
            out["taken_for_known_only_if_bound_or_reported"] = self.inv(a)
            out["stays_reported"] = Imp(self.rej(b), self.rej(a))
            out["unbound_name_reported"] = Imp(F["R"], self.rej(a))
            out["yields_counted"] = And(a["#"] >= b["#"],
                                        Imp(F["Y"], a["#"] > b["#"]))
            if sort == "expr":
                for k in SETS[4:]:
                    out["same_" + k] = a[k] == b[k]
        else:
            out["known_names_stay_known"] = Imp(b["accessible"],
                                                a["accessible"])
            out["binding_makes_known"] = Imp(F["B"], a["accessible"])
            out["only_unbound_reads_reported"] = Imp(
                self.rej(a), Or(self.rej(b), And(F["U"],
                                                 Not(b["accessible"]))))
            out["yields_not_invented"] = Imp(Not(F["Y"]), a["#"] == b["#"])
            out["yields_grow"] = a["#"] >= b["#"]
            for k in SETS[4:]:
                out["same_" + k] = a[k] == b[k]
        return out

    def visit_Abs(self, a, node):
        """The induction hypothesis."""
        b = self.read(a)
        if self.mode == "sound":
            self.H.check("invariant_at_subtrees", self.inv(b))
        self.havoc(a)
        now = self.read(a)
        for t in self.post(b, now, node.feat, node.sort).values():
            self.c.add(t)
        if not self.c.feasible():
            from pyvc.core import PathEnd
            self.c.stop(PathEnd())


class Builder:
    """Arbitrary nodes with arbitrary parts, and their features."""

    def __init__(self, H, th):
        self.H, self.th, self.c = H, th, H.ctx
        self.n = th.n
        self.x = self.n.NameSet.x
        self.fixed = []

    def name(self, binds=True, declared=False):
        """An identifier; returns it and 'it is x'."""
        s = self.H.text("identifier")
        if binds and self.th.mode == "sound":
            self.c.add(s.t != self.x.t)
        return s, s.t == self.x.t

    def feat(self, sort):
        f = {k: z3.Bool(self.c.name(k)) for k in FEATS}
        if self.th.mode == "sound":
            self.c.add(Not(f["B"]))
        if sort == "expr":
            self.c.add(Not(Or(f["G"], f["D"], f["M"])))
        if self.th.mode == "complete":
            self.c.add(Not(f["G"]))
        self.c.add(Imp(f["U"], f["R"]))
        return f

    def abs(self, sort):
        f = self.feat(sort)
        return self.n.Abs(f, sort), f

    def none(self):
        return dict.fromkeys(FEATS, FALSE)

    def alt(self, *fs):
        """Sequence without credit for bindings of earlier parts."""
        return {k: Or(*[f[k] for f in fs]) for k in FEATS}

    def seq(self, *fs):
        out = self.none()
        for f in fs:
            out = dict(R=Or(out["R"], f["R"]), B=Or(out["B"], f["B"]),
                       U=Or(out["U"], And(f["U"], Not(out["B"]))),
                       Y=Or(out["Y"], f["Y"]), G=Or(out["G"], f["G"]),
                       D=Or(out["D"], f["D"]),
                       M=Or(out["M"], And(f["M"], Not(out["B"]))))
        return out

    def opt(self, make, label):
        if self.H.flag("has " + label):
            return make()
        return None, self.none()

    def list(self, sort, make, label, feat=None, visited=None):
        """Any number of nodes."""
        f = feat or self.feat(sort)
        l = self.n.AbsList(f, sort, make, label)
        if visited is not None:
            l.agg.feat = visited
        return l, f

    def exprs(self, label):
        return self.list("expr", lambda: self.abs("expr"), label)

    def stmts(self, label="statements"):
        return self.list("stmt", lambda: self.abs("stmt"), label)

    # -- parts with structure
    def arg(self):
        s, isx = self.name()
        f = self.none()
        f["B"] = isx
        return ast.arg(s, None), f

    def arglist(self, label):
        f = self.none()
        f["B"] = z3.Bool(self.c.name("x_among_" + label))
        if self.th.mode == "sound":
            self.c.add(Not(f["B"]))
        # visiting a parameter does nothing (node kind "arg")
        l, _ = self.list("expr", self.arg, label, f, self.none())
        return l, f

    def arguments(self):
        p, fp = self.arglist("posonlyargs")
        a, fa = self.arglist("args")
        k, fk = self.arglist("kwonlyargs")
        v, fv = self.opt(self.arg, "vararg")
        w, fw = self.opt(self.arg, "kwarg")
        d, fd = self.exprs("defaults")
        kd, fkd = self.exprs("kw_defaults")
        node = ast.arguments(p, a, v, k, kd, w, d)
        params = Or(*[f["B"] for f in (fp, fa, fk, fv, fw)])
        return node, self.alt(fd, fkd), params

    def handler(self):
        t, ft = self.opt(lambda: self.abs("expr"), "type")
        if self.H.flag("has name"):
            s, isx = self.name()
        else:
            s, isx = None, FALSE
        b, fb = self.stmts()
        fn = self.none()
        fn["B"] = isx
        return ast.ExceptHandler(t, s, b), dict(self.seq(ft, fn, fb), N=isx)

    def target(self):
        """A target of an assignment, of any form."""
        k = self.H.choose(3, "target")
        if k == 0:
            s, isx = self.name()
            f = self.none()
            f["B"] = isx
            return ast.Name(s, ast.Store()), f
        if k == 1:
            e, f = self.list("expr", self.target, "elements of the target")
            c = (ast.Tuple, ast.List)[self.H.choose(2, "form")]
            return c(e, ast.Store()), f
        return self.abs("expr")

    def comprehension(self):
        t, ft = self.target()
        i, fi = self.abs("expr")
        c, fc = self.exprs("conditions")
        return (ast.comprehension(t, i, c, self.H.choose(2, "async")),
                self.seq(ft, fi, fc))

    def alias(self, dotted):
        n = self.H.text("module")
        first = n.t
        if dotted:
            first = z3.If(z3.Contains(n.t, "."), z3.SubString(
                n.t, 0, z3.IndexOf(n.t, ".", 0)), n.t)
        f = self.none()
        if self.H.flag("has asname"):
            s, f["B"] = self.name()
            self.c.add(s.t != "")
        else:
            s, f["B"] = None, first == self.x.t
            if self.th.mode == "sound":
                self.c.add(Not(f["B"]))
        return ast.alias(n, s), f

    def aliases(self, dotted):
        f = self.none()
        f["B"] = z3.Bool(self.c.name("x_imported"))
        if self.th.mode == "sound":
            self.c.add(Not(f["B"]))
        return self.list("stmt", lambda: self.alias(dotted), "aliases", f,
                         self.none())

    def withitem(self):
        e, fe = self.abs("expr")
        t, ft = self.opt(lambda: self.abs("expr"), "target")
        return ast.withitem(e, t), self.seq(fe, ft)

    # -- whole nodes
    def node(self, kind):
        m = getattr(self, "n_" + kind, None)
        if m is not None:
            return m()
        return self.generic(kind)

    def generic(self, kind):
        """No scope of its own; parts are visited in any order."""
        cls = getattr(ast, kind)
        vals, fs = [], []
        for f, t in KINDS[kind]:
            base, many, opt = t.rstrip("*?"), t[-1] == "*", t[-1] == "?"
            if base in ("expr", "stmt", "keyword", "pattern", "match_case",
                        "withitem", "excepthandler", "comprehension"):
                sort = "expr" if base in ("expr", "keyword", "pattern",
                                          "comprehension") else "stmt"
                if many:
                    v, ft = self.list(sort, lambda s=sort: self.abs(s), f)
                elif opt:
                    v, ft = self.opt(lambda s=sort: self.abs(s), f)
                else:
                    v, ft = self.abs(sort)
                fs.append(ft)
            elif base == "expr_context":
                v = (ast.Load, ast.Store, ast.Del)[self.H.choose(3, f)]()
            elif base in ("operator", "boolop", "unaryop"):
                v = {"operator": ast.Add, "boolop": ast.And,
                     "unaryop": ast.Not}[base]()
            elif base == "cmpop":
                v = [ast.Lt()]
            elif base == "identifier":
                v = ["name"] if many else "name"
            elif base in ("int", "constant"):
                v = 1
            elif base in ("string", "type_ignore", "type_param"):
                v = [] if many else None
            else:
                self.H.undecided(f"unknown kind of field {t}")
            vals.append(v)
        return cls(*vals), self.alt(*fs), ("stmt" if issubclass(
            cls, (ast.stmt, ast.excepthandler, ast.match_case)) else "expr")

    def n_Name(self):
        k = self.H.choose(3, "context")
        s, isx = self.name(binds=k == 1)
        f = self.none()
        if k == 0:
            f["R"] = f["U"] = isx
        if k == 1:
            f["B"] = isx
        return ast.Name(s, (ast.Load, ast.Store, ast.Del)[k]()), f, "expr"

    def n_arg(self):
        s, isx = self.name(binds=False)
        return ast.arg(s, None), self.none(), "expr"

    def n_arguments(self):
        n, f, _ = self.arguments()
        return n, f, "expr"

    def n_alias(self):
        return ast.alias(self.H.text("module"), None), self.none(), "stmt"

    def n_Yield(self, cls=ast.Yield):
        v, f = self.opt(lambda: self.abs("expr"), "value") \
            if cls is ast.Yield else self.abs("expr")
        f = dict(f, Y=z3.BoolVal(True))
        return cls(v), f, "expr"

    def n_YieldFrom(self):
        return self.n_Yield(ast.YieldFrom)

    def function(self, cls):
        s, isx = self.name()
        a, fa, params = self.arguments()
        b, fb = self.stmts()
        d, fd = self.exprs("decorators")
        inner = dict(fb, B=FALSE, Y=FALSE, D=FALSE,
                     U=And(fb["U"], Not(params)),
                     M=Or(fb["D"], And(fb["M"], Not(params))))
        fn = self.none()
        fn["B"] = isx
        outer = dict(self.alt(fd, fa), B=FALSE)
        outer["Y"] = FALSE
        n = cls(s, a, b, d, None)
        return n, (fd, fa, params, fb), self.seq(outer, fn, inner), s

    def n_FunctionDef(self, cls=ast.FunctionDef):
        n, _, f, _ = self.function(cls)
        return n, f, "stmt"

    def n_AsyncFunctionDef(self):
        return self.n_FunctionDef(ast.AsyncFunctionDef)

    def n_Lambda(self):
        a, fa, params = self.arguments()
        b, fb = self.abs("expr")
        inner = dict(fb, B=FALSE, Y=FALSE, U=And(fb["U"], Not(params)))
        return ast.Lambda(a, b), self.alt(fa, inner), "expr"

    def n_ClassDef(self):
        s, isx = self.name()
        bs, f1 = self.exprs("bases")
        ks, f2 = self.exprs("keywords")
        b, f3 = self.stmts()
        d, f4 = self.exprs("decorators")
        fn = self.none()
        fn["B"] = isx
        f = self.seq(dict(self.alt(f4, f1, f2), B=FALSE), fn, f3)
        f["B"] = isx
        return ast.ClassDef(s, bs, ks, b, d), f, "stmt"

    def n_For(self, cls=ast.For):
        t, ft = self.target()
        i, fi = self.abs("expr")
        b, fb = self.stmts()
        e, fe = self.stmts("else")
        return cls(t, i, b, e), self.seq(self.alt(ft, fi), fb, fe), "stmt"

    def n_AsyncFor(self):
        return self.n_For(ast.AsyncFor)

    def n_While(self, cls=ast.While):
        t, ft = self.abs("expr")
        b, fb = self.stmts()
        e, fe = self.stmts("else")
        return cls(t, b, e), self.seq(ft, fb, fe), "stmt"

    def n_If(self):
        return self.n_While(ast.If)

    def n_With(self, cls=ast.With):
        w, fw = self.list("expr", self.withitem, "items")
        b, fb = self.stmts()
        return cls(w, b), self.seq(fw, fb), "stmt"

    def n_AsyncWith(self):
        return self.n_With(ast.AsyncWith)

    def n_withitem(self):
        n, f = self.withitem()
        return n, f, "expr"

    def n_ExceptHandler(self):
        n, f = self.handler()
        if n.name is not None:
            # the name is bound when the whole statement is visited
            f = dict(f, B=FALSE)
            self.c.add(n.name.t != self.x.t)
        return n, f, "stmt"

    def n_Try(self, cls=ast.Try):
        b, fb = self.stmts()
        named = z3.Bool(self.c.name("x_names_a_handler"))
        h, fh = self.list("stmt", self.handler, "handlers",
                          dict(self.feat("stmt"), N=named))
        # the handlers' names are bound by this statement, not by visiting
        # the handlers
        raw = dict(fh, B=z3.Bool(self.c.name("B")),
                   U=z3.Bool(self.c.name("U")),
                   M=z3.Bool(self.c.name("M")))
        self.c.add(fh["B"] == Or(named, raw["B"]))
        self.c.add(And(Imp(fh["U"], raw["U"]), Imp(raw["U"], raw["R"]),
                       Imp(And(raw["U"], Not(fh["U"])), named)))
        self.c.add(And(Imp(fh["M"], raw["M"]),
                       Imp(And(raw["M"], Not(fh["M"])), named)))
        h.agg.feat = raw
        e, fe = self.stmts("else")
        f, ff = self.stmts("finally")
        return cls(b, h, e, f), self.seq(fb, fh, fe, ff), "stmt"

    def n_TryStar(self):
        return self.n_Try(ast.TryStar)

    def comp(self, cls):
        e, fe = self.abs("expr")
        g, fg = self.list("expr", self.comprehension, "generators")
        return cls(e, g), self.seq(fg, fe), "expr"

    def n_ListComp(self):
        return self.comp(ast.ListComp)

    def n_SetComp(self):
        return self.comp(ast.SetComp)

    def n_GeneratorExp(self):
        return self.comp(ast.GeneratorExp)

    def n_DictComp(self):
        k, fk = self.abs("expr")
        v, fv = self.abs("expr")
        g, fg = self.list("expr", self.comprehension, "generators")
        return ast.DictComp(k, v, g), self.seq(fg, self.alt(fk, fv)), "expr"

    def n_comprehension(self):
        n, f = self.comprehension()
        return n, f, "expr"

    def n_Import(self):
        a, f = self.aliases(True)
        return ast.Import(a), f, "stmt"

    def n_ImportFrom(self):
        a, f = self.aliases(False)
        m = self.H.text("module")
        return ast.ImportFrom(m, a, 0), f, "stmt"

    def declaration(self, cls):
        h = z3.Bool(self.c.name("x_declared"))
        if self.th.mode == "complete":
            self.c.add(Not(h))
        f = self.none()
        f["R"] = h
        if cls is ast.Global:
            f["G"] = h
        else:
            f["D"] = h
        return cls(self.n.AbsNames(h)), f, "stmt"

    def n_Global(self):
        return self.declaration(ast.Global)

    def n_Nonlocal(self):
        return self.declaration(ast.Nonlocal)

    def n_Match(self):
        s, fs = self.abs("expr")
        c, fc = self.list("stmt", lambda: self.abs("stmt"), "cases")
        return ast.Match(s, c), self.seq(fs, fc), "stmt"

    def n_match_case(self):
        p, fp = self.abs("expr")
        g, fg = self.opt(lambda: self.abs("expr"), "guard")
        b, fb = self.stmts()
        return ast.match_case(p, g, b), self.seq(fp, fg, fb), "stmt"

    def optname(self):
        f = self.none()
        if not self.H.flag("has name"):
            return None, f
        s, f["B"] = self.name()
        return s, f

    def n_MatchAs(self):
        s, f = self.optname()
        p, fp = self.opt(lambda: self.abs("expr"), "pattern")
        return ast.MatchAs(p, s), self.alt(f, fp), "expr"

    def n_MatchStar(self):
        s, f = self.optname()
        return ast.MatchStar(s), f, "expr"

    def n_MatchMapping(self):
        k, fk = self.exprs("keys")
        p, fp = self.exprs("patterns")
        s, f = self.optname()
        return ast.MatchMapping(k, p, s), self.alt(fk, fp, f), "expr"


def setup(H, mode):
    from pyvc import names
    m = H.mod(NU)
    A = H.get(NU, "NamesUsageAnalyzer")
    th = Theory(H, mode)
    th.A = A
    x = H.text("x")
    H.ctx.add(x.t != "")
    names.NameSet.x, names.NameSet.witness = x, False
    names.AbsLoop.theory = th
    H.world.hooks["set"] = names.NameSet.of
    H.ctx.last_part = lambda p: sym.SStr(z3.String(H.ctx.name("last_part")))
    if not (isinstance(A, type) and issubclass(A, ast.NodeVisitor)):
        H.undecided("NamesUsageAnalyzer is no node visitor")
    A.visit_Abs = lambda self, node: th.visit_Abs(self, node)
    try:
        a = A()
        th.read(a)
        a.func_nesting_level
    except AttributeError as e:
        H.undecided(f"analyzer without {e}")
    return th, a, Builder(H, th)


GROUPS = {
    "functions": ["FunctionDef", "AsyncFunctionDef", "Lambda", "arguments",
                  "arg", "ClassDef"],
    "comprehensions": ["ListComp", "SetComp", "GeneratorExp",
                       "comprehension"],
    "dict_comprehensions": ["DictComp"],
    "loops": ["For", "AsyncFor"],
    "handlers": ["Try", "TryStar", "ExceptHandler"],
    "names": ["Name", "Import", "ImportFrom", "alias", "Global", "Nonlocal"],
}
GROUPS["others"] = [k for k in NODES if all(k not in g
                                            for g in GROUPS.values())]


def node_contract(H, mode, kinds):
    k = kinds[H.choose(len(kinds), "kind of node")]
    th, a, B = setup(H, mode)
    # the node occurs somewhere inside a function
    a.func_nesting_level = 1
    th.havoc(a)
    before = th.read(a)
    if mode == "sound":
        H.assume(th.inv(before))
    n, f, sort = B.node(k)
    a.visit(n)
    H.cover("visited")
    after = th.read(a)
    for name, t in th.post(before, after, f, sort).items():
        H.check(f"{name}.{k}", sym.SBool(t), k)
    H.check("nesting_level_restored", a.func_nesting_level == 1)


def register(mode, group, doc):
    def fn(H):
        node_contract(H, mode, GROUPS[group])
    fn.__name__ = f"{mode}_for_{group}"
    fn.__doc__ = f"{doc}, node kinds: {', '.join(GROUPS[group])}."
    harness("C12", replay=False, random=False)(fn)


for _g in GROUPS:
    register("sound", _g, "Unbound names are reported: induction step")
    if _g in ("functions", "names", "handlers", "loops", "others"):
        register("globals", _g, "Global declarations are reported: induction "
                                "step")
    if _g in ("functions", "names", "handlers", "loops", "others"):
        register("nonlocals", _g, "Bound nonlocal names are not reported: "
                                  "induction step")
    register("complete", _g, "Bound names are not reported: induction step")


@harness("C12", replay=False, random=False)
def sequences_compose(H):
    """Induction over lists of subtrees: visiting a sequence and then one more
    subtree satisfies the contract of the longer sequence."""
    mode = ("sound", "complete", "globals", "nonlocals")[
        H.choose(4, "mode")]
    th, a, B = setup(H, mode)
    th.havoc(a)
    b = th.read(a)
    if mode == "sound":
        H.assume(th.inv(b))
    sort = ("expr", "stmt")[H.choose(2, "sort")]
    n1, f1 = B.abs(sort)
    n2, f2 = B.abs(sort)
    a.visit(n1)
    a.visit(n2)
    H.cover("visited")
    for name, t in th.post(b, th.read(a), B.seq(f1, f2), sort).items():
        H.check(name, sym.SBool(t))


def whole(mode):
    def run(H):
        th, a, B = setup(H, mode)
        n, (fd, fa, params, fb), f, s = B.function(ast.FunctionDef)
        a.visit(ast.Module([n], []))
        H.cover("visited")
        s2 = th.read(a)
        bad = Or(fd["R"], fa["R"], fb["R"])
        if mode == "globals":
            H.check("reported", sym.SBool(Imp(Or(fd["G"], fa["G"], fb["G"]),
                                              s2[SETS[4]])))
        elif mode == "nonlocals":
            H.check("not_reported", sym.SBool(Imp(s2[SETS[5]], Or(
                fb["D"], And(fb["M"], Not(params))))))
        elif mode == "sound":
            H.check("reported", sym.SBool(Imp(bad, th.rej(s2))))
            H.check("yields", sym.SBool(Imp(fb["Y"], s2["#"] > 0)))
        else:
            late = Or(fd["U"], fa["U"], And(fb["U"], Not(params)))
            H.check("not_reported", sym.SBool(Imp(th.rej(s2), late)))
            H.check("yields", sym.SBool(Imp(
                Not(Or(fb["Y"], fd["Y"], fa["Y"])), s2["#"] == 0)))
        H.check("name_found", H.eq(a.names.function, s))
    return run


@harness("C12", replay=False, random=False)
def whole_functions_sound(H):
    """A name read but bound nowhere in a function is reported."""
    whole("sound")(H)


@harness("C12", replay=False, random=False)
def whole_functions_globals(H):
    """A name declared global anywhere in a function is reported."""
    whole("globals")(H)


@harness("C12", replay=False, random=False)
def whole_functions_nonlocals(H):
    """A nonlocal name bound before in an enclosing function of the function's
    own is not reported."""
    whole("nonlocals")(H)


@harness("C12", replay=False, random=False)
def whole_functions_complete(H):
    """A name all of whose reads come after a binding is not reported."""
    whole("complete")(H)


# ------------------------------------------------- acceptance and refusal
def kinds_of_functions(H, p):
    k = H.choose(3, "kind")
    d = (H.pth.autonomous, H.pth.strictly_autonomous, H.pth.pure)[k]
    return d(portal=p), k == 1


@harness("C12", replay=False, random=False)
def reported_functions_are_refused(H):
    """Whatever the analysis reports: a function with unbound nonlocal names
    or yields is refused at decoration, one with a reported name that is
    neither a builtin, its own name, a name of its island, nor injected by the
    framework is never executed; all others are."""
    import builtins
    from pyvc import names
    p = common.portal(H, "p")
    b = common.Bodies(H)
    deco, strict = kinds_of_functions(H, p)
    if H.flag("another function in the island"):
        H.pth.autonomous(portal=p)(b.src("g"))
    x = H.text("x")
    names.NameSet.x = x
    sets = {k: z3.Bool("in_" + k) for k in SETS}
    n = H.int("n_yields", lo=0)
    A = H.get(NU, "NamesUsageAnalyzer")

    def analyze(f):
        a = A()
        for k, t in sets.items():
            if not hasattr(a.names, k):
                H.undecided("the analyzer has no set " + k)
            setattr(a.names, k, names.NameSet(t))
        a.n_yelds = n
        a.names.function = "f"
        a.imported_packages_deep = set()
        src = f if isinstance(f, str) else f.fn_source_code
        return dict(tree=None, analyzer=a, normalized_source=src)
    H.contract(NU, "analyze_names_in_function", analyze)
    H.contract("_060_autonomous_functions.call_graph_explorer",
               "explore_call_graph_deep", lambda fs: {"f": {"f"}, "g": {"g"}})
    names.NameSet.witness = H.flag("x is the only suspicious name")
    f, err = H.attempt(deco, b.src("f"))
    if err is not None and H.flag("declared once more"):
        f, err = H.attempt(deco, b.src("f"))
    H.cover("declared")
    nonl = And(sets[SETS[5]], Not(z3.Or([x.t == d for d in
                                         H.pth.all_decorators])))
    bad1 = Or(nonl, n.t > 0)
    if names.NameSet.witness:
        H.check("refused_at_decoration", sym.SBool(bad1 == z3.BoolVal(
            err is not None)), repr(err))
    elif err is None:
        H.check("refused_at_decoration", sym.SBool(Not(bad1)))
    if err is not None:
        return
    _, err = H.attempt(f)
    if err is not None and H.flag("tried once more"):
        _, err = H.attempt(f)
    ok = list(dir(builtins)) + list(H.pth.primary_decorators) + [
        "pth", "self", "f"]
    if not strict and "g" in p.known_functions[p.default_island_name]:
        ok.append("g")
    bad2 = And(Or(sets[SETS[3]], sets[SETS[4]]),
               Not(z3.Or([x.t == d for d in ok])))
    ran = b.count("f")
    H.check("run_at_most_once", ran <= 1)
    if names.NameSet.witness:
        H.check("refused_at_execution", sym.SBool(bad2 == z3.BoolVal(
            err is not None)), repr(err))
    elif ran or err is None:
        H.check("refused_at_execution", sym.SBool(Not(bad2)))
    H.check("body_runs_exactly_if_accepted", (ran == 1) == (err is None),
            repr(err))


class Judge:
    """The reference, on real syntax trees."""

    def __init__(self, src):
        self.fn = ast.parse(src).body[0]
        self.reads, self.binds, self.declared = set(), set(), set()
        self.globals = set()
        self.yields = self.has_yield(self.fn)
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Name):
                (self.binds if isinstance(n.ctx, ast.Store) else self.reads
                 if isinstance(n.ctx, ast.Load) else set()).add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.declared |= set(n.names)
                if isinstance(n, ast.Global):
                    self.globals |= set(n.names)
            else:
                self.binds |= self.own(n)
        self.binds.discard(self.fn.name)
        # names declared nonlocal that are not bound before, in a function
        # around the one that declares them
        self.open, self.around = set(), set()
        self.late = self.scan([self.fn], set())[0]

    @staticmethod
    def own(n):
        """Names the node itself binds."""
        if isinstance(n, ast.arg):
            return {n.arg}
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef,
                          ast.ExceptHandler, ast.MatchAs, ast.MatchStar)):
            return {n.name} - {None}
        if isinstance(n, ast.MatchMapping):
            return {n.rest} - {None}
        if isinstance(n, ast.alias):
            return {n.asname or n.name.split(".")[0]}
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            return {n.id}
        return set()

    def has_yield(self, fn):
        def go(n):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            return not isinstance(n, (ast.FunctionDef, ast.Lambda,
                                      ast.AsyncFunctionDef)) and any(
                go(c) for c in ast.iter_child_nodes(n))
        return any(go(c) for c in fn.body)

    def scan(self, nodes, known):
        """(names read before they are bound, names bound) for the nodes one
        after the other, in the order of the text."""
        late, bound = set(), set()
        for n in nodes:
            l, b = self.one(n, known | bound)
            late |= l
            bound |= b
        return late, bound

    def alike(self, nodes, known):
        """The same, without credit for bindings among the nodes."""
        late, bound = set(), set()
        for n in nodes:
            l, b = self.one(n, known)
            late |= l
            bound |= b
        return late, bound

    def one(self, n, known):
        if n is None:
            return set(), set()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            return ({n.id} - known), set()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            d = self.alike(n.decorator_list + [n.args], known)[0]
            params = {a.arg for a in ast.iter_child_nodes(n.args)
                      if isinstance(a, ast.arg)}
            outer, self.around = self.around, known | {n.name}
            late = self.scan(n.body, known | {n.name} | params)[0]
            self.around = outer
            return d | late, {n.name}
        if isinstance(n, ast.Nonlocal):
            self.open |= set(n.names) - self.around
        if isinstance(n, ast.Lambda):
            d = self.alike([n.args], known)[0]
            params = {a.arg for a in ast.iter_child_nodes(n.args)
                      if isinstance(a, ast.arg)}
            return d | self.one(n.body, known | params)[0], set()
        if isinstance(n, ast.arg):
            return set(), set()
        if isinstance(n, ast.ClassDef):
            d = self.alike(n.decorator_list + n.bases + n.keywords, known)[0]
            return d | self.scan(n.body, known | {n.name})[0], {n.name}
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            l, b = self.scan(n.generators, known)
            parts = [n.key, n.value] if isinstance(n, ast.DictComp) \
                else [n.elt]
            l2, b2 = self.alike(parts, known | b)
            return l | l2, b | b2
        if isinstance(n, ast.comprehension):
            return self.scan([n.target, n.iter] + n.ifs, known)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            l, b = self.alike([n.target, n.iter], known)
            l2, b2 = self.scan(n.body + n.orelse, known | b)
            return l | l2, b | b2
        if isinstance(n, (ast.If, ast.While)):
            return self.scan([n.test] + n.body + n.orelse, known)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return self.scan(n.items + n.body, known)
        if isinstance(n, (ast.Try, ast.TryStar)):
            return self.scan(n.body + n.handlers + n.orelse + n.finalbody,
                             known)
        if isinstance(n, ast.ExceptHandler):
            l, b = self.one(n.type, known)
            l2, b2 = self.scan(n.body, known | b | self.own(n))
            return l | l2, b | b2 | self.own(n)
        if isinstance(n, ast.Match):
            return self.scan([n.subject] + n.cases, known)
        if isinstance(n, ast.match_case):
            return self.scan([n.pattern, n.guard] + n.body, known)
        l, b = self.alike(list(ast.iter_child_nodes(n)), known)
        return l, b | self.own(n)


V = ["a", "b", "c", "zz", "len", "f", "g1"]


class Gen:
    """Random functions."""

    def __init__(self, H):
        self.H, self.r = H, H.ctx.rng
        self.good = self.r.random() < .6      # read what was bound before
        self.known = ["len"]

    def v(self):
        """A name to bind."""
        v = self.r.choice(V)
        self.known.append(v)
        return v

    def u(self):
        """A name to read."""
        return self.r.choice(self.known if self.good else V)

    def e(self, d=2):
        r = self.r
        if d == 0 or r.random() < .3:
            return r.choice([self.u(), self.u(), "1", "'a'"])
        e, u, v = lambda: self.e(d - 1), self.u, self.v

        def comp(form):
            with self.scope():
                it, x, y, z = e(), v(), v(), v()
                return form.format(it=it, x=x, y=y, z=z, e=e(), f=e(), g=e())
        return r.choice([
            lambda: f"{e()} + {e()}", lambda: f"{u()}({e()})",
            lambda: f"{e()} if {e()} else {e()}", lambda: f"({e()}).x",
            lambda: f"{{{e()}: {e()}}}", lambda: f"[{e()}, *{e()}]",
            lambda: f"f'{{{u()}}}'", lambda: f"({e()})[{e()}:]",
            lambda: f"({v()} := {e()})",
            lambda: comp("[{e} for {x} in {it}]"),
            lambda: comp("{{{e}: {f} for {x} in {it} if {g}}}"),
            lambda: comp("[{e} for {x}, ({y}, {z}) in {it}]"),
            lambda: comp("(lambda {x}: {e})"),
            lambda: comp("(lambda *{x}, {y}_={it}: {e})"),
        ])()

    @contextlib.contextmanager
    def scope(self):
        n = len(self.known)
        yield
        del self.known[n:]

    def params(self, e=None):
        r = self.r
        vs = V[:]
        r.shuffle(vs)
        t = r.choice(["", "{0}", "{0}, {1}={e}", "*, {0}", "{0}, /, {1}",
                      "*{0}, **{1}", "{0}={e}, *, {1}={e}"])
        t = t.format(*vs, e=e or self.e(1))
        self.known += [v for i, v in enumerate(vs[:2]) if v in t]
        return t

    def s(self, d, ind):
        r, p = self.r, "    " * ind
        sub = lambda: "\n".join(self.s(d - 1, ind + 1)
                                for _ in range(r.randint(1, 2)))
        k = r.randrange(22 if d else 9)
        e, v, u = self.e, self.v, self.u

        def then(it, form):
            """The names in `form` are bound after `it`."""
            return form.format(it=it, x=v(), y=v(), z=v(), sub=sub())

        def inner(form):
            x = v()
            with self.scope():
                return form.format(x=x, params=self.params(), sub=sub())
        return p + [
            lambda: "{1} = {0}".format(e(), v()),
            lambda: "{1}, [{2}, *{3}] = {0}".format(e(), v(), v(), v()),
            lambda: f"{u()} += {e()}", lambda: f"return {e()}",
            lambda: e(), lambda: f"import {r.choice(V)}.x as {v()}",
            lambda: f"import {v()}.x", lambda: f"from m import q as {v()}",
            lambda: r.choice([f"del {u()}", "pass"] if self.good else [
                f"global {v()}", f"del {v()}", "pass",
                f"yield {e()}", "x = yield"]),
            lambda: f"if {e()}:\n{sub()}\n{p}else:\n{sub()}",
            lambda: then(e(), "for {x} in {it}:\n{sub}"),
            lambda: then(e(), "for {x}, ({y}, {z}) in {it}:\n{sub}")
            + f"\n{p}else:\n{sub()}",
            lambda: f"while {e()}:\n{sub()}",
            lambda: then(e(), "with {it} as {x}:\n{sub}"),
            lambda: f"try:\n{sub()}\n{p}"
            + then(e(1), "except {it} as {x}:\n{sub}"),
            lambda: f"try:\n{sub()}\n{p}"
            + then(e(1), "except* {it} as {x}:\n{sub}\n")
            + f"{p}finally:\n{sub()}",
            lambda: inner("def {x}({params}):\n{sub}"),
            lambda: inner("async def {x}({params}):\n{sub}"),
            lambda: f"class {r.choice(V)}({u()}):\n{sub()}",
            lambda: f"@{u()}\n{p}" + inner("def {x}({params}):\n{sub}"),
            lambda: f"match {e()}:\n{p}    " + then(
                "", "case [{x}, *{y}_]:\n{sub}").replace("\n", "\n    "),
            lambda: (inner("def {x}():\n{sub}") if r.random() < .5 else
                     f"def {v()}():\n{p}    nonlocal {u()}\n{sub()}")
            if self.good else
            f"def {v()}():\n{p}    nonlocal {v()}\n{sub()}",
        ][k]()

    def function(self):
        r = self.r
        d = r.choice(["1", "'a'", "len", "zz", "a"])
        head = f"def f({self.params(d)}):\n    import pyvc_body\n" \
               "    pyvc_body.call('f', {})\n"
        return head + "\n".join(
            self.s(2, 1) for _ in range(r.randint(1, 4))) + "\n"


FIXED = [
    ("def f(a, /, b=1, *c, d, **e):\n{} return a, b, c, d, e", "accepted"),
    ("def f(a, b, c=1, d=2, e=3, *g, h=4, i=5, j=6, k=7, **l):\n"
     "{} return a, b, c, d, e, g, h, i, j, k, l", "accepted"),
    ("def f(a, b, c, d, /):\n{} return a, b, c, d", "accepted"),
    ("def f():\n{} def g1(a, b, c, d, /, e, h, i, j, k=1, *, l, m, n, o): "
     "return a, b, c, d, e, h, i, j, k, l, m, n, o\n"
     " return lambda p, q, r, s, t: p + q + r + s + t", "accepted"),
    ("def f():\n{} def g1(a, *, b=1): return a + b\n return g1(1)",
     "accepted"),
    ("def f():\n{} async def g1(a): return a\n return 1", "accepted"),
    ("def f(a):\n{} return zz", "refused"),
    ("def f(a):\n{} return [zz for a in a]", "refused"),
    ("def f(a):\n{} def g1():\n  return zz\n return 1", "refused"),
    ("def f(a):\n{} return (lambda b: zz)", "refused"),
    ("def f(a):\n{} class K:\n  b = zz\n return 1", "refused"),
    ("def f(a):\n{} global zz\n return 1", "refused"),
    ("def f(a):\n{} def g1():\n  global zz\n  zz = 1", "refused"),
    ("def f(a):\n{} zz = 1\n def g1():\n  global zz\n  return zz\n"
     " return zz", "refused"),
    ("def f(zz):\n{} class C:\n  def g1(self):\n   def g2():\n"
     "    global zz\n   return zz\n return zz", "refused"),
    ("def f(a):\n{} try: pass\n except* ValueError as b: a = b",
     "accepted"),
    ("def f(a):\n{} match a:\n  case [b, *c]: return b, c\n  case {{'k': d, "
     "**e}}: return d, e\n  case int() as g1: return g1", "accepted"),
    ("def f(a):\n{} import os.path, sys as b\n return os, b", "accepted"),
    ("def f(a):\n{} import os.path as b\n return os", "refused"),
    ("def f(a):\n{} from os import sep as b, linesep\n return b, linesep",
     "accepted"),
    ("def f(a):\n{} from os import sep as b\n return sep", "refused"),
    ("def f(a):\n{} from os import path\n return os", "refused"),
    ("def f(a):\n{} import os as b\n return os", "refused"),
    ("def f(a):\n{} import os.path\n return path", "refused"),
    ("def f(a):\n{} return f if a else len([])", "accepted"),
    ("def f(a):\n{} for b, (c, zz) in []: pass\n return b, c, zz",
     "accepted"),
    ("def f(a):\n{} return {{b: c for b, c in [] if b if c}}", "accepted"),
    ("def f(a):\n{} def g1(b=zz): return b\n return 1", "refused"),
    ("def f(a):\n{} @zz\n def g1(b): return b\n return 1", "refused"),
    ("def f(a):\n{} match a:\n  case zz.b: return 1", "refused"),
    ("def f(a):\n{} return f'{{zz}}'", "refused"),
    ("def f(a):\n{} a.zz = 1; a[zz] = 1", "refused"),
    ("def f(a):\n{} with a as b, b as c: return c", "accepted"),
    ("def f(a):\n{} def g1():\n  nonlocal a\n  a = 1\n return a", "accepted"),
    ("def f():\n{} b = 0\n def g1():\n  def g2():\n   nonlocal b\n   b = 1"
     "\n  return b\n return b", "accepted"),
    ("def f():\n{} b = 0\n def g1():\n  nonlocal b\n  def g2():\n"
     "   nonlocal b\n   b += 1\n  g2()\n return b", "accepted"),
    ("def f():\n{} class C:\n  def m(self, c):\n   def g2():\n"
     "    nonlocal c\n    c = 1\n   return c\n return C", "accepted"),
    ("def f(a):\n{} yield 1", "yields"),
    ("def f(a):\n{} b = yield from a", "yields"),
    ("def f(a):\n{} def g1(): yield 1\n return 1", "accepted"),
]


def stop_here(kw):
    raise common.Boom("accepted")


@harness("C12", bound="a fixed collection of functions; random functions in "
                      "concrete runs")
def real_functions_are_judged(H):
    """Whole functions, decorated and called: refused or run as an
    independent reference analysis says."""
    p = common.portal(H, "p")
    b = common.Bodies(H)
    b.do["f"] = stop_here
    if H.sym or H.ctx.replaying or H.flag("fixed"):
        src, want = FIXED[H.choose(len(FIXED), "function")]
        src = src.replace("\n{}", "\n import pyvc_body; pyvc_body.call('f', {{"
                                  "}})\n").replace("{{", "{").replace(
            "}}", "}") + "\n"
        judge_one(H, p, b, src, want, None)
        return
    import warnings
    for i in range(8):
        src = Gen(H).function()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                compile(src, "generated", "exec")
        except SyntaxError:
            H.check("done", True)
        else:
            judge_one(H, p, b, src, None, f"island_{i}")


def judge_one(H, p, b, src, want, island):
    import builtins
    j = Judge(src)
    kind = H.choose(2, "kind")
    d = (H.pth.autonomous, H.pth.pure)[kind]
    f, err = H.attempt(d(portal=p, island_name=island), src)
    if err is not None and H.flag("declared once more"):
        f, err = H.attempt(d(portal=p, island_name=island), src)
    H.cover("judged")
    if j.yields:
        H.check("yielding_functions_refused", err is not None, src)
    if want == "yields":
        H.check("expected", j.yields)
    if err is not None:
        if not j.yields and not j.open:
            H.check("not_refused_at_decoration", False, src + repr(err))
        return
    ok = set(dir(builtins)) | {"f", "pth", "self"} | set(
        H.pth.primary_decorators)
    args = {a.arg: 1 for a in j.fn.args.args + j.fn.args.kwonlyargs}
    n = b.count("f")
    _, e = H.attempt(lambda: f(**args))
    # positional-only parameters cannot be passed
    ran = b.count("f") > n or (bool(j.fn.args.posonlyargs)
                               and isinstance(e, TypeError))
    unbound = (j.reads | j.declared) - j.binds - ok
    if unbound:
        if H.flag("tried once more"):
            H.attempt(lambda: f(**args))
            ran = b.count("f") > n
        H.check("unbound_names_refused", not ran, src + repr(sorted(unbound)))
    if not (j.late - ok) and not j.yields and not j.open \
            and not j.globals:
        H.check("self_contained_functions_accepted", ran, src + repr(e))
    if want is not None:
        H.check("expected", want == ("accepted" if ran else "refused"), src)
