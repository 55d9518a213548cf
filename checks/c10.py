"""C10: joins are rewritten to what they mean.

Joins written as comma lists, INNER JOIN, CROSS JOIN and RIGHT JOIN are turned into LEFT JOINs before they are compiled.  The
statement handed to compile_select is compared, clause by clause, with the statement written: a comma join keeps all its
conditions in WHERE (conditions also used for joining are among them), an INNER JOIN becomes a LEFT JOIN with the same
condition whose unmatched rows are excluded by IS NOT NULL on a column of the joined table its condition compares, a RIGHT
JOIN becomes a LEFT JOIN of the tables before it with the whole condition; everything else stays as written.  What has no
such form must be rejected."""
from sa.interp import C, Inst, ListV, Raised
from .sqlnodes import COMPILER
from .stmt import World, at, run, text

EXPLANATION = __doc__
REJECT = ("SyncanySqlCompileException",)
COMPARE = ("EQ", "NEQ", "GT", "GTE", "LT", "LTE", "In")


def args_of(n):
    return {k.v: v for k, v in n.attrs["args"].d.values() if not (isinstance(v, C) and v.v in (None, False, ""))
            and not (isinstance(v, ListV) and not v.items)}


def renamed(n):
    """nodes the program builds, named like those of the statement"""
    if isinstance(n, ListV):
        for x in n.items:
            renamed(x)
    elif isinstance(n, Inst) and "args" in n.attrs:
        n.name = n.cls.name
        for k, v in n.attrs["args"].d.values():
            renamed(v)
    return n


def conj(n):
    """conjuncts of a condition"""
    if n is None:
        return []
    a = args_of(n)
    if n.name == "And":
        return conj(a["this"]) + conj(a["expression"])
    if n.name == "Paren":
        inner = conj(a["this"])
        return inner if len(inner) > 1 else [a["this"]] if a["this"].name != "Paren" else inner
    return [n]


def columns(n, out=None):
    """(table, column) of every column in a tree"""
    out = [] if out is None else out
    if isinstance(n, ListV):
        for x in n.items:
            columns(x, out)
    elif isinstance(n, Inst) and "args" in n.attrs:
        a = args_of(n)
        if n.name == "Column":
            out.append((text(a["table"]) if "table" in a else None, text(a["this"])))
        else:
            for v in a.values():
                columns(v, out)
    return out


def tables_of(n):
    return {t for t, c in columns(n) if t}


def direct(n, table):
    """columns of the table a comparison compares as they are"""
    if n.name not in COMPARE:
        return set()
    a = args_of(n)
    sides = [a.get("this"), a.get("expression")]
    return {columns(x)[0] for x in sides if isinstance(x, Inst) and x.name == "Column" and columns(x)[0][0] == table}


def needs(n, table):
    """a comparison that is not true when the columns of the table are NULL"""
    def strict(x):
        if not isinstance(x, Inst):
            return False
        if x.name == "Column":
            return columns(x)[0][0] == table
        return x.name in ("Add", "Sub", "Mul", "Div", "Mod", "Neg", "Paren") and any(strict(y) for y in args_of(x).values())
    return n.name in COMPARE and any(strict(x) for x in args_of(n).values())


def alias_of(t):
    a = args_of(t)
    return text(args_of(a["alias"])["this"]) if "alias" in a else text(a["this"])


def kind_of(j):
    a = args_of(j)
    side, kind = (a["side"].v.lower() if "side" in a else ""), (a["kind"].v.lower() if "kind" in a else "")
    if "using" in a or "natural" in a:
        return "unsupported"
    if kind == "inner" or (kind == "cross" and "on" in a):
        return "inner"
    if side == "right" and not kind:
        return "right"
    if side in ("", "left") and kind in ("", "cross"):
        return "left"
    return "unsupported"


class Tree:
    def __init__(self, sel):
        a = args_of(sel)
        frm = args_of(a["from"])["expressions"].items
        self.base = frm[0]
        self.seq = [(t, "comma", []) for t in frm[1:]]
        for j in (a["joins"].items if "joins" in a else []):
            self.seq.append((args_of(j)["this"], kind_of(j), conj(args_of(j).get("on"))))
        self.where = conj(args_of(a["where"])["this"]) if "where" in a else []
        self.rest = {k: text(v) for k, v in a.items() if k not in ("from", "joins", "where", "with", "into")}


def right(base, seq):
    """the same joins without RIGHT; None if there is no such form"""
    idx = [i for i, x in enumerate(seq) if x[1] == "right"]
    if not idx:
        return base, seq
    i = idx[-1]
    done = right(base, seq[:i])
    if done is None:
        return None
    b, before = done
    t, _, on = seq[i]
    if set().union(*[tables_of(c) for c in on] or [set()]) - {alias_of(t)} != {alias_of(b)}:
        return None
    if any(k != "left" or not any(needs(c, o) for c in cs for o in tables_of(c) - {alias_of(x)}) for x, k, cs in before):
        return None
    if not any(direct(c, alias_of(t)) and alias_of(b) in tables_of(c) or direct(c, alias_of(b)) and alias_of(t) in tables_of(c) for c in on):
        return None
    return t, [(b, "left", on)] + before + seq[i + 1:]


def texts(cs):
    return sorted(text(c) for c in cs)


def compare(src, got):
    """'' or how the rewritten statement differs from the statement written; None: it must be rejected"""
    if any(k == "unsupported" for _, k, _ in src.seq):
        return None
    done = right(src.base, src.seq)
    if done is None:
        return None
    base, seq = done
    for t, k, on in seq:
        if k == "inner" and not any(direct(c, alias_of(t)) for c in on):
            return None
    if got is None:
        return ""
    if text(got.base) != text(base):
        return "the first table is %s" % alias_of(got.base)
    if [text(t) for t, _, _ in got.seq] != [text(t) for t, _, _ in seq]:
        return "the joined tables are %s" % ", ".join(alias_of(t) for t, _, _ in got.seq)
    extra = texts(got.where)
    for c in texts(src.where):
        if c not in extra:
            return "the condition %s is lost" % c
        extra.remove(c)
    known, needed = {alias_of(base)}, []
    for (t, k, on), (_, gk, gon) in zip(seq, got.seq):
        name = alias_of(t)
        if gk != "left":
            return "%s is joined by %s" % (name, gk)
        if k == "comma":
            known.add(name)
            for c in gon:
                if text(c) not in texts(src.where):
                    return "%s is joined on %s" % (name, text(c))
                if not direct(c, name) or not tables_of(c) <= known:
                    return "%s cannot be joined on %s" % (name, text(c))
            continue
        known.add(name)
        if texts(gon) != texts(on):
            return "%s is joined on %s" % (name, " AND ".join(texts(gon)) or "nothing")
        if k == "inner":
            needed.append((name, set().union(*[direct(c, name) for c in on])))
    for name, cols in needed:
        ws = [t for t in extra if any(t == "NOT %s.%s IS NULL" % c for c in cols)]
        if not ws:
            return "rows without a match in %s are kept" % name
        extra = [t for t in extra if t not in ws]
    if extra:
        return "the condition %s is added" % extra[0]
    for k in sorted(set(src.rest) | set(got.rest)):
        if src.rest.get(k) != got.rest.get(k):
            return "%s is %s, written %s" % (k, got.rest.get(k), src.rest.get(k))
    return ""


def check(ctx):
    ctx.rule("same", "the rewritten statement has the tables, conditions and clauses written")
    ctx.rule("rejected", "joins without such a form are rejected")
    w = World(ctx)
    it, s = w.it, w.s
    where = at(ctx, it, "compile_query")
    original = it.models.get(COMPILER + ".compile_select")
    state = {}

    def capture(it, a, k, n):
        if "got" not in state:
            state["got"] = a[1] if len(a) > 1 else k["expression"]
        return a[2] if len(a) > 2 else k["config"]

    def one(name, build, insert=False, may=False):
        def wrap():
            q = build()
            return s.node("Insert", this=s.table("target"), expression=q) if insert else q

        def entry(it):
            state.clear()
            try:
                return decide(it)
            except Raised as e:
                if may and not rejected and e.exc.cls.name in REJECT:
                    return ""
                raise

        def decide(it):
            w.fresh(it)
            it.models[COMPILER + ".compile_select"] = capture
            try:
                w.call(it, "compile_query", wrap(), w.args)
            finally:
                it.models.pop(COMPILER + ".compile_select")
            src, got = Tree(build()), Tree(renamed(state["got"]))
            bad = compare(src, got)
            if bad is None or (bad and any(k not in ("left",) for _, k, _ in got.seq)):
                # no such form: compiling it must fail
                w.fresh(it)
                w.call(it, "compile_query", wrap(), w.args)
                return ("is accepted, as %s" % "; ".join("%s %s" % (k, alias_of(t)) for t, k, _ in got.seq)) if bad is None else bad
            return bad
        rejected = compare(Tree(build()), None) is None
        run(ctx, it, "rejected" if rejected else "same", name + (" as source of INSERT" if insert else ""), entry, where,
            raises=REJECT if rejected else None)

    n, b, col = s.num, s.b, s.col
    T = {"t": lambda: s.table("t", alias="tt"), "u": lambda: s.table("u", alias="uu"), "w": lambda: s.table("w", db="d", alias="ww"),
         "z": lambda: s.table("z", alias="zz"),
         "sub": lambda: s.node("Subquery", this=s.select([col("k"), col("m")], s.table("x"), where=b("GT", col("k"), n(1)), limit=n(2)),
                               alias=s.node("TableAlias", this=s.ident("uu"))),
         "subt": lambda: s.node("Subquery", this=s.select([col("k"), col("m")], s.table("x")), alias=s.node("TableAlias", this=s.ident("tt")))}
    AND = lambda *cs: cs[0] if len(cs) == 1 else b("And", AND(*cs[:-1]), cs[-1])
    OR = lambda x, y: s.paren(b("Or", x, y))
    IN = lambda x, *vs: s.node("In", this=x, expressions=[n(v) for v in vs])

    def ons(x, p):
        """conditions joining table x to p"""
        X, P = (lambda c: col(c, x)), (lambda c: col(c, p))
        return {
            "eq": lambda: b("EQ", X("k"), P("k")), "eq reversed": lambda: b("EQ", P("k"), X("k")),
            "two": lambda: AND(b("EQ", X("k"), P("k")), b("EQ", P("m"), X("m"))),
            "eq and const": lambda: AND(b("EQ", X("k"), P("k")), b("GT", X("v"), n(5))),
            "eq and const of the other": lambda: AND(b("EQ", X("k"), P("k")), b("GT", P("v"), n(5))),
            "eq and or": lambda: AND(b("EQ", X("k"), P("k")), OR(b("GT", X("v"), n(5)), b("EQ", P("v"), n(1)))),
            "eq and in": lambda: AND(b("EQ", P("k"), X("k")), IN(X("v"), 1, 2), b("NEQ", X("m"), s.str("a"))),
            "compare": lambda: b("GT", X("v"), P("v")), "not equal": lambda: b("NEQ", X("v"), P("v")),
            "calculated": lambda: b("EQ", X("k"), b("Add", P("k"), n(1))),
            "function": lambda: b("EQ", X("k"), s.func("coalesce", X("m"), P("k"))),
        }
    hard = lambda x, p: {
        "const": lambda: b("EQ", col("k", x), n(3)), "or": lambda: b("Or", b("EQ", col("k", x), col("k", p)), b("EQ", col("m", x), n(1))),
        "calculated side": lambda: b("EQ", b("Add", col("k", x), n(1)), col("k", p)),
        "other table only": lambda: b("EQ", col("k", p), n(1)),
    }
    tt, uu, ww, zz = (lambda c: col(c, "tt")), (lambda c: col(c, "uu")), (lambda c: col(c, "ww")), (lambda c: col(c, "zz"))
    wheres = {
        "none": lambda: None,
        "eq": lambda: b("EQ", tt("a"), n(1)),
        "and": lambda: AND(b("GT", tt("a"), n(1)), b("LT", uu("v"), n(9)), b("NEQ", tt("b"), uu("m"))),
        "or": lambda: b("Or", b("EQ", tt("a"), n(1)), b("EQ", uu("v"), n(2))),
        "or in and": lambda: AND(b("EQ", tt("k"), uu("k")), OR(b("EQ", tt("a"), n(1)), b("EQ", uu("v"), n(2)))),
        "is null": lambda: s.node("Is", this=uu("v"), expression=s.null()),
        "not": lambda: s.node("Not", this=b("EQ", uu("v"), n(2))),
        "in between like": lambda: AND(IN(uu("k"), 1, 2), s.node("Between", this=uu("v"), low=n(1), high=n(2)), b("Like", tt("a"), s.str("x%"))),
        "later table first": lambda: AND(b("EQ", uu("k"), tt("k")), b("EQ", uu("m"), tt("m"))),
        "reversed": lambda: AND(b("EQ", tt("k"), uu("k")), b("GTE", n(3), uu("v")), b("EQ", uu("m"), b("Add", tt("m"), n(1)))),
    }
    win = lambda: s.node("Window", this=s.func("row_number"), partition_by=[tt("a")], order=s.node("Order", expressions=[s.ordered(uu("v"))]), spec=None, alias=None, over="OVER")
    sels = {
        "plain": lambda **kw: s.select([tt("a"), s.alias(uu("v"), "x")], **kw),
        "clauses": lambda **kw: s.select([tt("a"), s.alias(s.node("Sum", this=uu("v")), "x"), s.alias(s.func("dayofweek", tt("d")), "y")], group=[tt("a")],
                                         having=b("GT", col("x"), n(3)), order=[s.ordered(tt("a"), True), s.ordered(col("x"))], limit=n(7), offset=n(2), **kw),
        "distinct": lambda **kw: s.select([tt("a"), s.node("Interval", this=s.str("1"), unit=s.node("Var", this="day"))], distinct=True, limit=n(4), **kw),
        "window": lambda **kw: s.select([tt("a"), s.alias(win(), "x")], windows=[s.node("Window", this=s.ident("v"), partition_by=[tt("b")], order=None, spec=None, alias=None, over=None)],
                                        qualify=None, **kw),
    }
    J = lambda t, on=None, side=None, kind=None, **kw: s.join(T[t](), on=on() if on else None, side=side, kind=kind, **kw)

    def seqs():
        """name -> (tables of FROM, joins)"""
        e = {}
        O = lambda x, p, k: ons(x, p)[k]
        for k in ons("uu", "tt"):
            e["t inner u (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", k), kind="INNER")])
            e["t right u (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", k), side="RIGHT")])
            e["t inner u inner w on u (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", "eq"), kind="INNER"), J("w", O("ww", "uu", k), kind="INNER")])
            e["t left u inner w on u (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", "eq"), side="LEFT"), J("w", O("ww", "uu", k), kind="INNER")])
            e["t inner u left w (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", "eq"), kind="INNER"), J("w", O("ww", "tt", k), side="LEFT")])
            e["t right u left w (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", O("ww", "tt", k), side="LEFT")])
            if k == "function":
                continue
            e["t left w right u (%s)" % k] = (["t"], lambda k=k: [J("w", O("ww", "tt", "eq"), side="LEFT"), J("u", O("uu", "tt", k), side="RIGHT")])
            e["t right u right w (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", k), side="RIGHT"), J("w", O("ww", "uu", "eq and const"), side="RIGHT")])
            e["t, u left w (%s)" % k] = (["t", "u"], lambda k=k: [J("w", O("ww", "uu", k), side="LEFT")])
            e["t, u inner w (%s)" % k] = (["t", "u"], lambda k=k: [J("w", O("ww", "tt", k), kind="INNER")])
        for k in hard("uu", "tt"):
            e["t inner u (%s)" % k] = (["t"], lambda k=k: [J("u", hard("uu", "tt")[k], kind="INNER")])
            e["t right u (%s)" % k] = (["t"], lambda k=k: [J("u", hard("uu", "tt")[k], side="RIGHT")])
            e["t inner u inner w (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", "eq"), kind="INNER"), J("w", hard("ww", "tt")[k], kind="INNER")])
            e["t right u inner w (%s)" % k] = (["t"], lambda k=k: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", hard("ww", "uu")[k], kind="INNER")])
            e["t left w right u (%s of w)" % k] = (["t"], lambda k=k: [J("w", hard("ww", "tt")[k], side="LEFT"), J("u", O("uu", "tt", "eq"), side="RIGHT")])
        e["t, u"] = (["t", "u"], lambda: [])
        e["t, u, w"] = (["t", "u", "w"], lambda: [])
        e["w, t, u"] = (["w", "t", "u"], lambda: [])
        e["sub t, u"] = (["subt", "u"], lambda: [])
        e["t, sub u"] = (["t", "sub"], lambda: [])
        e["t inner sub u"] = (["t"], lambda: [J("sub", O("uu", "tt", "eq"), kind="INNER")])
        e["t right sub u"] = (["t"], lambda: [J("sub", O("uu", "tt", "eq"), side="RIGHT")])
        e["sub t right u"] = (["subt"], lambda: [J("u", O("uu", "tt", "eq"), side="RIGHT")])
        e["t cross u"] = (["t"], lambda: [J("u", kind="CROSS")])
        e["t cross u on"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), kind="CROSS")])
        e["t right u cross w"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", kind="CROSS")])
        e["t cross w right u"] = (["t"], lambda: [J("w", kind="CROSS"), J("u", O("uu", "tt", "eq"), side="RIGHT")])
        e["t join u inner w"] = (["t"], lambda: [J("u", O("uu", "tt", "eq")), J("w", O("ww", "tt", "eq"), kind="INNER")])
        e["t right u inner w"] = (["t"], lambda: [J("u", O("uu", "tt", "eq and const of the other"), side="RIGHT"), J("w", O("ww", "uu", "eq"), kind="INNER")])
        e["t inner w right u"] = (["t"], lambda: [J("w", O("ww", "tt", "eq"), kind="INNER"), J("u", O("uu", "tt", "eq"), side="RIGHT")])
        e["t right u left w inner z"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", O("ww", "uu", "eq"), side="LEFT"), J("z", O("zz", "ww", "two"), kind="INNER")])
        e["t left w on t right u on w"] = (["t"], lambda: [J("w", O("ww", "tt", "eq"), side="LEFT"), J("u", O("uu", "ww", "eq"), side="RIGHT")])
        e["t left w right u on both"] = (["t"], lambda: [J("w", O("ww", "tt", "eq"), side="LEFT"), J("u", lambda: AND(O("uu", "tt", "eq")(), O("uu", "ww", "eq")()), side="RIGHT")])
        e["t left w right u on both, reversed"] = (["t"], lambda: [J("w", O("ww", "tt", "eq"), side="LEFT"), J("u", lambda: AND(O("uu", "ww", "eq")(), O("uu", "tt", "eq")()), side="RIGHT")])
        e["t right u right w on t"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", O("ww", "tt", "eq"), side="RIGHT")])
        e["t inner u inner w inner z"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), kind="INNER"), J("w", O("ww", "uu", "eq"), kind="INNER"), J("z", O("zz", "ww", "eq and in"), kind="INNER")])
        e["t inner u inner w on both"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), kind="INNER"), J("w", lambda: AND(O("ww", "uu", "eq")(), b("EQ", col("v", "ww"), tt("v"))), kind="INNER")])
        e["t left u using"] = (["t"], lambda: [J("u", side="LEFT", using=[s.ident("k")])])
        e["t inner u using"] = (["t"], lambda: [J("u", kind="INNER", using=[s.ident("k")])])
        e["t right u left w using"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", side="LEFT", using=[s.ident("k")])])
        nat = lambda **kw: s.node("Join", this=T["u"](), natural=True, **kw)
        e["t natural u"] = (["t"], lambda: [nat()])
        e["t natural left u"] = (["t"], lambda: [nat(side="LEFT")])
        e["t full u"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="FULL")])
        e["t left semi u"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="LEFT", kind="SEMI")])
        e["t left anti u"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="LEFT", kind="ANTI")])
        e["t inner u full w"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), kind="INNER"), J("w", O("ww", "tt", "eq"), side="FULL")])
        e["t right u full w"] = (["t"], lambda: [J("u", O("uu", "tt", "eq"), side="RIGHT"), J("w", O("ww", "tt", "eq"), side="FULL")])
        return e

    def query(frm, joins, wh, sel):
        cond = wheres[wh]()
        kw = {"frm": [T[x]() for x in frm], "joins": joins() or None}
        if cond is not None:
            kw["where"] = cond
        return sels[sel](**kw)
    plain = ("t inner u (eq)", "t right u (eq)", "t, u", "t, u, w", "w, t, u", "t, u left w (eq)", "t right u inner w", "t inner u inner w on u (eq)",
             "t right u right w (eq)", "t, sub u", "t left w right u (eq)")
    for name, (frm, joins) in seqs().items():
        whs = list(wheres) if ctx.thorough or name in plain else ["none", "or"]
        for wh in whs:
            for sel in (list(sels) if (name in plain and wh in ("none", "or", "and")) or ctx.thorough else ["plain", "clauses"] if wh == "none" else ["plain"]):
                if name in ("t left u using", "t natural u", "t natural left u", "t full u") and sel != "plain":
                    continue
                one("%s, WHERE %s, %s" % (name, wh, sel), lambda: query(frm, joins, wh, sel),
                    may="calculated side" in name or "other table only" in name)
        if name in plain or ctx.thorough:
            one("%s, WHERE or" % name, lambda: query(frm, joins, "or", "clauses"), insert=True)
    ctx.require("same", 200)
    ctx.require("rejected", 30)
