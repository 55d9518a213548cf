"""C26: ORDER BY, LIMIT and OFFSET.

SELECT statements over select lists x ORDER BY items x LIMIT/OFFSET x row-changing clauses are compiled abstractly.  In the
task the effective sort (the sort of the result if there is one, else the read order) must be exactly the items written, each
the output column or table column it names; the rows cut must be offset .. offset+limit of the sorted rows; a limit is only
handed to the loader when the rows loaded are the rows of the result, in order.  The parser's LIMIT offset,count is run on
abstract tokens."""
from sa.interp import C, Inst, ListV, NONE, Raised
from .c10 import renamed
from .c27 import Nest, sub
from .sqlnodes import COMPILER
from .stmt import at, run, text

EXPLANATION = __doc__
REJECT = ("SyncanySqlCompileException",)


class Out:
    """output column: name, where its values come from (('t', column), ('u', column) or ('expr', text)), its node"""

    def __init__(self, name, source, build, aliased=True):
        self.name, self.source, self.build, self.aliased = name, source, build, aliased


def pipelines(p):
    """(sort keys or None, slices) in the order they run; or a text saying what is wrong"""
    sort, cut = None, None
    for x in p.cfg.get("pipelines") or []:
        if not isinstance(x, list) or len(x) < 2 or x[1] != "$.*|array":
            return "unknown pipeline %r" % (x,)
        if x[0] == ">>@sort":
            if sort is not None or cut is not None:
                return "the rows are sorted after they are cut" if cut is not None else "the rows are sorted twice"
            if len(x) != 4 or x[2] is not False:
                return "unknown sort %r" % (x,)
            sort = [(k, False) if isinstance(k, str) else (k[0], bool(k[1])) for k in x[3]]
        elif x[0] == ">>@array::slice":
            if cut is not None:
                return "the rows are cut twice"
            cut = (x[2], x[3] if len(x) > 3 else None)
        else:
            return "unknown pipeline %r" % (x,)
    return sort, cut


def judge(p, outs, items, limit, offset, star=False):
    """'' or what is wrong; items: list of (meaning, descending)"""
    r = pipelines(p)
    if isinstance(r, str):
        return r
    sort, cut = r
    orders = [(x, False) if isinstance(x, str) else (x[0], bool(x[1])) for x in p.cfg.get("orders") or []]
    by = {o.name: o for o in outs}

    def matches(key, meaning, of_rows):
        """does sorting by `key` (an output column, or a column of the table read) mean `meaning`?"""
        if of_rows:
            src = ("t", key)
        elif key in by:
            src = by[key].source
            if "." in key:
                return False   # the engine takes such a name apart
        else:
            return False
        if meaning[0] == "out":
            return (not of_rows and key == meaning[1]) or (src[0] == "t" and by[meaning[1]].source == src)
        return src == meaning[1:]
    keys = sort if sort is not None else orders
    if len(keys) != len(items):
        return "sorted by %s, written %d items" % (", ".join(map(str, keys)) or "nothing", len(items))
    for (key, d), (meaning, desc) in zip(keys, items):
        if not matches(key, meaning, sort is None):
            return "sorted by %s%s where %s is meant" % ("the table's " if sort is None else "output column ", key, meaning)
        if d != desc:
            return "%s is sorted %s" % (key, "descending" if d else "ascending")
    pushed = p.args.get("@limit") or 0
    if pushed:
        agg = p.cfg.get("aggregate") or {}
        changing = [n for n in ("predicate", "intercept") if p.cfg.get(n)] + [n for n in ("schema", "window_schema", "distinct_keys") if agg.get(n)]
        if sort is not None:
            changing.append("sort of the result")
        if p.joined:
            changing.append("joins")
        if p.yields:
            changing.append("rows per row")
        if changing:
            return "only %s rows are loaded before %s" % (pushed, ", ".join(changing))
    # rows offset .. offset+limit of all rows
    lo, hi = cut if cut is not None else (0, None)
    if pushed:
        hi = pushed if hi is None else min(hi, pushed)
    want = (offset or 0, None if limit is None else (offset or 0) + limit)
    if limit == 0:
        return "" if hi is not None and hi <= lo else "rows %s to %s are given, LIMIT 0" % (lo, hi)
    if (lo, hi) != want:
        return "rows %s to %s are given, written %s to %s" % (lo, hi, want[0], want[1])
    return ""


def check(ctx):
    ctx.rule("order", "the effective sort is the ORDER BY written")
    ctx.rule("rows", "the rows given are offset to offset+limit of the sorted result")
    ctx.rule("parse", "LIMIT offset,count gives that offset and that count")
    k = Nest(ctx)
    it, s = k.it, k.s
    where = at(ctx, it, "compile_order")
    where_limit = at(ctx, it, "compile_select")
    n, b = s.num, s.b

    def column(name, tab, alias=None, of="t"):
        node = lambda: s.col(name, tab)
        return Out(alias or name, (of, name), (lambda: s.alias(node(), alias)) if alias else node, bool(alias))

    def expr(build, alias=None):
        return Out(alias or text(build()), ("expr", text(build()).lower()), (lambda: s.alias(build(), alias)) if alias else build, bool(alias))
    win = lambda tab: s.node("Window", this=s.func("row_number"), partition_by=[s.col("a", tab)],
                             order=s.node("Order", expressions=[s.ordered(s.col("b", tab))]), spec=None, alias=None, over="OVER")

    def lists(tab, joined):
        """select lists"""
        c = lambda name, alias=None: column(name, tab, alias)
        add = lambda: b("Add", s.col("a", tab), n(1))
        call = lambda: s.func("concat", s.col("a", tab), s.col("b", tab))
        out = {
            "columns": [c("a"), c("b")],
            "aliases": [c("a", "x"), c("b", "y")],
            "crossed aliases": [c("a", "b"), c("b", "a")],
            "alias hides": [expr(add, "a"), c("b")],
            "calculated": [expr(add, "x"), c("b", "y"), expr(call, "z")],
            "unnamed": [expr(call), c("b")],
        }
        if joined:
            j = lambda name, alias=None: column(name, "uu", alias, "u")
            out.update({
                "joined": [c("a"), j("v")],
                "joined aliases": [c("a", "x"), j("v", "y")],
                "joined hides": [c("v"), j("v", "y")],
                "joined crossed": [c("a", "v"), j("v", "a")],
                "joined calculated": [c("a"), expr(lambda: b("Add", s.col("v", "uu"), s.col("a", tab)), "x"), j("v")],
            })
        return out

    frames = {
        "t": (None, lambda: dict(frm=s.table("t")), False),
        "t tt": ("tt", lambda: dict(frm=s.table("t", alias="tt")), False),
        "t tt, u uu": ("tt", lambda: dict(frm=s.table("t", alias="tt"), joins=[s.join(s.table("u", alias="uu"), on=b("EQ", s.col("k", "uu"), s.col("k", "tt")), side="LEFT")]), True),
        "(q) tt": ("tt", lambda: dict(frm=sub(s, s.select([s.col("a"), s.col("b"), s.col("c")], s.table("t")), "tt")), False),
        "(q) tt, (r) uu": ("tt", lambda: dict(frm=sub(s, s.select([s.col("a"), s.col("b"), s.col("k"), s.col("v")], s.table("t")), "tt"),
                                              joins=[s.join(sub(s, s.select([s.col("k"), s.col("v")], s.table("u")), "uu"),
                                                            on=b("EQ", s.col("k", "uu"), s.col("k", "tt")), side="LEFT")]), True),
    }

    def items_of(tab, joined, outs):
        """ORDER BY items: name -> (node, meaning, must be accepted alone)"""
        names = {o.name: o for o in outs}

        def unq(x):
            if x in names:
                return ("out", x), "." not in x
            return ("col", "t", x), False
        e = {}
        for x in ("a", "b", "x", "y", "v", "z", "k"):
            m, must = unq(x)
            if m[0] == "col" and (x in "xyz" or joined and x == "v"):
                continue   # unknown or ambiguous
            e[x] = (lambda x=x: s.col(x), m, must)
        for x in ("a", "b", "k"):
            if tab:
                e["%s.%s" % (tab, x)] = (lambda x=x: s.col(x, tab), ("col", "t", x), True)
        if joined:
            e["uu.v"] = (lambda: s.col("v", "uu"), ("col", "u", "v"), False)
            e["tt.v"] = (lambda: s.col("v", "tt"), ("col", "t", "v"), True)
            e["uu.k"] = (lambda: s.col("k", "uu"), ("col", "u", "k"), False)
        add = lambda: b("Add", s.col("a", tab), n(1))
        call = lambda: s.func("concat", s.col("a", tab), s.col("b", tab))
        for nm, build in (("a + 1", add), ("concat(a, b)", call)):
            e[nm] = (build, ("col", "expr", text(build()).lower()), False)
        return e

    def compile(q, joined, yields=False):
        p = k.compile(it, q)
        p.joined, p.yields = joined, yields
        return p

    def one(rule, name, build, outs, items, limit, offset, joined, must, where, yields=False):
        def entry(it):
            try:
                p = compile(build(), joined, yields)
            except Raised as e:
                if not must and e.exc.cls.name in REJECT:
                    return ""
                raise
            return judge(p, outs, items, limit, offset)
        run(ctx, it, rule, name, entry, where)

    cuts = {"": (None, None), " LIMIT 5": (5, None), " LIMIT 5 OFFSET 2": (5, 2), " LIMIT 0": (0, None), " OFFSET 3": (None, 3),
            " LIMIT 5 OFFSET 0": (5, 0), " LIMIT 0 OFFSET 2": (0, 2)}
    cut_args = lambda c: dict(([("limit", n(c[0]))] if c[0] is not None else []) + ([("offset", n(c[1]))] if c[1] is not None else []))
    # every item alone and with a second, every select list
    for fname, (tab, frm, joined) in frames.items():
        for lname, outs in lists(tab, joined).items():
            its = items_of(tab, joined, outs)
            pairs = [(x,) for x in its] + [(x, y) for x in its for y in its if x != y and (ctx.thorough or (list(its).index(x) + list(its).index(y)) % 3 == 0)]
            for i, xs in enumerate(pairs):
                desc = [(i + j) % 2 == 0 for j in range(len(xs))]
                items = [(its[x][1], d) for x, d in zip(xs, desc)]
                cname = (" LIMIT 5 OFFSET 2", "", " LIMIT 5")[i % 3]
                build = lambda: s.select([o.build() for o in outs], order=[s.ordered(its[x][0](), d) for x, d in zip(xs, desc)],
                                         **dict(frm(), **cut_args(cuts[cname])))
                must = len(xs) == 1 and its[xs[0]][2] or all(its[x][1][0] == "out" and its[x][2] for x in xs)
                if joined and len(xs) == 1 and its[xs[0]][1][1] == "u":
                    must = any(o.source == its[xs[0]][1][1:] for o in outs) and False
                one("order", "SELECT %s FROM %s ORDER BY %s%s" % (lname, fname, ", ".join("%s %s" % (x, "DESC" if d else "ASC") for x, d in zip(xs, desc)), cname),
                    build, outs, items, cuts[cname][0], cuts[cname][1], joined, must, where)
    # SELECT *
    for xs in (("a",), ("a", "b"), ("tt.a", "b"), ("tt.a",)):
        for joined in (False, True):
            fname = "t tt, u uu" if joined else "t tt"
            order = lambda: [s.ordered(s.col(x[3:], "tt") if x.startswith("tt.") else s.col(x), j == 0) for j, x in enumerate(xs)]
            items = [(("col", "t", x.split(".")[-1]), j == 0) for j, x in enumerate(xs)]
            if joined and not all(x.startswith("tt.") for x in xs):
                continue
            one("order", "SELECT * FROM %s ORDER BY %s LIMIT 5" % (fname, ", ".join(xs)),
                lambda: s.select([s.node("Star")], order=order(), limit=n(5), **frames[fname][1]()), [], items, 5, None, joined, True, where)
    def star_joined(it):
        try:
            p = compile(s.select([s.node("Star")], order=[s.ordered(s.col("v", "uu"))], **frames["t tt, u uu"][1]()), True)
        except Raised as e:
            if e.exc.cls.name in REJECT:
                return ""
            raise
        return judge(p, [], [(("col", "u", "v"), False)], None, None)
    run(ctx, it, "order", "SELECT * FROM t tt, u uu ORDER BY uu.v", star_joined, where)

    # clauses that change the rows
    def agg_lists(tab):
        a = lambda: s.col("a", tab)
        return [column("a", tab, "x"), Out("m", ("expr", "sum"), lambda: s.alias(s.node("Sum", this=s.col("b", tab)), "m"))]
    plain = lambda tab: [column("a", tab, "x"), column("b", tab, "y")]
    clauses = {
        "plain": (plain, lambda tab: {}),
        "where pushed": (plain, lambda tab: dict(where=b("EQ", s.col("k", tab), n(3)))),
        "where": (plain, lambda tab: dict(where=b("Or", b("EQ", s.col("k", tab), n(3)), b("EQ", s.col("a", tab), n(1))))),
        "where calculated": (plain, lambda tab: dict(where=b("And", b("EQ", s.col("k", tab), n(3)), b("GT", b("Add", s.col("a", tab), n(1)), n(3))))),
        "having": (plain, lambda tab: dict(having=b("GT", s.col("y"), n(3)))),
        "distinct": (plain, lambda tab: dict(distinct=True)),
        "group": (agg_lists, lambda tab: dict(group=[s.col("a", tab)])),
        "group no aggregate": (lambda tab: [column("a", tab, "x"), column("a", tab, "y")], lambda tab: dict(group=[s.col("a", tab)])),
        "group having": (agg_lists, lambda tab: dict(group=[s.col("a", tab)], having=b("GT", s.col("m"), n(3)))),
        "group distinct": (agg_lists, lambda tab: dict(group=[s.col("a", tab)], distinct=True)),
        "aggregate": (lambda tab: [Out("x", ("expr", "count"), lambda: s.alias(s.node("Count", this=s.node("Star")), "x")),
                                   Out("y", ("expr", "sum"), lambda: s.alias(b("Add", s.node("Sum", this=s.col("b", tab)), n(1)), "y"))], lambda tab: {}),
        "window": (lambda tab: [column("a", tab, "x"), Out("y", ("expr", "window"), lambda: s.alias(win(tab), "y"))], lambda tab: {}),
        "window calculated": (lambda tab: [column("a", tab, "x"), Out("y", ("expr", "window"), lambda: s.alias(b("Add", win(tab), n(1)), "y"))], lambda tab: {}),
        "rows per row": (lambda tab: [column("a", tab, "x"), Out("y", ("expr", "yield"), lambda: s.alias(s.func("yield_array", s.col("b", tab)), "y"))], lambda tab: {}),
    }
    for fname, (tab, frm, joined) in frames.items():
        for cl, (outs_of, kw) in clauses.items():
            outs = outs_of(tab)
            for cname, c in cuts.items():
                if not ctx.thorough and fname.startswith("(") and cname not in ("", " LIMIT 5", " LIMIT 5 OFFSET 2"):
                    continue
                for oname in ("none", "x", outs[1].name):
                    # x is the column a of the table, which groups are made by
                    items = [] if oname == "none" else [(("out", oname), True)]
                    order = {} if oname == "none" else {"order": [s.ordered(s.col(oname), True)]}
                    build = lambda: s.select([o.build() for o in outs], **dict(frm(), **dict(kw(tab), **order, **cut_args(c))))
                    one("rows", "%s FROM %s ORDER BY %s%s" % (cl, fname, oname, cname), build, outs, items, c[0], c[1], joined, True,
                        where_limit, yields=cl == "rows per row")
    parser(ctx, k)
    ctx.require("order", 300)
    ctx.require("rows", 150)
    ctx.require("parse", 4)


def parser(ctx, k):
    it, s = k.it, k.s
    P = "syncanysql.compiler.CompilerDialect.Parser"
    cls = it.get(P)
    where = "syncanysql/compiler.py:%d" % cls.node.lineno

    it.inline_lib = tuple(it.inline_lib) + ("sqlglot.parser", "sqlglot.helper.seq_get")
    LIB = "sqlglot.parser.Parser"
    kinds = ("LIMIT", "NUMBER", "COMMA", "OFFSET", "R_PAREN", "SEMICOLON")
    tt = it.get("sqlglot.tokens.TokenType")

    def token(x):
        kind, _, txt = x.partition(" ")
        return Inst(None, {"token_type": it.getattr(tt, kind), "text": C(txt or kind.lower()), "comments": ListV([])}, name=x)

    def literal(it, a, kw, node):
        """a number (or parameter) where an expression is parsed"""
        self = a[0]
        cur = it.getattr(self, "_curr")
        it.call(it.getattr(self, "_advance"), [], {})
        return s.node("Literal", this=it.getattr(cur, "text"), is_string=False)

    def parse(it, *ts):
        for f in ("_parse_term", "_parse_number", "_parse_unary", "_parse_primary", "_parse_conjunction"):
            it.models[LIB + "." + f] = literal
        it.models[LIB + ".validate_expression"] = lambda it, a, kw, node: NONE
        toks = ListV([token(x) for x in ts])
        p = Inst(cls, {"_tokens": toks, "_index": C(0), "_curr": toks.items[0], "_next": toks.items[1], "_prev": NONE,
                       "_prev_comments": NONE, "errors": ListV([])}, name="parser")
        lim = it.call(it.getattr(p, "_parse_limit"), [], {})
        off = it.call(it.getattr(p, "_parse_offset"), [], {})
        val = lambda x: None if x is NONE or x is None or (isinstance(x, C) and x.v is None) else text(renamed(x).attrs["args"].d[[q for q in x.attrs["args"].d if x.attrs["args"].d[q][0].v == "expression"][0]][1]) \
            if isinstance(x, Inst) and "args" in x.attrs else repr(x)
        return val(lim), val(off), it.getattr(p, "_index").v

    def one(name, ts, want):
        def entry(it):
            got = parse(it, *ts)
            return "" if got == want else "gives LIMIT %s OFFSET %s up to token %s" % got
        run(ctx, it, "parse", name, entry, where)
    for tail in ([], ["R_PAREN"], ["SEMICOLON"]):
        x = " ".join(t.lower() for t in tail)
        one("LIMIT 5,7 " + x, ["LIMIT", "NUMBER 5", "COMMA", "NUMBER 7"] + tail, ("7", "5", 4))
        one("LIMIT 5 " + x, ["LIMIT", "NUMBER 5"] + tail, ("5", None, 2))
        one("LIMIT 5 OFFSET 7 " + x, ["LIMIT", "NUMBER 5", "OFFSET", "NUMBER 7"] + tail, ("5", "7", 4))
        one("OFFSET 7 " + x, ["OFFSET", "NUMBER 7"] + tail, (None, "7", 2))
