"""C27: a query means the same wherever it stands.

Every query of a list covering the clauses is compiled abstractly on its own and nested: as a derived table (FROM and
JOIN), as a common table expression (also used twice, joined, inside another query), as the source of an INSERT, as a
scalar subquery.  The task of the nested query must be the task compiled on its own (arguments such as a pushed LIMIT
included), feed exactly the table the surrounding query reads, and the surrounding query must be the one it would be over
an ordinary table.  Common table expressions are named apart from all other tables."""
from sa.interp import C, key_of
from .sqlnodes import COMPILER
from .stmt import Plan, World, at, diff, run
from .forms import freeze

EXPLANATION = __doc__


def queries(s, thorough):
    """name -> (builder, output column names); every query has the columns c1, c2"""
    a, b, k = (lambda t=None: s.col("a", t)), (lambda t=None: s.col("b", t)), (lambda t=None: s.col("k", t))
    c = lambda x, n: s.alias(x, n)
    two = lambda t=None: [c(a(t), "c1"), c(b(t), "c2")]
    n = s.num
    desc = lambda x: s.ordered(x, True)
    asc = lambda x: s.ordered(x)
    agg = lambda: [c(a(), "c1"), c(s.node("Sum", this=b()), "c2")]
    win = lambda: s.node("Window", this=s.func("row_number"), partition_by=[a()], order=s.node("Order", expressions=[asc(b())]), spec=None, alias=None, over="OVER")
    t = lambda: s.table("t")
    q = {
        "columns": lambda: s.select(two(), t()),
        "no table": lambda: s.select([c(n(1), "c1"), c(s.str("x"), "c2")]),
        "expressions": lambda: s.select([c(s.b("Add", a(), n(1)), "c1"), c(s.func("concat", a(), b()), "c2")], t()),
        "where": lambda: s.select(two(), t(), where=s.b("EQ", k(), n(3))),
        "where expression": lambda: s.select(two(), t(), where=s.b("Or", s.b("EQ", k(), n(3)), s.b("GT", a(), b()))),
        "order": lambda: s.select(two(), t(), order=[desc(a()), asc(b())]),
        "order by output": lambda: s.select([c(s.b("Add", a(), n(1)), "c1"), c(b(), "c2")], t(), order=[desc(s.col("c1"))]),
        "limit": lambda: s.select(two(), t(), limit=n(7)),
        "limit offset": lambda: s.select(two(), t(), limit=n(7), offset=n(2)),
        "where limit": lambda: s.select(two(), t(), where=s.b("GT", a(), b()), limit=n(7), offset=n(2)),
        "order limit": lambda: s.select(two(), t(), order=[desc(a())], limit=n(7)),
        "group": lambda: s.select(agg(), t(), group=[a()]),
        "having": lambda: s.select(agg(), t(), group=[a()], having=s.b("GT", s.col("c2"), n(4))),
        "group limit": lambda: s.select(agg(), t(), group=[a()], order=[desc(s.col("c2"))], limit=n(4)),
        "distinct": lambda: s.select(two(), t(), distinct=True),
        "window": lambda: s.select([c(a(), "c1"), c(win(), "c2")], t()),
        "join": lambda: s.select([c(a("tt"), "c1"), c(s.col("v", "uu"), "c2")], s.table("t", alias="tt"),
                                 joins=[s.join(s.table("u", alias="uu"), on=s.b("EQ", k("uu"), k("tt")), side="LEFT")], limit=n(3)),
        "derived": lambda: s.select(two(), s.node("Subquery", this=s.select([a(), b()], t(), limit=n(5)),
                                                   alias=s.node("TableAlias", this=s.ident("z"))), limit=n(3)),
        "file": lambda: s.select(two(), s.table("d/c.csv"), limit=n(3)),
        "union": lambda: s.node("Union", this=s.select(two(), t(), limit=n(2)), expression=s.select([a(), b()], s.table("u"), limit=n(3)), distinct=False),
        "with": lambda: s.select(two(), s.table("w"), limit=n(3), **{"with": with_(s, [("w", s.select([a(), b()], t(), limit=n(2)))])}),
    }
    if thorough:
        q.update({
            "offset": lambda: s.select(two(), t(), offset=n(2)),
            "join where": lambda: s.select([c(a("tt"), "c1"), c(s.b("Add", s.col("v", "uu"), a("tt")), "c2")], s.table("t", alias="tt"),
                                           joins=[s.join(s.table("u", alias="uu"), on=s.b("EQ", k("uu"), k("tt")), side="LEFT")],
                                           where=s.b("EQ", s.col("v", "uu"), n(3)), order=[desc(a("tt"))]),
            "join derived": lambda: s.select([c(a("tt"), "c1"), c(s.col("v", "uu"), "c2")], s.table("t", alias="tt"),
                                             joins=[s.join(s.node("Subquery", this=s.select([s.col("k"), s.col("v")], s.table("u"), limit=n(9)),
                                                                  alias=s.node("TableAlias", this=s.ident("uu"))),
                                                           on=s.b("EQ", k("uu"), k("tt")), side="LEFT")]),
            "count": lambda: s.select([c(s.node("Count", this=s.node("Star")), "c1"), c(s.node("Max", this=a()), "c2")], t()),
            "group distinct": lambda: s.select(agg(), t(), group=[a()], distinct=True),
            "union 3": lambda: s.node("Union", this=s.node("Union", this=s.select(two(), t(), limit=n(2)), expression=s.select([b(), a()], s.table("u"), order=[desc(a())]), distinct=False),
                                      expression=s.select(agg(), t(), group=[a()], limit=n(3)), distinct=False),
            "with union": lambda: s.node("Union", this=s.select(two(), s.table("w"), limit=n(2)), expression=s.select([a(), b()], s.table("w")), distinct=False,
                                         **{"with": with_(s, [("w", s.select([a(), b()], t(), where=s.b("GT", a(), b()), limit=n(2)))])}),
            "derived derived": lambda: s.select(two(), sub(s, s.select([a(), b()], sub(s, s.select([a(), b()], t(), limit=n(5)), "y"), offset=n(1), limit=n(4)), "z"), limit=n(3)),
        })
    return q


def with_(s, tables, recursive=False):
    return s.node("With", recursive=recursive, expressions=[
        s.node("CTE", this=q, alias=s.node("TableAlias", this=s.ident(name), **({"columns": [s.ident(x) for x in cols[0]]} if cols else {})))
        for name, q, *cols in tables])


def sub(s, q, name, cols=None):
    kw = {"columns": [s.ident(x) for x in cols]} if cols else {}
    return s.node("Subquery", this=q, alias=s.node("TableAlias", this=s.ident(name), **kw))


def outers(s):
    """surrounding queries over a table expression with columns c1, c2"""
    c1, c2 = (lambda t="q": s.col("c1", t)), (lambda t="q": s.col("c2", t))
    n = s.num
    return {
        "columns": lambda f: s.select([c1(), c2()], f),
        "limit": lambda f: s.select([s.alias(c2(), "x")], f, where=s.b("EQ", c1(), n(5)), limit=n(4), offset=n(1)),
        "pushed limit": lambda f: s.select([c1()], f, limit=n(4), order=[s.ordered(c1(), True)]),
        "group": lambda f: s.select([c1(), s.alias(s.node("Sum", this=c2()), "x")], f, group=[c1()]),
    }


class Nest:
    def __init__(self, ctx):
        self.w = World(ctx)
        self.it, self.s = self.w.it, self.w.s
        self.base = {"@batch": 500, "@timeout": 9}

    def compile(self, it, node, base=True):
        self.w.fresh(it)
        if base:
            for k, v in self.base.items():
                self.w.args.d[key_of(C(k))] = (C(k), C(v))
        cfg = self.w.call(it, "compile_query", node, self.w.args)
        return Plan(freeze(cfg), freeze(self.w.args))


def same(got, want, what, **kw):
    g, w = got.canon(**kw), want.canon(**kw)
    return "" if g == w else "%s differs: %s" % (what, diff(g, w))


def feeds(dep, table):
    t, key, mode = dep.io("output")
    if t != table:
        return "the query is written to %s, read from %s" % (t, table)
    if mode != "I":
        return "the rows of the query are merged (use %s)" % mode
    return ""


def replaced(p, old, new):
    """plan of a surrounding query with the table it reads called `new`"""
    cfg = dict(p.cfg)
    cfg["dependencys"] = []

    def rec(x):
        if isinstance(x, str):
            return x.replace(old + "::", new + "::")
        if isinstance(x, dict):
            return {rec(k) if isinstance(k, str) else k: rec(v) for k, v in x.items()}
        if isinstance(x, list):
            return [rec(y) for y in x]
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    return Plan(rec(cfg), p.args)


def check(ctx):
    ctx.rule("inner", "a nested query is the task it is on its own")
    ctx.rule("outer", "the surrounding query is the one over a table, and reads exactly the rows of the nested query")
    ctx.rule("scope", "a common table expression is visible in its statement only, and shadows tables only there")
    ctx.rule("columns", "the column list of a derived table names its columns by position")
    k = Nest(ctx)
    it, s = k.it, k.s
    qs = queries(s, ctx.thorough)
    os_ = outers(s)
    w_sub, w_with = at(ctx, it, "compile_subquery"), at(ctx, it, "compile_with")
    w_ins = at(ctx, it, "compile_insert_into")
    plain = lambda name: s.table("plain_table", alias=name)

    def nested(p, alone, table, count=1):
        """exactly `count` dependencies, one of them the nested query feeding `table`"""
        if len(p.deps) != count:
            return "%d queries are computed before, expected %d" % (len(p.deps), count)
        d = [d for d in p.deps if d.io("output")[0] == table]
        if len(d) != 1:
            return "%d queries write the table %s that is read" % (len(d), table)
        return same(d[0], alone, "the nested query") or feeds(d[0], table)

    for qn, q in qs.items():
        # derived table
        def entry(it, on="columns"):
            alone = k.compile(it, q())
            p = k.compile(it, os_[on](sub(s, q(), "q")))
            return nested(p, alone, p.io("input")[0])
        run(ctx, it, "inner", "FROM (%s) q" % qn, entry, w_sub)

        def entry(it):
            alone = k.compile(it, q())
            p = k.compile(it, s.select([s.col("k", "tt"), s.col("c2", "q")], s.table("t", alias="tt"),
                                       joins=[s.join(sub(s, q(), "q"), on=s.b("EQ", s.col("c1", "q"), s.col("k", "tt")), side="LEFT")]))
            o = k.compile(it, s.select([s.col("k", "tt"), s.col("c2", "q")], s.table("t", alias="tt"),
                                       joins=[s.join(plain("q"), on=s.b("EQ", s.col("c1", "q"), s.col("k", "tt")), side="LEFT")]))
            if len(p.deps) != 1:
                return "%d queries are computed before" % len(p.deps)
            table = p.deps[0].io("output")[0]
            return same(p.deps[0], alone, "the nested query") or feeds(p.deps[0], table) \
                or same(replaced(p, table, "&.--.plain_table"), o, "the surrounding query")
        run(ctx, it, "inner", "JOIN (%s) q" % qn, entry, w_sub)

        # common table expression
        def entry(it):
            alone = k.compile(it, q())
            p = k.compile(it, s.select([s.col("c1", "q"), s.col("c2", "q")], s.table("w0", alias="q"), **{"with": with_(s, [("w0", q())])}))
            return nested(p, alone, p.io("input")[0])
        run(ctx, it, "inner", "WITH w0 AS (%s) SELECT FROM w0" % qn, entry, w_with)

        # source of an INSERT
        def entry(it):
            alone = k.compile(it, q())
            p = k.compile(it, s.node("Insert", this=s.table("target"), expression=q()))
            if p.io("output") != ("&.--.target", alone.io("output")[1], "I"):
                return "output is %s" % p.cfg["output"]
            return same(p, alone, "the inserted query")
        run(ctx, it, "inner", "INSERT INTO target %s" % qn, entry, w_ins)

        # scalar subquery
        def entry(it):
            alone = k.compile(it, q())
            p = k.compile(it, s.select([s.col("k"), s.alias(s.node("Subquery", this=q()), "x")], s.table("t"), order=[s.ordered(s.col("k"))], limit=s.num(99)))
            if len(p.deps) != 1:
                return "%d queries are computed before" % len(p.deps)
            table = p.deps[0].io("output")[0]
            x = p.cfg["schema"].get("x")
            if not (isinstance(x, list) and len(x) == 2 and str(x[0]).split("::")[0] == table and x[1] == ":$.c1"):
                return "the value is %r, the query writes %s" % (x, table)
            o = k.compile(it, s.select([s.col("k")], s.table("t"), order=[s.ordered(s.col("k"))], limit=s.num(99)))
            cfg = dict(p.cfg, dependencys=[], schema={"k": p.cfg["schema"]["k"]})
            return same(p.deps[0], alone, "the nested query") or feeds(p.deps[0], table) or same(Plan(cfg, p.args), o, "the surrounding query")
        run(ctx, it, "inner", "SELECT (%s)" % qn, entry, w_sub)

        for on, o in os_.items():
            def entry(it):
                want = k.compile(it, o(plain("q")))
                alone = k.compile(it, q())
                p = k.compile(it, o(sub(s, q(), "q")))
                bad = nested(p, alone, p.io("input")[0])
                if bad:
                    return bad
                return same(replaced(p, p.io("input")[0], "&.--.plain_table"), want, "the surrounding query")
            run(ctx, it, "outer", "%s FROM (%s) q" % (on, qn), entry, w_sub)

    def plans(it):
        return k.compile(it, qs["where"]()), k.compile(it, qs["group limit"]())

    def two(it):
        a1, a2 = plans(it)
        p = k.compile(it, s.select([s.col("c1", "q"), s.col("c2", "r")], s.table("w0", alias="q"),
                                   joins=[s.join(s.table("w1", alias="r"), on=s.b("EQ", s.col("c1", "r"), s.col("c1", "q")), side="LEFT")],
                                   **{"with": with_(s, [("w0", qs["where"]()), ("w1", qs["group limit"]())])}))
        bad = nested(p, a1, p.io("input")[0], 2)
        if bad:
            return bad
        other = [d for d in p.deps if d.io("output")[0] != p.io("input")[0]]
        if not other:
            return "both expressions are computed into one table"
        t2 = other[0].io("output")[0]
        if t2 + "::" not in dumped(p.cfg["schema"]):
            return "the joined expression is not the one read"
        return same(other[0], a2, "the second expression")

    def chain(it):
        a1, a2 = plans(it)
        inner = lambda: s.select([s.col("c1"), s.col("c2")], s.table("w0"), limit=s.num(6))
        p = k.compile(it, s.select([s.col("c1")], s.table("w1"), **{"with": with_(s, [("w0", qs["where"]()), ("w1", inner())])}))
        if [d.io("output")[0] for d in p.deps[1:]] != [p.io("input")[0]]:
            return "expressions are not computed in order"
        if p.deps[1].io("input")[0] != p.deps[0].io("output")[0]:
            return "the second expression reads %s" % p.deps[1].io("input")[0]
        if p.deps[1].own().get("@limit") != 6:
            return "LIMIT of the second expression is lost"
        return same(p.deps[0], a1, "the first expression")

    def shadow(it):
        # inside a nested query the inner expression of the same name hides the outer one
        p = k.compile(it, s.select([s.col("c1", "q"), s.col("a", "o")], sub(s, s.select([s.col("c1")], s.table("w0"), **{"with": with_(s, [("w0", qs["group"]())])}), "q"),
                                   joins=[s.join(s.table("w0", alias="o"), on=s.b("EQ", s.col("a", "o"), s.col("c1", "q")), side="LEFT")],
                                   **{"with": with_(s, [("w0", s.select([s.col("a")], s.table("t")))])}))
        if len(p.deps) != 2 or len(p.deps[1].deps) != 1:
            return "expected the outer expression and the derived table over the inner one"
        outer, derived = p.deps[0], p.deps[1]
        if derived.io("input")[0] != derived.deps[0].io("output")[0]:
            return "the derived table reads %s" % derived.io("input")[0]
        if outer.io("output")[0] == derived.deps[0].io("output")[0]:
            return "both expressions named w0 are computed into one table"
        if outer.io("output")[0] + "::" not in dumped(p.cfg["schema"]):
            return "the join does not read the outer expression"
        return ""

    def base(it):
        p = k.compile(it, s.select([s.col("c1")], s.table("t"), **{"with": with_(s, [("t", s.select([s.alias(s.col("a"), "c1")], s.table("t")))])}))
        if p.deps[0].io("input")[0] != "&.--.t":
            return "WITH t AS (SELECT ... FROM t) reads %s" % p.deps[0].io("input")[0]
        if p.deps[0].io("output")[0] == "&.--.t":
            return "the expression is written into the table t"
        return "" if p.io("input")[0] == p.deps[0].io("output")[0] else "reads %s" % p.io("input")[0]

    def apart(it):
        # the table of an expression is not a table of another statement, or of the session
        p = k.compile(it, s.select([s.col("c1")], s.table("w0"), **{"with": with_(s, [("w0", qs["where"]())])}))
        k.w.fresh(it)
        k.w.uuids = 50
        p2 = Plan(freeze(k.w.call(it, "compile_query", s.select([s.col("c1")], s.table("w0"), **{"with": with_(s, [("w0", qs["where"]())])}), k.w.args)), freeze(k.w.args))
        t1, t2 = p.deps[0].io("output")[0], p2.deps[0].io("output")[0]
        if t1 == t2:
            return "the expression is computed into %s in every statement" % t1
        if "&.--.w0" in (t1, t2):
            return "the expression is written into the table w0"
        return ""

    def aliases(it):
        # derived tables of one alias are different tables
        a1, a2 = plans(it)
        d = lambda q, cols: s.select([s.alias(s.col(c), c) for c in cols], sub(s, q, "q"))
        u = s.node("Union", this=d(qs["where"](), ["c1"]), expression=d(qs["group limit"](), ["c1"]), distinct=False)
        p = k.compile(it, s.select([s.col("c1")], sub(s, u, "q")))
        tables = []
        def walk(x):
            for y in x.deps:
                tables.append((y.io("output")[0], y))
                walk(y)
        walk(p)
        leaves = [t for t, y in tables if not y.deps]
        if len(leaves) != 2 or len(set(leaves)) != 2:
            return "the two derived tables q are computed into %s" % leaves
        branches = [y for t, y in tables if y.deps and y.deps[0].io("output")[0] in leaves]
        for y, a in zip(branches, (a1, a2)):
            bad = nested(y, a, y.io("input")[0])
            if bad:
                return bad
        outer = [t for t, y in tables if y.deps]
        if set(outer) & set(leaves):
            return "a derived table is computed into the table of another one"
        k.w.fresh(it)
        k.w.uuids = 50
        p2 = freeze(k.w.call(it, "compile_query", d(qs["where"](), ["c1"]), k.w.args))
        k.w.fresh(it)
        p1 = freeze(k.w.call(it, "compile_query", d(qs["where"](), ["c1"]), k.w.args))
        if p1["dependencys"][0]["output"] == p2["dependencys"][0]["output"]:
            return "a derived table q is computed into %s in every statement" % p1["dependencys"][0]["output"]
        return ""

    def target(it):
        p = k.compile(it, s.node("Insert", this=s.table("w0"), expression=s.select([s.col("c1")], s.table("w0")),
                                 **{"with": with_(s, [("w0", qs["where"]())])}))
        if p.io("output")[0] != "&.--.w0":
            return "the rows are inserted into %s" % p.io("output")[0]
        return "" if p.io("input")[0] == p.deps[0].io("output")[0] else "reads %s" % p.io("input")[0]

    def restored(it):
        # the expression ends with its query: the second branch reads the table
        one = lambda: s.select([s.col("c1")], s.table("w0"), **{"with": with_(s, [("w0", qs["where"]())])})
        p = k.compile(it, s.select([s.col("c1", "q"), s.col("c1", "o")], sub(s, one(), "q"),
                                   joins=[s.join(s.table("w0", alias="o"), on=s.b("EQ", s.col("a", "o"), s.col("c1", "q")), side="LEFT")]))
        return "" if "&.--.w0::" in dumped(p.cfg["schema"]) else "the table w0 of the outer query is not read"

    def database(it):
        p = k.compile(it, s.select([s.col("c1")], s.table("w0", db="d"), **{"with": with_(s, [("w0", qs["where"]())])}))
        return "" if p.io("input")[0] == "&.d.w0" else "d.w0 reads %s" % p.io("input")[0]

    def prefix(it):
        union = s.node("Union", this=s.select([s.col("c1")], s.table("w01")), expression=s.select([s.alias(s.num(1), "c1")]), distinct=False)
        p = k.compile(it, s.select([s.col("c1")], s.table("w0"), **{"with": with_(s, [("w0", union)], True)}))
        d = p.deps[0]
        if d.deps[0].io("input")[0] != "&.--.w01":
            return "the first branch reads %s" % d.deps[0].io("input")[0]
        return "" if "@@loop" not in dumped(list(p.args)) and "@loop" not in dumped([x.args for x in d.deps]) else "is run as a recursion"

    def recursive(it):
        rec = s.node("Union", this=s.select([s.alias(s.num(1), "c1")]),
                     expression=s.select([s.alias(s.b("Add", s.col("c1"), s.num(1)), "c1")], s.table("w0"), where=s.b("LT", s.col("c1"), s.num(9))), distinct=False)
        p = k.compile(it, s.select([s.col("c1")], s.table("w0"), **{"with": with_(s, [("w0", rec)], True)}))
        d = p.deps[0]
        if d.io("output")[0] != p.io("input")[0]:
            return "reads %s" % p.io("input")[0]
        rb = d.deps[1]
        if not rb.args.get("@loop"):
            return "the recursive branch does not run as a loop"
        return "" if rb.io("input")[0] == rb.io("output")[0] == d.io("input")[0] else "the recursive branch reads %s and writes %s" % (rb.io("input")[0], rb.io("output")[0])
    for name, f in (("two expressions", two), ("an expression over another", chain), ("an expression hides an outer one", shadow),
                    ("an expression over the table of its name", base), ("an expression in two statements", apart), ("derived tables of one alias", aliases),
                    ("INSERT into a table named like an expression", target), ("an expression ends with its query", restored),
                    ("a table of a database", database), ("a table whose name starts with the expression's", prefix),
                    ("recursion", recursive)):
        run(ctx, it, "scope", name, f, w_with)

    # column lists
    for qn in ("columns", "order limit", "group limit", "limit offset", "no table", "distinct", "union"):
        for names in (["x1", "x2"], ["c2", "c1"]):
            for how in ("derived", "with"):
                def entry(it):
                    alone = k.compile(it, qs[qn]())
                    sel = [s.col(x) for x in names[::-1]]
                    if how == "derived":
                        p = k.compile(it, s.select(sel, sub(s, qs[qn](), "q", names)))
                    else:
                        p = k.compile(it, s.select(sel, s.table("w0"), **{"with": with_(s, [("w0", qs[qn](), names)])}))
                    if len(p.deps) != 1 or p.deps[0].io("output")[0] != p.io("input")[0]:
                        return "the query does not feed the table that is read"
                    if p.cfg["schema"] != {x: "$." + x for x in names}:
                        return "the columns are %r" % (p.cfg["schema"],)
                    return renamed(p.deps[0], alone, names)
                run(ctx, it, "columns", "%s %s (%s)" % (how, qn, ", ".join(names)), entry, w_with if how == "with" else w_sub)

    def mismatch(it):
        k.compile(it, s.select([s.col("x1")], sub(s, qs["where"](), "q", ["x1"])))
        return ""

    def mismatch_with(it):
        k.compile(it, s.select([s.col("x1")], s.table("w0"), **{"with": with_(s, [("w0", qs["where"](), ["x1", "x2", "x3"])])}))
        return ""
    run(ctx, it, "columns", "more columns than names", mismatch, w_sub, raises=("SyncanySqlCompileException",))
    run(ctx, it, "columns", "more names than columns", mismatch_with, w_with, raises=("SyncanySqlCompileException",))
    ctx.require("inner", 90)
    ctx.require("outer", 70)
    ctx.require("scope", 10)
    ctx.require("columns", 25)


def renamed(d, alone, names):
    """plan d gives the columns of plan `alone` by position under `names`"""
    cols = alone.columns()
    sch = d.cfg["schema"]
    if isinstance(sch, dict) and len(d.deps) == 1 and d.plain() and d.deps[0].io("output")[0] == d.io("input")[0]:
        if sch == {n: "$." + c for n, c in zip(names, cols)} and list(sch) == list(names):
            return same(d.deps[0], alone, "the query") or feeds(d.deps[0], d.io("input")[0])
    if isinstance(sch, dict) and list(sch)[:0] == [] and set(names) <= set(sch):
        # renamed in place: every name holds what the query's column holds
        for n, c in zip(names, cols):
            if sch[n] != alone.cfg["schema"][c]:
                return "column %s is not %s of the query" % (n, c)
        if list(sch) != list(names):
            return "the columns are %s" % list(sch)
        cfg = dict(d.cfg, schema=alone.cfg["schema"])
        return same(Plan(cfg, d.args), alone, "the query")
    return "the columns are %r" % (sch,)


def dumped(x):
    from .stmt import dump
    return dump(x)
