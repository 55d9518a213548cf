"""C33: UNION.

Unions of two and three queries are compiled abstractly.  Every branch must be the task it is on its own, in the order
written, feeding the one table the union reads; the columns of the union are those of the first branch and the other
branches give their values by position, whatever they call them."""
from .c27 import Nest, feeds, outers, queries, renamed, same, sub, with_, dumped
from .stmt import Plan, at, run
from .sqlnodes import COMPILER

EXPLANATION = __doc__


def positional(d, alone, names):
    """branch d of a union with columns `names` gives the rows of plan `alone` by position; '' or what is wrong"""
    cols, sch = alone.columns(), d.cfg["schema"]
    if not isinstance(sch, dict):
        return "the columns are %r" % (sch,)
    if len(d.deps) == 1 and d.plain() and d.deps[0].io("output")[0] == d.io("input")[0] and d.io("input") != alone.io("input"):
        if {n: sch.get(n) for n in names} != {n: "$." + c for n, c in zip(names, cols)}:
            return "the columns are %r" % (sch,)
        return same(d.deps[0], alone, "the branch") or feeds(d.deps[0], d.io("input")[0])
    if len(names) != len(cols) or not set(names) <= set(sch):
        return "the columns are %s" % list(sch)
    want = {}
    agg = {}
    for part in ("schema", "window_schema"):
        agg.update((d.cfg.get("aggregate") or {}).get(part) or {})
    for x in sch:
        # the branch's own columns may be there as well (its ORDER BY and HAVING use them)
        c = cols[names.index(x)] if x in names else x
        if c not in cols:
            return "column %s is not a column of the branch" % x
        if c != x and c in agg:
            return "the aggregate %s is renamed in place" % c
        want[x] = alone.cfg["schema"][c]
    if d.cfg.get("orders") or d.cfg.get("pipelines") or d.cfg.get("intercept") or d.cfg.get("aggregate"):
        for c in cols:
            if c not in sch or (c in names and cols[names.index(c)] != c):
                return "column %s, which the branch may sort or filter by, is changed" % c
    return same(d, Plan(dict(alone.cfg, schema=want), alone.args), "the branch")


def check(ctx):
    ctx.rule("branches", "every branch is computed once, completely, in order, into the table the union reads")
    ctx.rule("columns", "columns of the first branch, values by position")
    ctx.rule("rejected", "branches with other numbers of columns are rejected")
    k = Nest(ctx)
    it, s = k.it, k.s
    qs = queries(s, ctx.thorough)
    where = at(ctx, it, "compile_union")
    a, b = lambda: s.col("a"), lambda: s.col("b")
    n = s.num
    t = lambda: s.table("t")
    # branches with other column names
    other = {
        "names a b": lambda: s.select([a(), b()], t()),
        "names b a": lambda: s.select([b(), a()], t(), order=[s.ordered(b(), True)]),
        "names c2 c1": lambda: s.select([s.alias(a(), "c2"), s.alias(b(), "c1")], t(), where=s.b("EQ", s.col("k"), n(4))),
        "names c2 x limit": lambda: s.select([s.alias(a(), "c2"), s.alias(b(), "x")], t(), limit=n(4)),
        "names x c1 group": lambda: s.select([s.alias(a(), "x"), s.alias(s.node("Sum", this=b()), "c1")], t(), group=[a()], limit=n(4)),
        "names x y group having": lambda: s.select([s.alias(a(), "x"), s.alias(s.node("Max", this=b()), "y")], t(), group=[a()],
                                                   having=s.b("GT", s.col("y"), n(4)), order=[s.ordered(s.col("y"))]),
        "names x y derived": lambda: s.select([s.alias(s.col("c2", "q"), "x"), s.alias(s.b("Add", s.col("c1", "q"), n(1)), "y")],
                                              sub(s, qs["group limit"](), "q"), limit=n(3)),
        "names c2 y distinct": lambda: s.select([s.alias(a(), "c2"), s.alias(b(), "y")], t(), distinct=True),
        "constants": lambda: s.select([s.alias(n(1), "x"), s.alias(s.str("z"), "c1")]),
    }
    simple = {x: q for x, q in qs.items() if not x.startswith("union") and x != "with union"}
    every = dict(simple, **other)

    def union(*xs):
        u = xs[0]
        for i, x in enumerate(xs[1:]):
            u = s.node("Union", this=u, expression=x, distinct=bool(i % 2))
        return u

    def judge(p, alones):
        if len(p.deps) != len(alones):
            return "%d branches are computed, expected %d" % (len(p.deps), len(alones))
        table = p.io("input")[0]
        names = alones[0].columns()
        if p.cfg["schema"] != {c: "$." + c for c in names} or list(p.cfg["schema"]) != names:
            return "the columns of the union are %r" % (p.cfg["schema"],)
        if not p.plain():
            return "the rows of the union are changed: %s" % dumped({x: p.cfg.get(x) for x in ("querys", "predicate", "intercept", "pipelines", "aggregate")})
        for d, x in zip(p.deps, alones):
            bad = feeds(d, table) or positional(d, x, names)
            if bad:
                return bad
        tables = [table]
        def walk(x):
            for y in x.deps:
                tables.append(y.io("output")[0])
                walk(y)
        for d in p.deps:
            walk(d)
        if len(set(tables)) != len(tables):
            return "a branch is computed into a table used elsewhere: %s" % tables
        return ""

    def pair(x, y):
        def entry(it):
            alones = [k.compile(it, every[x]()), k.compile(it, every[y]())]
            return judge(k.compile(it, union(every[x](), every[y]())), alones)
        run(ctx, it, "columns" if y in other else "branches", "(%s) UNION (%s)" % (x, y), entry, where)

    for x in every:
        pair("limit", x)
        pair(x, "where limit")
        if x != "names c2 c1":
            pair(x, "names c2 c1")
    if ctx.thorough:
        for x in every:
            for y in every:
                pair(x, y)

    for xs in (("limit", "names b a", "names x c1 group"), ("names c2 x limit", "where limit", "limit offset"),
               ("group limit", "order limit", "names a b"), ("constants", "names x y derived", "no table"),
               ("no table", "constants", "derived"), ("join", "names x y group having", "limit", "names c2 y distinct")):
        def entry(it):
            alones = [k.compile(it, every[x]()) for x in xs]
            return judge(k.compile(it, union(*[every[x]() for x in xs])), alones)
        run(ctx, it, "branches", " UNION ".join("(%s)" % x for x in xs), entry, where)

        def right(it):
            alones = [k.compile(it, every[x]()) for x in xs]
            u = every[xs[-1]]()
            for x in xs[-2::-1]:
                u = s.node("Union", this=every[x](), expression=u, distinct=False)
            return judge(k.compile(it, u), alones)
        run(ctx, it, "branches", " UNION (".join("(%s)" % x for x in xs) + ")" * (len(xs) - 2), right, where)

    star = lambda tb: s.select([s.node("Star")], s.table(tb), limit=n(3))
    def stars(it):
        alones = [k.compile(it, star("t")), k.compile(it, star("u"))]
        p = k.compile(it, union(star("t"), star("u")))
        if p.cfg["schema"] != "$.*" or not p.plain() or len(p.deps) != 2:
            return "columns are %r" % (p.cfg["schema"],)
        for d, x in zip(p.deps, alones):
            bad = feeds(d, p.io("input")[0]) or same(d, x, "the branch")
            if bad:
                return bad
        return ""
    run(ctx, it, "branches", "SELECT * UNION SELECT *", stars, where)

    one = lambda: s.select([a()], t())
    three = lambda: s.select([a(), b(), s.col("k")], t())
    for name, xs in (("1 and 2", (one, every["limit"])), ("2 and 1", (every["limit"], one)), ("2 and 3", (every["limit"], three)),
                     ("2, 2 and 3", (every["limit"], every["names a b"], three)), ("3 and 2 of a group", (three, every["group limit"]))):
        def entry(it):
            k.compile(it, union(*[x() for x in xs]))
            return ""
        run(ctx, it, "rejected", "branches of %s columns" % name, entry, where, raises=("SyncanySqlCompileException",))
    ctx.require("branches", 45)
    ctx.require("columns", 35)
    ctx.require("rejected", 5)
