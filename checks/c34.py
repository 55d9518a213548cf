"""C34: every written select column is an output column with its own value.

SELECT statements are compiled abstractly for lists of select items over several FROM clauses.  The output columns must be
exactly the written ones, in order and under their names, and the form of each must be the one it has when it is selected
alone (whatever stands beside it); `*` must give all columns of a derived table, in order, or all fields of the row, or be
rejected."""
import itertools

from .c26 import REJECT
from .c27 import Nest, sub, with_
from .stmt import at, dump, run, text

EXPLANATION = __doc__


def check(ctx):
    ctx.rule("columns", "the output columns are the written ones, in order, under their names")
    ctx.rule("value", "a column's value is its expression, whatever other columns are selected")
    ctx.rule("star", "* gives all columns of its table in order")
    ctx.rule("reject", "a list whose columns cannot all be given is rejected")
    k = Nest(ctx)
    it, s = k.it, k.s
    where = at(ctx, it, "compile_select")
    n, b = s.num, s.b

    def on(x, y):
        return b("EQ", s.col("k", y), s.col("k", x))

    def frames():
        yield "-", None, None, (), lambda: {}
        yield "t", None, None, (), lambda: dict(frm=s.table("t"))
        yield "t tt", "tt", None, (), lambda: dict(frm=s.table("t", alias="tt"))
        yield "t tt, u uu", "tt", "uu", (), lambda: dict(frm=s.table("t", alias="tt"), joins=[s.join(s.table("u", alias="uu"), on=on("tt", "uu"), side="LEFT")])
        yield "t tt, u uu, w ww", "tt", "uu", ("ww",), lambda: dict(frm=s.table("t", alias="tt"), joins=[
            s.join(s.table("u", alias="uu"), on=on("tt", "uu"), side="LEFT"), s.join(s.table("w", alias="ww"), on=on("uu", "ww"), side="LEFT")])
        yield "t tt, (q) uu", "tt", "uu", (), lambda: dict(frm=s.table("t", alias="tt"), joins=[
            s.join(sub(s, s.select([s.col(x) for x in "abk"], s.table("u")), "uu"), on=on("tt", "uu"), side="LEFT")])
        yield "(q) tt", "tt", None, (), lambda: dict(frm=sub(s, s.select([s.col(x) for x in "abck"], s.table("t")), "tt"))
        yield "cte", "tt", None, (), lambda: dict(frm=s.table("cc", alias="tt"), **{"with": with_(s, [("cc", s.select([s.col(x) for x in "abck"], s.table("t")))])})

    for fname, t, u, more, frm in frames():
        items = {
            "1": lambda: n(1), "'x'": lambda: s.str("x"), "null": s.null, "-2": lambda: s.node("Neg", this=n(2)),
            "1+2": lambda: b("Add", n(1), n(2)), "now()": lambda: s.func("now"),
        }
        if fname != "-":
            c = lambda x, t=t: (lambda: s.col(x, t))
            items.update({
                "a": c("a"), "b": c("b"), "bare c": lambda: s.col("c"), "a+b": lambda: b("Add", c("a")(), c("b")()),
                "upper(a)": lambda: s.func("upper", c("a")()), "case": lambda: s.node("Case", ifs=[s.node("If", this=b("GT", c("a")(), n(1)), true=c("b")())], default=n(0)),
                "case value": lambda: s.node("Case", this=c("a")(), ifs=[s.node("If", this=n(1), true=c("b")())], default=n(0)),
                "a>1 and b": lambda: b("And", b("GT", c("a")(), n(1)), c("b")()), "in": lambda: s.node("In", this=c("a")(), expressions=[n(1), n(2)]),
                "a is null": lambda: b("Is", c("a")(), s.null()), "(a)": lambda: s.paren(c("a")()), "-a": lambda: s.node("Neg", this=c("a")()),
            })
        for v in ([u] if u else []) + list(more):
            items.update({
                v + ".a": lambda v=v: s.col("a", v), v + ".b": lambda v=v: s.col("b", v), v + ".b+a": lambda v=v: b("Add", s.col("b", v), s.col("a", t)),
                "upper(%s.a)" % v: lambda v=v: s.func("upper", s.col("a", v)),
            })
        if more:
            items["uu.b+ww.a"] = lambda: b("Add", s.col("b", u), s.col("a", more[0]))
        alone = {}

        def form(it, build, name):
            key = (name, text(build()))
            if key not in alone:
                p = k.compile(it, s.select([s.alias(build(), "only")], **frm()))
                alone[key] = p.cfg["schema"]["only"]
            return alone[key]

        def one(name, cols):
            """cols: (alias or None, item, name it must have)"""
            def entry(it):
                p = k.compile(it, s.select([s.alias(x(), al) if al else x() for al, x, _ in cols], **frm()))
                names = [w for _, _, w in cols]
                if p.columns() != names:
                    return "the output columns are %s, written %s" % (p.columns(), names)
                for _, x, w in cols:
                    got, want = p.cfg["schema"][w], form(it, x, name)
                    if dump(got) != dump(want):
                        return "%s is %s, alone it is %s" % (w, dump(got), dump(want))
                return ""
            run(ctx, it, "columns", name, entry, where)

        keys = list(items)
        for x in keys:
            # alone, and under its own name
            one("%s AS x FROM %s" % (x, fname), [("x", items[x], "x")])
            node = items[x]()
            own = own_name(node)
            # (a) needs an alias; a lone function without columns processes the whole derived table
            if x != "(a)" and not (x == "now()" and fname == "(q) tt"):
                one("%s FROM %s" % (x, fname), [(None, items[x], own)])
        for i, (x, y) in enumerate(itertools.permutations(keys, 2)):
            if not ctx.thorough and i % (7 if fname not in ("t tt, u uu", "t") else 2):
                continue
            if i % 2 and y != "(a)":
                one("%s, %s FROM %s" % (x, y, fname), [("p", items[x], "p"), (None, items[y], own_name(items[y]()))])
            else:
                one("%s, %s FROM %s" % (x, y, fname), [("p", items[x], "p"), ("q", items[y], "q")])
        trip = list(itertools.permutations(keys, 3))
        for x, y, z in trip[::len(trip) // (1500 if ctx.thorough else 60) + 1]:
            one("%s, %s, %s FROM %s" % (x, y, z, fname), [("p", items[x], "p"), ("q", items[y], "q"), ("r", items[z], "r")])
        one("%d columns FROM %s" % (len(keys), fname), [("x%d" % i, items[x], "x%d" % i) for i, x in enumerate(keys)])
        if fname == "-":
            continue
        # aliases that are names of other columns
        for x in keys:
            one("%s AS a, a AS b FROM %s" % (x, fname), [("a", items[x], "a"), ("b", c("a"), "b")])
            one("b AS a, %s AS z FROM %s" % (x, fname), [("a", c("b"), "a"), ("z", items[x], "z")])
        # the same column of two tables
        for v in ([u] if u else []) + list(more):
            one("a, %s.a FROM %s" % (v, fname), [(None, c("a"), "a"), (None, items[v + ".a"], v + ".a")])
            one("%s.a, a FROM %s" % (v, fname), [(None, items[v + ".a"], "a"), (None, c("a"), t + ".a")])
            one("%s.a, %s.b, b FROM %s" % (v, v, fname), [(None, items[v + ".a"], "a"), (None, items[v + ".b"], "b"), (None, c("b"), t + ".b")])

    stars(ctx, k, where)
    ctx.require("columns", 1000)
    ctx.require("star", 8)
    ctx.require("reject", 8)


def own_name(node):
    """name of an item without alias: the column's name, else its text"""
    if node.name != "Column":
        return text(node)
    arg = lambda x, name: [v for kk, v in x.attrs["args"].d.values() if kk.v == name][0]
    return arg(arg(node, "this"), "this").v


def stars(ctx, k, where):
    it, s = k.it, k.s
    b, n = s.b, s.num
    star = lambda: s.node("Star")
    tstar = lambda t: s.node("Column", this=s.node("Star"), table=s.ident(t))
    q = lambda cols="abck": s.select([s.col(x) for x in cols], s.table("t"))
    on = lambda: b("EQ", s.col("j", "uu"), s.col("k", "tt"))
    derived = lambda: dict(frm=sub(s, q(), "tt"))
    joined = lambda: dict(frm=sub(s, q(), "tt"), joins=[s.join(sub(s, s.select([s.col(x) for x in "jva"], s.table("u")), "uu"), on=on(), side="LEFT")])
    half = lambda: dict(frm=s.table("t", alias="tt"), joins=[s.join(sub(s, s.select([s.col(x) for x in "jva"], s.table("u")), "uu"), on=on(), side="LEFT")])

    def one(name, exprs, frm, want):
        """want: [(name, builder of the item)]"""
        def entry(it):
            p = k.compile(it, s.select([x() for x in exprs], **frm()))
            if p.columns() != [w for w, _ in want]:
                return "the output columns are %s, expected %s" % (p.columns(), [w for w, _ in want])
            for w, x in want:
                alone = k.compile(it, s.select([s.alias(x(), "only")], **frm())).cfg["schema"]["only"]
                if dump(p.cfg["schema"][w]) != dump(alone):
                    return "%s is %s, alone it is %s" % (w, dump(p.cfg["schema"][w]), dump(alone))
            return ""
        run(ctx, it, "star", name, entry, where)
    tt = lambda x: (lambda: s.col(x, "tt"))
    uu = lambda x: (lambda: s.col(x, "uu"))
    allt = [(x, tt(x)) for x in "abck"]
    one("* FROM (q) tt", [star], derived, allt)
    one("tt.* FROM (q) tt", [lambda: tstar("tt")], derived, allt)
    one("*, a+1 FROM (q) tt", [star, lambda: s.alias(b("Add", s.col("a"), n(1)), "x")], derived, allt + [("x", lambda: b("Add", s.col("a"), n(1)))])
    one("a+1, * FROM (q) tt", [lambda: s.alias(b("Add", s.col("a"), n(1)), "x"), star], derived, [("x", lambda: b("Add", s.col("a"), n(1)))] + allt)
    one("c AS x, tt.*, 1 FROM (q) tt", [lambda: s.alias(s.col("c"), "x"), lambda: tstar("tt"), lambda: s.alias(n(1), "y")], derived,
        [("x", tt("c"))] + allt + [("y", lambda: n(1))])
    one("tt.*, uu.v FROM (q) tt, (q) uu", [lambda: tstar("tt"), lambda: s.col("v", "uu")], joined, allt + [("v", uu("v"))])
    one("uu.* FROM (q) tt, (q) uu", [lambda: tstar("uu")], joined, [(x, uu(x)) for x in "jva"])
    one("tt.*, uu.* FROM (q) tt, (q) uu", [lambda: tstar("tt"), lambda: tstar("uu")], joined, allt + [("j", uu("j")), ("v", uu("v"))])
    one("uu.*, tt.* FROM (q) tt, (q) uu", [lambda: tstar("uu"), lambda: tstar("tt")], joined, [(x, uu(x)) for x in "jva"] + [(x, tt(x)) for x in "bck"])
    one("a, uu.* FROM t tt, (q) uu", [lambda: s.col("b", "tt"), lambda: tstar("uu")], half, [("b", tt("b"))] + [(x, uu(x)) for x in "jva"])
    cte = lambda: dict(frm=s.table("cc"), **{"with": with_(s, [("cc", s.select([s.alias(s.col("a"), "x"), s.col("b")], s.table("t")))])})

    def whole(name, exprs, frm):
        def entry(it):
            p = k.compile(it, s.select([x() for x in exprs], **frm()))
            return "" if p.cfg["schema"] == "$.*" else "the output columns are %s" % dump(p.cfg["schema"])
        run(ctx, it, "star", name, entry, where)
    whole("* FROM t", [star], lambda: dict(frm=s.table("t")))
    whole("* FROM t tt WHERE", [star], lambda: dict(frm=s.table("t", alias="tt"), where=b("EQ", s.col("a"), n(1))))
    whole("* FROM cte", [star], cte)
    whole("* FROM (SELECT * FROM t) tt", [star], lambda: dict(frm=sub(s, s.select([star()], s.table("t")), "tt")))

    def rejected(name, exprs, frm):
        def entry(it):
            p = k.compile(it, s.select([x() for x in exprs], **frm()))
            return "columns %s" % dump(p.cfg["schema"])
        run(ctx, it, "reject", name, entry, where, raises=REJECT)
    t = lambda: dict(frm=s.table("t"))
    ta = lambda: dict(frm=s.table("t", alias="tt"))
    others = {"a": lambda: s.col("a"), "1": lambda: s.alias(n(1), "x"), "a+1": lambda: s.alias(b("Add", s.col("a"), n(1)), "x"), "upper(a)": lambda: s.func("upper", s.col("a")),
              "sum(a)": lambda: s.alias(s.node("Sum", this=s.col("a")), "x"), "sum(a)+1": lambda: s.alias(b("Add", s.node("Sum", this=s.col("a")), n(1)), "x"),
              "row_number()": lambda: s.alias(s.node("Window", this=s.node("RowNumber"), alias=None, over="OVER", spec=None,
                                                     order=s.node("Order", expressions=[s.ordered(s.col("a"), False)])), "x")}
    for oname, o in others.items():
        rejected("*, %s FROM t" % oname, [star, o], t)
        rejected("%s, * FROM t" % oname, [o, star], t)
    rejected("tt.* FROM t tt", [lambda: tstar("tt")], ta)
    rejected("zz.* FROM (q) tt", [lambda: tstar("zz")], derived)
    rejected("zz.a FROM t tt", [lambda: s.col("a", "zz")], ta)
    rejected("zz.a + 1 FROM t tt", [lambda: s.alias(b("Add", s.col("a", "zz"), n(1)), "x")], ta)
    rejected("upper(zz.a) FROM (q) tt, (q) uu", [lambda: s.alias(s.func("upper", s.col("a", "zz")), "x")], joined)
