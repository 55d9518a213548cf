"""C13: INSERT.

INSERT statements are compiled abstractly.  VALUES: the rows handed to the writer are the tuples written, by position, with
their values and in their order; nothing is filtered or converted that the statement does not declare.  INSERT ... SELECT:
the task is the one of the SELECT, writing to the named table; with a column list its values go to the listed columns by
position.  The merge mode is the one of the table's options (any case) or of @use_output_type, the plain insert otherwise,
and merging uses a column of the rows."""
from sa.interp import C, key_of
from .c27 import Nest, feeds, queries, same, with_
from .c33 import positional
from .forms import freeze
from .stmt import Plan, at, run
from .sqlnodes import COMPILER

EXPLANATION = __doc__
REJECT = ("SyncanySqlCompileException",)


def values(s):
    """name -> (builder, python value)"""
    return {
        "int": (lambda: s.num(41), 41), "zero": (lambda: s.num(0), 0), "neg": (lambda: s.node("Neg", this=s.num(7)), -7),
        "dec": (lambda: s.num("2.5"), 2.5), "str": (lambda: s.str("x y"), "x y"), "empty": (lambda: s.str(""), ""),
        "unicode": (lambda: s.str("a\u00e9 b"), "a\u00e9 b"), "escape": (lambda: s.str("a\\tb"), "a\tb"), "cjk": (lambda: s.str("\u4e2d"), "\u4e2d"),
        "digits": (lambda: s.str("007"), "007"), "null": (lambda: s.null(), None), "true": (lambda: s.true(), True),
        "false": (lambda: s.node("Boolean", this=False), False),
    }


def check(ctx):
    ctx.rule("values", "VALUES gives the tuples written, by position, in order, unconverted")
    ctx.rule("select", "INSERT ... SELECT is the task of the SELECT writing to the table; listed columns by position")
    ctx.rule("mode", "the merge mode of the table and a key the rows have")
    ctx.rule("rejected", "tuples of other lengths, row-dependent values and missing column lists are rejected")
    k = Nest(ctx)
    it, s, w = k.it, k.s, k.w
    vals = values(s)
    where = at(ctx, it, "compile_insert_into")

    def insert(cols, rows, table="target", db=None):
        t = s.table(table, db=db)
        if cols is not None:
            t = s.node("Schema", this=t, expressions=[s.ident(c) for c in cols])
        return s.node("Insert", this=t, expression=s.node("Values", expressions=[s.node("Tuple", expressions=[x if not isinstance(x, str) else vals[x][0]() for x in r]) for r in rows]))

    def kind(v):
        return type(v).__name__

    def typed(x, v):
        """the value a column expression with filter gives, None if unknown"""
        return x

    def rows_of(p, cols, rows):
        names = [c.split("[")[0] for c in cols]
        declared = [c[c.index("[") + 1:-1].split(";")[0] if "[" in c else None for c in cols]
        data = p.cfg.get("loader_arguments", {}).get("datas")
        if p.cfg.get("loader") != "const_loader" or not isinstance(data, list):
            return "rows come from %r" % (p.cfg.get("loader"),)
        for key in ("querys", "predicate", "intercept", "orders", "pipelines", "aggregate", "dependencys"):
            if p.cfg.get(key):
                return "rows are changed by %s" % key
        if p.args.get("@limit"):
            return "only %s rows are inserted" % p.args["@limit"]
        if len(data) != len(rows):
            return "%d rows of %d" % (len(data), len(rows))
        for d, r in zip(data, rows):
            if not isinstance(d, dict) or sorted(d) != sorted(names):
                return "row %r for columns %s" % (d, names)
            for n, x in zip(names, r):
                if d[n] != vals[x][1] or type(d[n]) is not type(vals[x][1]):
                    return "%s = %r, expected %r" % (n, d[n], vals[x][1])
        sch = p.cfg.get("schema")
        if sch == "$.*" and not any(declared):
            return ""
        if not isinstance(sch, dict) or list(sch) != names:
            return "columns %r" % (sch,)
        for i, n in enumerate(names):
            f = sch[n]
            if not isinstance(f, str) or f.split("|")[0] != "$." + n:
                return "column %s is %r" % (n, f)
            filt = f.split("|")[1] if "|" in f else None
            kinds = {kind(vals[r[i]][1]) for r in rows}
            if declared[i] is not None:
                if filt != declared[i]:
                    return "column %s declared %s is converted by %s" % (n, declared[i], filt)
            elif filt is not None and kinds != {filt}:
                return "values of %s (%s) are converted to %s" % (n, ", ".join(sorted(kinds)), filt)
        return ""

    def one(cols, rows, **kw):
        def entry(it):
            w.mapping = {c.replace("[", "_").replace("]", "").replace(";", "_"): c for c in cols if "[" in c}
            keys = [c.replace("[", "_").replace("]", "").replace(";", "_") for c in cols]
            try:
                p = k.compile(it, insert(keys, rows, **kw))
            finally:
                w.mapping = {}
            return rows_of(p, cols, rows)
        run(ctx, it, "values", "(%s) VALUES %s" % (", ".join(cols), ", ".join("(%s)" % ", ".join(r) for r in rows)), entry, where)

    names = list(vals)
    for v in names:
        one(["a"], [[v]])
        for v2 in names:
            one(["a"], [[v], [v2]])
            one(["a", "b"], [[v, v2], [v2, v]])
    for i in range(len(names)):
        r = names[i:] + names[:i]
        one(["b", "a", "c"], [r[:3], r[3:6], r[6:9]])
        one(["a[int]", "b[str]"], [r[:2], r[2:4]])
        one(["a", "b[float]"], [r[:2], r[2:4], r[4:6]])
        if ctx.thorough:
            one(["x%d" % j for j in range(6)], [r[j:j + 6] if j + 6 <= len(r) else r[:6] for j in range(5)])
    if ctx.thorough:
        for v in names:
            for v2 in names:
                for v3 in names:
                    one(["a"], [[v], [v2], [v3]])

    # modes
    def moded(name, mode, cols, table_opts, use=None, select=False):
        def entry(it):
            w.mapping = {"target_1": "target<%s>" % table_opts} if table_opts is not None else {}
            t = "target_1" if table_opts is not None else "target"
            try:
                w.fresh(it)
                if use is not None:
                    w.args.d[key_of(C("@use_output_type"))] = (C("@use_output_type"), C(use))
                if select == "listed":
                    node = s.node("Insert", this=s.node("Schema", this=s.table(t), expressions=[s.ident(c) for c in cols]),
                                  expression=s.select([s.alias(s.col("a"), "y%d" % i) for i in range(len(cols))], s.table("src")))
                else:
                    q = lambda: s.select([s.alias(s.col("a"), c) for c in cols], s.table("src"))
                    node = s.node("Insert", this=s.table(t), expression=s.node("Union", this=q(), expression=q(), distinct=False) if select == "union" else q()) if select \
                    else insert(cols, [["int"] * len(cols), ["neg"] * len(cols)], t)
                p = Plan(freeze(w.call(it, "compile_query", node, w.args)), freeze(w.args))
            finally:
                w.mapping = {}
            table, key, got = p.io("output")
            if table != "&.--.target":
                return "rows are written to %s" % table
            if got != mode:
                return "mode is %s" % got
            if mode != "I" and not set(key.split("+")) <= set(cols):
                return "rows are merged by %s, which they have not" % key
            return ""
        run(ctx, it, "mode", name, entry, where)

    for cols in (["id", "v"], ["k", "v"], ["v", "id"]):
        for select in (False, True, "listed", "union"):
            how = {"listed": "(%s) SELECT", "union": "SELECT %s UNION ALL SELECT", True: "SELECT %s", False: "VALUES %s"}[select] % ",".join(cols)
            moded("no option, %s" % how, "I", cols, None, None, select)
            for m in ("I", "U", "UI", "UDI", "DI"):
                moded("<%s>, %s" % (m, how), m, cols, m, None, select)
                moded("<%s>, %s" % (m.lower(), how), m, cols, m.lower(), None, select)
                moded("<other,%s>, %s" % (m, how), m, cols, "other," + m, None, select)
            moded("<other>, %s" % how, "I", cols, "other", None, select)
            for u, m in (("INSERT", "I"), ("UPDATE", "U"), ("UPDATE_INSERT", "UI"), ("UPDATE_DELETE_INSERT", "UDI"), ("DELETE_INSERT", "DI"), ("update_insert", "UI"), ("UI", "UI"), ("di", "DI")):
                moded("@use_output_type=%s, %s" % (u, how), m, cols, None, u, select)
            moded("<U> with @use_output_type=DI, %s" % how, "U", cols, "U", "DI", select)

    def dest(it):
        for table, db, want in (("target", None, "&.--.target"), ("target", "d", "&.d.target"), ("_", None, "&.-.&1")):
            for node in (insert(["id"], [["int"]], table, db), s.node("Insert", this=s.table(table, db=db), expression=s.select([s.col("a")], s.table("t")))):
                p = k.compile(it, node)
                if p.io("output")[0] != want or p.io("output")[2] != "I":
                    return "INSERT INTO %s writes to %s" % (table, p.cfg["output"])
        return ""
    run(ctx, it, "mode", "the named table", dest, where)

    # INSERT ... SELECT
    qs = queries(s, ctx.thorough)
    n = s.num
    star = lambda: s.select([s.node("Star")], s.table("t"), where=s.b("EQ", s.col("k"), n(1)), limit=n(4))
    more = dict(qs, star=star)
    for qn, q in more.items():
        def entry(it):
            alone = k.compile(it, q())
            p = k.compile(it, s.node("Insert", this=s.table("target"), expression=q()))
            if p.io("output") != ("&.--.target", alone.io("output")[1], "I"):
                return "output is %s" % p.cfg["output"]
            return same(p, alone, "the inserted query")
        run(ctx, it, "select", "INSERT INTO target %s" % qn, entry, where)
        if qn == "star":
            continue
        for cols in (["c1", "c2"], ["x", "y"], ["c2", "c1"], ["x[int]", "c2"]):
            def entry(it):
                alone = k.compile(it, q())
                w.mapping = {"x_int": "x[int]"}
                try:
                    p = k.compile(it, s.node("Insert", this=s.node("Schema", this=s.table("target"), expressions=[s.ident(c.replace("[", "_").replace("]", "")) for c in cols]), expression=q()))
                finally:
                    w.mapping = {}
                if p.io("output")[0] != "&.--.target" or p.io("output")[2] != "I":
                    return "output is %s" % p.cfg["output"]
                plain = [c.split("[")[0] for c in cols]
                if list(p.cfg["schema"]) != plain:
                    return "columns written are %r" % (p.cfg["schema"],)
                if not set(p.io("output")[1].split("+")) <= set(plain):
                    return "rows would be merged by %s, which they have not" % p.io("output")[1]
                if cols == ["c1", "c2"]:
                    bad = same(p, alone, "the inserted query")
                    if not bad:
                        return ""
                if len(p.deps) != 1 or not p.plain() or p.deps[0].io("output")[0] != p.io("input")[0]:
                    return "the columns are not taken from the query by position"
                want = {c.split("[")[0]: "$." + x + ("|int" if "[" in c else "") for c, x in zip(cols, alone.columns())}
                if p.cfg["schema"] != want:
                    return "columns written are %r" % (p.cfg["schema"],)
                return same(p.deps[0], alone, "the inserted query") or feeds(p.deps[0], p.io("input")[0])
            run(ctx, it, "select", "INSERT INTO target (%s) %s" % (", ".join(cols), qn), entry, where)

    def inner_with(it):
        q = lambda **kw: s.select([s.col("a")], s.table("w0"), **kw)
        p = k.compile(it, s.node("Insert", this=s.table("target"), expression=q(**{"with": with_(s, [("w0", qs["limit"]())])})))
        alone = k.compile(it, q(**{"with": with_(s, [("w0", qs["limit"]())])}))
        return same(p, alone, "the inserted query")
    run(ctx, it, "select", "INSERT INTO target WITH w0 AS ... SELECT", inner_with, where)

    # rejections
    bad = {
        "more values than columns": lambda: insert(["a"], [["int", "str"]]),
        "fewer values than columns": lambda: insert(["a", "b"], [["int"]]),
        "a short second tuple": lambda: insert(["a", "b"], [["int", "str"], ["int"]]),
        "a long second tuple": lambda: insert(["a", "b"], [["int", "str"], ["int", "str", "null"]]),
        "no column list": lambda: insert(None, [["int"]]),
        "a column as value": lambda: insert(["a"], [["int"], [s.col("z")]]),
        "fewer columns than the query": lambda: s.node("Insert", this=s.node("Schema", this=s.table("target"), expressions=[s.ident("a")]), expression=qs["limit"]()),
        "more columns than the query": lambda: s.node("Insert", this=s.node("Schema", this=s.table("target"), expressions=[s.ident(x) for x in "abc"]), expression=qs["group limit"]()),
    }
    for name, b in bad.items():
        def entry(it):
            k.compile(it, b())
            return ""
        run(ctx, it, "rejected", name, entry, where, raises=REJECT)
    ctx.require("values", 240)
    ctx.require("select", 80)
    ctx.require("mode", 100)
    ctx.require("rejected", 8)
