"""C32: file tables.

Statements over file tables are compiled abstractly with every written name and every position a table can stand in (FROM,
JOIN, derived table, UNION branch, DELETE, INSERT target).  Each reference must resolve, through the databases of its task, to exactly the definition the name
states: driver by extension, directory, file name, parameters of the URL and format of the type option.  All pairs of names
are also compiled in one statement: whatever stands beside it, each keeps its own definition."""
import itertools
import posixpath

from sa.interp import C
from .c26 import REJECT
from .c27 import Nest, sub, with_
from .stmt import at, run
from .forms import freeze

EXPLANATION = __doc__


def d(driver, path, name, **kw):
    return dict(kw, driver=driver, path=path), name


# written name -> (definition without its name, table name in it)
FILES = {
    "data.csv": d("csv", "/cwd", "data.csv"),
    "data.json": d("json", "/cwd", "data.json"),
    "data.txt": d("textline", "/cwd", "data.txt"),
    "data.xls": d("execl", "/cwd", "data.xls"),
    "up.xlsx": d("execl", "/cwd", "up.xlsx"),
    "other.csv": d("csv", "/cwd", "other.csv"),
    "./data.csv": d("csv", "/cwd", "data.csv"),
    "d/data.csv": d("csv", "/cwd/d", "data.csv"),
    "d/data.json": d("json", "/cwd/d", "data.json"),
    "d-e/data.csv": d("csv", "/cwd/d-e", "data.csv"),
    "d_e/data.csv": d("csv", "/cwd/d_e", "data.csv"),
    "d/e/data.csv": d("csv", "/cwd/d/e", "data.csv"),
    "../data.csv": d("csv", "/", "data.csv"),
    "/abs/dir/data.txt": d("textline", "/abs/dir", "data.txt"),
    "/abs/dir/data.csv": d("csv", "/abs/dir", "data.csv"),
    "a.b/c.d.csv": d("csv", "/cwd/a.b", "c.d.csv"),
    "with space.csv": d("csv", "/cwd", "with space.csv"),
    "\u6570\u636e.json": d("json", "/cwd", "\u6570\u636e.json"),
    "data.csv.txt": d("textline", "/cwd", "data.csv.txt"),
    "data<csv>": None,
    "data.txt<csv>": d("textline", "/cwd", "data.txt", format="csv"),
    "data.txt<json,UI>": d("textline", "/cwd", "data.txt", format="json"),
    "data.txt<richtable>": d("textline", "/cwd", "data.txt", format="richtable"),
    "data.txt<UI>": d("textline", "/cwd", "data.txt"),
    "data.csv<I>": d("csv", "/cwd", "data.csv"),
    "data.csv<UI>": d("csv", "/cwd", "data.csv"),
    "file://data.csv": d("csv", "/cwd", "data.csv"),
    "file://data.log": d("textline", "/cwd", "data.log"),
    "file://data": d("textline", "/cwd", "data"),
    "file://d/data.json": d("json", "/cwd/d", "data.json"),
    "file:///abs/dir/data.csv": d("csv", "/abs/dir", "data.csv"),
    "file:///abs/dir/data.csv?encoding=gbk": d("csv", "/abs/dir", "data.csv", encoding="gbk"),
    "file:///abs/dir/data.csv?encoding=utf-8": d("csv", "/abs/dir", "data.csv", encoding="utf-8"),
    "file://d/data.txt?format=csv&sep=%3B": d("textline", "/cwd/d", "data.txt", format="csv", sep=";"),
    "file://data.txt?sep=%26&q=a=b": d("textline", "/cwd", "data.txt", sep="&", q="a=b"),
    "file://data.txt?sep=": d("textline", "/cwd", "data.txt", sep=""),
    "file://data.txt?sep=%3Bx": d("textline", "/cwd", "data.txt", sep=";x"),
    "file://a%20b.txt": d("textline", "/cwd", "a b.txt"),
    "file://d%20d/a%23b.csv": d("csv", "/cwd/d d", "a#b.csv"),
    "file://a[1].csv": d("csv", "/cwd", "a[1].csv"),
    "file://data#1.csv": d("csv", "/cwd", "data#1.csv"),
    "file://data.log?encoding=gbk": d("textline", "/cwd", "data.log", encoding="gbk"),
    "_": "-", ".": "-",
    ".txt": ({"driver": "textline", "format": "txt"}, "&1"),
    ".csv": ({"driver": "textline", "format": "csv"}, "&1"),
    ".json": ({"driver": "textline", "format": "json"}, "&1"),
    "plain": "--", "plain.table": None, "x.csvx": "--", "csv": "--",
}
FILES = {k: v for k, v in FILES.items() if v is not None}


def check(ctx):
    ctx.rule("name", "a reference resolves to the definition its name states, in every position")
    ctx.rule("pair", "whatever other files the statement uses, each keeps its own definition")
    ctx.rule("dotted", "a table of a database is that table, a dotted file name is the file")
    ctx.rule("variable", "a table variable names the file its value states")
    k = Nest(ctx)
    it, s, w = k.it, k.s, k.w
    where = at(ctx, it, "parse_table")

    back = {}           # written name -> the name the lexer put in its place

    def tab(name, alias=None):
        return s.table(back.get(name, name), alias=alias)

    def resolve(cfg, ref):
        """(definition, name) of a reference of a configuration"""
        head = ref.split("::")[0]
        db, _, name = head.partition(".")[2].partition(".")
        if db in ("-", "--"):
            return db, name
        found = [x for x in cfg.get("databases") or [] if x.get("name") == db]
        if len(found) != 1:
            return "%d definitions of database %s" % (len(found), db), name
        # a directory is the same however it is spelt
        return {a: posixpath.normpath(posixpath.join("/cwd", b)) if a == "path" and isinstance(b, str) else b for a, b in found[0].items() if a != "name"}, name

    def wrong(cfg, ref, name, what):
        got = resolve(cfg, ref)
        want = FILES[name]
        if isinstance(want, str):
            want = (want, "&1" if want == "-" else name)
        if got != want:
            return "%s %s is %s of %s, expected %s of %s" % (what, name, got[1], got[0], want[1], want[0])
        return ""

    def unique(cfg):
        names = [x.get("name") for x in cfg.get("databases") or []]
        if len(set(names)) != len(names):
            return "databases of one name: %s" % sorted(names)
        for x in cfg.get("dependencys") or []:
            bad = unique(x)
            if bad:
                return bad
        return ""

    def loads(cfg):
        """references of the tables joined"""
        out = []

        def rec(x):
            if isinstance(x, str) and x.startswith(("&.", "&&.")) and "::" in x:
                out.append(x.split("::")[0].replace("&&", "&", 1))
            elif isinstance(x, dict):
                for y in x.values():
                    rec(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    rec(y)
        rec(cfg.get("schema"))
        return sorted(set(out))

    on = lambda x, y: s.b("EQ", s.col("k", y), s.col("k", x))
    cols = lambda t=None: [s.alias(s.col("a", t), "p"), s.alias(s.col("b", t), "q")]

    # ---- statements with up to two table references; each gives [(configuration, reference, written name, position)]
    def st_from(x, y):
        return s.select(cols(), tab(x)), lambda c: [(c, c["input"], x, "FROM")]

    def st_alias(x, y):
        return s.select(cols("tt"), tab(x, "tt")), lambda c: [(c, c["input"], x, "FROM")]

    def st_join(x, y):
        q = s.select([s.alias(s.col("a", "tt"), "p"), s.alias(s.col("b", "uu"), "q")], tab(x, "tt"), joins=[s.join(tab(y, "uu"), on=on("tt", "uu"), side="LEFT")])

        def refs(c):
            ls = loads(c)
            return [(c, c["input"], x, "FROM")] + [(c, l, y, "JOIN") for l in ls] if len(ls) == 1 else "%d tables are joined" % len(ls)
        return q, refs

    def st_insert(x, y):
        return s.node("Insert", this=tab(y), expression=s.select(cols(), tab(x))), \
            lambda c: [(c, c["input"], x, "FROM"), (c, c["output"], y, "INSERT INTO")]

    def st_insert_columns(x, y):
        q = s.node("Insert", this=s.node("Schema", this=tab(y), expressions=[s.ident("z1"), s.ident("z2")]), expression=s.select(cols(), tab(x)))

        def refs(c):
            ds = c.get("dependencys") or []
            if len(ds) != 1:
                return "%d queries feed the INSERT" % len(ds)
            return [(ds[0], ds[0]["input"], x, "FROM"), (c, c["output"], y, "INSERT INTO")]
        return q, refs

    def st_insert_values(x, y):
        return s.node("Insert", this=s.node("Schema", this=tab(y), expressions=[s.ident("z1")]), expression=s.node("Values", expressions=[
            s.node("Tuple", expressions=[s.num(1)])])), lambda c: [(c, c["output"], y, "INSERT INTO")]

    def st_derived(x, y):
        q = s.select(cols("uu"), sub(s, s.select([s.col("a"), s.col("b"), s.col("k")], tab(x)), "uu"))

        def refs(c):
            ds = c.get("dependencys") or []
            return [(ds[0], ds[0]["input"], x, "derived table")] if len(ds) == 1 else "%d queries" % len(ds)
        return q, refs

    def st_derived_join(x, y):
        q = s.select([s.alias(s.col("a", "tt"), "p"), s.alias(s.col("b", "uu"), "q")], tab(y, "tt"), joins=[
            s.join(sub(s, s.select([s.col("b"), s.col("k")], tab(x)), "uu"), on=on("tt", "uu"), side="LEFT")])

        def refs(c):
            ds = c.get("dependencys") or []
            return [(ds[0], ds[0]["input"], x, "derived table"), (c, c["input"], y, "FROM")] if len(ds) == 1 else "%d queries" % len(ds)
        return q, refs

    def st_union(x, y):
        q = s.node("Union", this=s.select(cols(), tab(x)), expression=s.select(cols(), tab(y)), distinct=False)

        def refs(c):
            ds = c.get("dependencys") or []
            return [(a, a["input"], n, "UNION") for a, n in zip(ds, (x, y))] if len(ds) == 2 else "%d queries" % len(ds)
        return q, refs

    def st_cte(x, y):
        q = s.select(cols("tt"), s.table("cc", alias="tt"), **{"with": with_(s, [("cc", s.select([s.col("a"), s.col("b")], tab(x)))])})

        def refs(c):
            ds = c.get("dependencys") or []
            return [(ds[0], ds[0]["input"], x, "WITH")] if len(ds) == 1 else "%d queries" % len(ds)
        return q, refs

    def st_in(x, y):
        q = s.select(cols(), tab(y), where=s.node("In", this=s.col("k"), query=s.node("Subquery", this=s.select([s.col("k")], tab(x)))))

        def refs(c):
            ds = c.get("dependencys") or []
            return [(ds[0], ds[0]["input"], x, "IN"), (c, c["input"], y, "FROM")] if len(ds) == 1 else "%d queries" % len(ds)
        return q, refs

    def st_delete(x, y):
        return s.node("Delete", this=tab(y), where=None), lambda c: [(c, c["output"], y, "DELETE")]

    def st_delete_where(x, y):
        return s.node("Delete", this=tab(y), where=s.node("Where", this=s.b("EQ", s.col("k"), s.num(1)))), lambda c: [(c, c["output"], y, "DELETE")]

    one = [st_from, st_alias, st_derived, st_cte]
    out = [st_insert_values, st_delete, st_delete_where]
    two = [st_join, st_insert, st_insert_columns, st_derived_join, st_union, st_in]

    def compile_(it, st, node):
        if st not in (st_delete, st_delete_where):
            return k.compile(it, node).cfg
        w.fresh(it)
        return freeze(w.call(it, "compile_delete", node, w.args))

    def entry_of(st, x, y, mapped=False):
        def entry(it):
            w.mapping = {"__m%d" % i: n for i, n in enumerate(sorted({x, y}))} if mapped else {}
            back.clear()
            back.update({n: m for m, n in w.mapping.items()})
            try:
                q, refs = st(x, y)
                cfg = compile_(it, st, q)
            finally:
                w.mapping = {}
                back.clear()
            rs = refs(cfg)
            if isinstance(rs, str):
                return rs
            for c, ref, name, what in rs:
                bad = wrong(c, ref, name, what)
                if bad:
                    return bad
            return unique(cfg)
        return entry

    names = list(FILES)
    for x in names:
        for st in one + out:
            for mapped in (False, True):
                if mapped and not ctx.thorough and st not in (st_from, st_delete):
                    continue
                run(ctx, it, "name", "%s of %s%s" % (st.__name__[3:], x, ", quoted" if mapped else ""), entry_of(st, x, x, mapped), where)
    for i, x in enumerate(names):
        for j, y in enumerate(names):
            for m, st in enumerate(two):
                if ctx.thorough or (i + j + m) % 6 == 0:
                    run(ctx, it, "pair", "%s of %s and %s" % (st.__name__[3:], x, y), entry_of(st, x, y, (i + j) % 2), where)

    def three(x, y, z):
        def entry(it):
            q = s.select([s.alias(s.col("a", "tt"), "p"), s.alias(s.col("b", "uu"), "q"), s.alias(s.col("b", "vv"), "r")], tab(x, "tt"), joins=[
                s.join(tab(y, "uu"), on=on("tt", "uu"), side="LEFT"), s.join(tab(z, "vv"), on=on("tt", "vv"), side="LEFT")])
            c = k.compile(it, q).cfg
            ls = c["schema"]
            got = [resolve(c, c["input"])]
            for col in ("q", "r"):
                one_ = loads({"schema": {col: ls[col]}})
                if len(one_) != 1:
                    return "%s is read from %s" % (col, one_)
                got.append(resolve(c, one_[0]))
            for g, n in zip(got, (x, y, z)):
                e = FILES[n] if not isinstance(FILES[n], str) else (FILES[n], "&1" if FILES[n] == "-" else n)
                if g != e:
                    return "%s is %s of %s, expected %s of %s" % (n, g[1], g[0], e[1], e[0])
            return unique(c)
        return entry
    same_dir = [n for n in names if not isinstance(FILES[n], str) and FILES[n][0].get("path") in ("/cwd", "/abs/dir", "/cwd/d-e", "/cwd/d_e", "/cwd/d/e")]
    trip = list(itertools.permutations(same_dir, 3))
    for x, y, z in trip[::len(trip) // (2000 if ctx.thorough else 150) + 1]:
        run(ctx, it, "pair", "three of %s, %s and %s" % (x, y, z), three(x, y, z), where)

    # ---- tables of databases
    def dotted(node, want, databases=0):
        def entry(it):
            c = k.compile(it, s.select(cols(), node())).cfg
            got = c["input"].split("::")[0]
            if got != want:
                return "reads %s, expected %s" % (got, want)
            if len(c["databases"]) != databases:
                return "databases %s" % (c["databases"],)
            return unique(c)
        return entry
    for name, node, want in (
            ("db.t", lambda: s.table("t", db="db"), "&.db.t"), ("db.t tt", lambda: s.table("t", db="db", alias="tt"), "&.db.t"),
            ("db.data.csv", lambda: s.table("data.csv", db="db"), "&.db.data.csv"),
            ("db.file://x.csv", lambda: s.table("file://x.csv", db="db"), "&.db.file://x.csv"),
            ("db.t<UI>", lambda: s.table("t<UI>", db="db"), "&.db.t"),
            ("cat.db.t", lambda: s.node("Table", this=s.ident("t"), db=s.ident("db"), catalog=s.ident("cat")), "&.cat.db.t"),
            ("cat..t", lambda: s.node("Table", this=s.ident("t"), catalog=s.ident("cat")), "&.cat.t"),
            ("a.b.c.d", lambda: s.node("Table", this=s.node("Dot", this=s.ident("c"), expression=s.ident("d")), db=s.ident("b"), catalog=s.ident("a")), "&.a.b.c.d"),
            ("db.a.b", lambda: s.node("Table", this=s.node("Dot", this=s.ident("a"), expression=s.ident("b")), db=s.ident("db")), "&.db.a.b")):
        run(ctx, it, "dotted", name, dotted(node, want), where)

    # ---- table variables
    def variable(value, raises=None):
        def entry(it):
            def get_value(it, a, kw, n):
                if value is KeyError:
                    it.raise_("KeyError", "@v", n)
                return C(value)
            w.env_value = get_value
            w.mapping = {}
            w.fresh(it)
            it.method_models["get_value"] = get_value
            q = s.select(cols(), s.node("Table", this=s.node("Parameter", this=s.node("Var", this="v"))))
            c = freeze(w.call(it, "compile_query", q, w.args))
            if value is None:
                return "" if c["input"].startswith("&.--.#{env_variable__@v}::") else "reads %s" % c["input"]
            return wrong(c, c["input"], value, "@v =") or unique(c)
        run(ctx, it, "variable", "@v = %r" % (value,), entry, where, raises)
    for n in names:
        variable(n)
    variable(None)
    variable(3, REJECT)
    variable(KeyError, REJECT)
    ctx.require("name", 300)
    ctx.require("pair", 1500)
    ctx.require("dotted", 9)
    ctx.require("variable", 40)
