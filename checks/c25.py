"""C25: SELECT ... INTO.

Scripts with SELECT ... INTO run on the engine abstractly, for forms of the query (plain, filtered, ordered, grouped, distinct,
windowed, joined, derived, `*`) and for results of each shape.  The tasks of the query must be those it has without INTO, apart from where
the last one writes; the variable must hold the rows of that last stage in the documented shape."""
import itertools

from sa.interp import C, DictV, NONE
from .engine import Scripts
from .forms import freeze
from .queries import queries
from .sqlnodes import py
from .stmt import run, wrap

EXPLANATION = __doc__


def shape(columns, rows):
    """value of the variable"""
    if columns is None:
        if len(rows) == 1:
            return list(rows[0].values())[0] if len(rows[0]) == 1 else rows[0]
        return rows
    if len(columns) == 1:
        values = [r[columns[0]] for r in rows]
    else:
        values = rows
    return values[0] if len(values) == 1 else values


class Into(Scripts):
    """every task writes marked rows, the one that fills a variable's collection those of the result"""

    def perform(self, it, t):
        name = py(t.attrs["outputer"].attrs["name"])
        keys = [k for k, _ in self.columns(t)] if isinstance(t.attrs["schema"], DictV) else None
        if "__into_" in name or self.plain_run and name.startswith("-."):
            self.finals.append(name)
            for rows in self.results:
                if keys is None or not rows or set(keys) == set(rows[0]):
                    self.write(t, [wrap(r) for r in rows])
                    return
            self.unexpected.append((keys, name))
        else:
            self.write(t, [wrap({k: "stage" for k in keys or ["x"]})])

    def fresh(self, it):
        self.finals, self.unexpected, self.plain_run = [], [], False
        it.concrete_ids = {}
        return super().fresh(it)

    def core(self, it, a, k, n):
        t = super().core(it, a, k, n)
        self.cores.append(t)
        return t


def check(ctx):
    ctx.rule("shape", "the variable holds the rows of the query's last stage in the shape its columns and their number give")
    ctx.rule("same query", "the tasks of the query are those it has without INTO, but for where the last one writes")
    ctx.rule("own collection", "the rows pass through a collection of their own which is removed, no other one is touched")
    ctx.rule("order", "each INTO of a script stores its own rows, and the statements after it read them")
    ctx.rule("rejected", "an INTO of anything but one variable is rejected")
    e = Into(ctx)
    it, s = e.it, e.s
    where = "syncanysql/taskers/into.py"
    e.cores = []

    forms = queries(s)
    into = lambda v: s.node("Into", this=s.node("Table", this=s.node("Parameter", this=s.node("Var", this=v))))

    def rows(columns, n, nulls=False):
        return [{c: None if nulls and j == 0 else "%s%d" % (c, i) for j, c in enumerate(columns)} for i in range(n)]

    tables = {"--.t": [wrap({"a": 1, "b": 2, "c": 3})], "--.kept": [wrap({"x": 1})]}

    def prepare(it):
        e.cores.clear()
        e.fresh(it)
        e.store.update({k: list(v) for k, v in tables.items()})

    def tasks():
        """configurations of the tasks run, but for where they write in the end"""
        out = []
        for c in e.cores:
            cfg = dict(py(c.attrs["config"]))
            final = "__into_" in cfg["output"] or cfg["output"].startswith("&.-.")
            if final:
                cfg["output"] = ("final", cfg["output"].split("::")[-1])
            cfg.pop("name", None)       # what the logs call it
            args = c.attrs["arguments"]
            cfg["arguments it runs with"] = {k.v: py(v) for k, v in args.d.values() if isinstance(k, C) and str(k.v).startswith("@")}
            out.append(freeze(cfg))
        return out

    for name, (columns, build) in forms.items():
        def plain(it):
            prepare(it)
            e.plain_run = True
            e.results = [rows(columns or ["a"], 1)]
            e.trees = {"select q": lambda: build()}
            e.script(it, e.engine, "select q")
            return tasks()
        want = it.explore(plain)
        if len(want) != 1 or want[0].kind != "return":
            ctx.ob("same query", name, False, "without INTO: %s" % (want[0].describe() if want else "no path"), where)
            continue
        want = want[0].value

        for batch in (0, 100):
            def same(it):
                prepare(it)
                e.results = [rows(columns or ["a"], 1)]
                if batch:
                    e.call(it, e.engine, "set_variable", "@batch", batch)
                e.trees = {"select q into @v": lambda: build(into=into("v"))}
                e.script(it, e.engine, "select q into @v")
                left = [k for k in e.store if k not in tables]
                if left:
                    return "leaves the collections %s" % left
                if set(tables) - set(e.store):
                    return "removes %s" % sorted(set(tables) - set(e.store))
                gone = [x[1] for x in e.log if x[0] == "delete" and not x[1].startswith("--.__")]
                if gone:
                    return "deletes from %s" % gone
                if len(set(e.finals)) != 1 or len(e.finals) != 1:
                    return "the result is written %d times" % len(e.finals)
                if e.unexpected:
                    return "the last stage gives the columns %s, expected %s" % (e.unexpected[0][0], columns)
                if batch:
                    return ""
                got = tasks()
                if len(got) != len(want):
                    return "%d tasks, %d without INTO" % (len(got), len(want))
                for x, y in zip(got, want):
                    if x != y:
                        diffs = [k for k in dict(x).keys() | dict(y).keys() if dict(x).get(k) != dict(y).get(k)] if isinstance(x, dict) else ""
                        return "a task differs from the one without INTO %s" % (diffs,)
                return ""
            run(ctx, it, "own collection" if batch else "same query", "%s%s" % (name, " in batches" if batch else ""), same, where)

        for n, nulls, before in itertools.product((0, 1, 2, 3), (False, True), ("unset", "set", "null")):
            cs = [columns] if columns else [["a"], ["a", "b"]]
            for c in cs:
                def entry(it):
                    prepare(it)
                    e.results = [rows(c, n, nulls)]
                    if before != "unset":
                        e.call(it, e.engine, "set_variable", "v", NONE if before == "null" else C("old"))
                    e.trees = {"select q into @v": lambda: build(into=into("v"))}
                    e.script(it, e.engine, "select q into @v")
                    got = py(e.call(it, e.engine, "get_variable", "v", "none"))
                    value = shape(columns, e.results[0])
                    return "" if got == value and type(got) is type(value) else "stores %r, expected %r" % (got, value)
                run(ctx, it, "shape", "%s: %d rows%s%s, variable %s" % (name, n, " of %d columns" % len(c) if not columns else "",
                                                                       " with NULL" if nulls else "", before), entry, where)

    # ---- several in one script
    names = [f for f in forms if f != "*" and f != "const"]
    for x, y in itertools.product(names, names) if ctx.thorough else zip(names, names[1:] + names[:1]):
        for same_variable in (False, True):
            def entry(it):
                prepare(it)
                cx, cy = forms[x][0], forms[y][0]
                rx = [{c: "one.%s%d" % (c, i) for c in cx} for i in range(2)]
                ry = [{c: "two.%s%d" % (c, i) for c in cy} for i in range(3)]
                second = "v" if same_variable else "w"
                e.results = [rx]
                e.trees = {"select p into @v": lambda: forms[x][1](into=into("v")),
                           "select q into @%s" % second: lambda: forms[y][1](into=into(second))}
                reads = []
                perform = type(e).perform

                def two(it, t):
                    if t.attrs["schema"].cget("seen") is not None:
                        reads.append(py(e.value(it, t.attrs["schema"].cget("seen"))))
                        e.results = [ry]
                        return
                    perform(e, it, t)
                e.perform = two
                try:
                    e.script(it, e.engine, "select p into @v; select @v as seen; select q into @%s; select @%s as seen" % (second, second))
                finally:
                    del e.perform
                want = [shape(cx, rx), shape(cy, ry)]
                if reads != want:
                    return "the statements after them read %r, expected %r" % (reads, want)
                got = [py(e.call(it, e.engine, "get_variable", v, "none")) for v in ("v", second)]
                return "" if got == [want[1] if same_variable else want[0], want[1]] else "the variables hold %r" % (got,)
            run(ctx, it, "order", "%s; %s%s" % (x, y, " into one variable" if same_variable else ""), entry, where)

    # ---- rejected
    for what, build in {"a table": lambda: forms["a"][1](into=s.node("Into", this=s.table("x"))),
                        "a UNION": lambda: s.node("Union", this=forms["a"][1](), expression=forms["a"][1](), into=into("v"))}.items():
        def entry(it):
            prepare(it)
            e.results = [[]]
            e.trees = {"select q": build}
            e.script(it, e.engine, "select q")
            return ""
        run(ctx, it, "rejected", what, entry, where, raises=("SyncanySqlCompileException",))
