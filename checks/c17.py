"""C17: intermediate results.

Statements over forms of query (aggregates in stages, DISTINCT, derived tables, common table expressions, UNION, subqueries) run on the
engine abstractly, with and without batches, with a failure at each task, and with another statement executed while a task runs.  Every
collection a task reads must hold what was written for it, and after the statement the memory database must hold the tables it held before
plus what the statement itself writes."""
import re

from sa.interp import C, DictV, LazyGen, Raised, key_of
from .c27 import sub, with_
from .engine import Scripts, host
from .queries import queries
from .sqlnodes import py
from .stmt import run, wrap

EXPLANATION = __doc__
INTERNAL = re.compile(r"--\.(__\w+)")
FAILURES = ("ValueError", "KeyboardInterrupt", "SystemError")


def forms(s):
    """name -> builder taking further clauses"""
    t, u, n = (lambda: s.table("t")), (lambda: s.table("u")), s.num
    ab = lambda q=None: [s.col("a", q), s.col("b", q)]
    avg = lambda c: s.alias(s.node("Avg", this=s.col(c)), "v")
    distinct = lambda c: s.alias(s.node("Count", this=s.node("Distinct", expressions=[s.col(c)])), "n")
    staged = lambda **k: s.select([s.col("c"), distinct("a"), avg("b")], t(), group=[s.col("c")], **k)
    plain = lambda **k: s.select(ab(), t(), **k)
    union = lambda x, y, **k: s.node("Union", this=x, expression=y, distinct=False, **k)
    on = lambda: s.b("EQ", s.col("a", "d"), s.col("a", "x"))
    out = {k: b for k, (_, b) in queries(s).items()}
    out.update({
        "derived staged": lambda **k: s.select([s.col("n", "d")], sub(s, staged(), "d"), **k),
        "derived derived": lambda **k: s.select([s.col("v", "d")], sub(s, s.select([s.alias(s.node("Sum", this=s.col("n", "e")), "v")],
                                                                                   sub(s, staged(), "e")), "d"), **k),
        "join derived": lambda **k: s.select([s.col("a", "x"), s.col("b", "d")], s.table("t", alias="x"),
                                             joins=[s.join(sub(s, plain(where=s.b("GT", s.col("b"), n(1))), "d"), on=on(), side="LEFT")], **k),
        "join staged": lambda **k: s.select([s.col("a", "x"), s.col("v", "d")], s.table("t", alias="x"), joins=[s.join(
            sub(s, s.select([s.col("a"), avg("b")], u(), group=[s.col("a")]), "d"), on=on(), side="LEFT")], **k),
        "staged join": lambda **k: s.select([s.alias(s.node("Avg", this=s.col("b", "d")), "v")], s.table("t", alias="x"),
                                            joins=[s.join(sub(s, plain(), "d"), on=on(), side="LEFT")], **k),
        "with": lambda **k: s.select(ab(), s.table("w"), **{"with": with_(s, [("w", plain())])}, **k),
        "with staged": lambda **k: s.select([s.col("n")], s.table("w"), **{"with": with_(s, [("w", staged())])}, **k),
        "with unused": lambda **k: s.select(ab(), t(), **{"with": with_(s, [("w", staged())])}, **k),
        "with twice": lambda **k: s.select([s.col("a", "x"), s.col("b", "d")], s.table("w", alias="x"),
                                           joins=[s.join(s.table("w", alias="d"), on=on(), side="LEFT")], **{"with": with_(s, [("w", plain())])}, **k),
        "with on with": lambda **k: s.select([s.col("v")], s.table("z"), **{"with": with_(s, [
            ("w", plain()), ("z", s.select([avg("a")], s.table("w")))])}, **k),
        "scalar subquery": lambda **k: s.select([s.col("a"), s.alias(s.node("Subquery", this=s.select([avg("a")], u())), "v")], t(), **k),
        "in subquery": lambda **k: s.select([s.col("a")], t(), where=s.node("In", this=s.col("a"),
                                            query=s.node("Subquery", this=s.select([s.col("a")], u()))), **k),
    })
    unions = {
        "union": lambda **k: union(plain(), s.select(ab(), u()), **k),
        "union 3": lambda **k: union(union(plain(), s.select(ab(), u())), s.select(ab(), s.table("t")), **k),
        "union staged": lambda **k: union(staged(), s.select([s.col("c"), distinct("b"), avg("a")], u(), group=[s.col("c")]), **k),
        "union with": lambda **k: union(s.select(ab(), s.table("w")), s.select(ab(), s.table("w")), **{"with": with_(s, [("w", plain())])}, **k),
        "union derived": lambda **k: union(s.select(ab("d"), sub(s, plain(), "d")), s.select(ab(), u()), **k),
    }
    out["derived union"] = lambda **k: s.select(ab("d"), sub(s, unions["union"](), "d"), **k)
    out["staged union"] = lambda **k: s.select([s.alias(s.node("Avg", this=s.col("a", "d")), "v")], sub(s, unions["union"](), "d"), **k)
    out["join unions"] = lambda **k: s.select([s.col("a", "x"), s.col("b", "d")], sub(s, unions["union"](), "x"),
                                              joins=[s.join(sub(s, unions["union"](), "d"), on=on(), side="LEFT")], **k)
    out["with union"] = lambda **k: s.select(ab(), s.table("w"), **{"with": with_(s, [("w", unions["union"]())])}, **k)
    return out, unions


class Staged(Scripts):
    """tasks that write rows in one or two batches, call their hooks, may fail and may run another script"""

    def __init__(self, ctx):
        super().__init__(ctx)
        it = self.it
        it.gen_lazy = True
        self.real_configuration()

    def fresh(self, it):
        self.step, self.problem, self.written = 0, "", {}
        it.concrete_ids = {}
        return super().fresh(it)

    def core(self, it, a, k, n):
        t = super().core(it, a, k, n)
        t.attrs["run_yield"] = host(lambda *a: LazyGen(it, lambda give: self.staged(it, t)))
        return t

    def references(self, x, key=None):
        """collections a configuration reads"""
        if isinstance(x, dict):
            return {r for k, v in x.items() if k not in ("output", "name", "dependencys", "outputer") for r in self.references(v)}
        if isinstance(x, (list, tuple)):
            return {r for v in x for r in self.references(v)}
        return {"--." + r for r in INTERNAL.findall(x)} if isinstance(x, str) else set()

    def staged(self, it, t):
        self.step += 1
        step = self.step
        self.log.append(("run", t))
        args = t.attrs["arguments"]
        batch = args.d.get(key_of(C("@batch")))
        batch = py(batch[1]) if batch else 0
        reads = self.references(py(t.attrs["config"]))
        hooks = list(t.attrs["hooks"].items)
        try:
            for part in range(2 if batch else 1):
                self.at(it, step, "%d before" % part)
                for name in sorted(reads):
                    if self.store.get(name, []) != self.written.get(name, []):
                        self.problem = self.problem or "task %d reads %s, which does not hold what was written for it any more" % (
                            step, re.sub(r"\d+", "N", name))
                    elif name not in self.written:
                        self.problem = self.problem or "task %d reads %s before anything is written there" % (step, re.sub(r"\d+", "N", name))
                row = DictV([(C("step"), C("%d.%d" % (step, part)))])
                rows = wrap([{}])
                self.put(t, row)
                rows.items[0] = row
                store = t.attrs["status"]
                store.d[key_of(C("store_count"))] = (C("store_count"), C(part + 1))
                self.at(it, step, "%d written" % part)
                for h in hooks:
                    it.call(it.getattr(h, "outputed"), [t, rows], {})
            self.at(it, step, "end")
        except Raised as e:
            if e.exc.cls.name.split(".")[-1] == "ValueError":
                for h in hooks:
                    it.call(it.getattr(h, "finaled"), [t, e.exc], {})
            raise
        for h in hooks:
            it.call(it.getattr(h, "finaled"), [t, C(None)], {})

    def put(self, t, row):
        out = py(t.attrs["config"])["output"]
        name = py(t.attrs["outputer"].attrs["name"])
        if name.startswith("-."):
            self.output.append(row)
            return
        if " use D" in out:
            self.store[name] = []
            self.written[name] = []
        self.store.setdefault(name, []).append(row)
        self.written.setdefault(name, []).append(row)

    def at(self, it, step, moment):
        if self.meanwhile and (step, moment) == self.meanwhile[0]:
            todo, self.meanwhile = self.meanwhile[1], None
            was, self.step = self.step, 1000
            todo()
            self.step = was
        if self.failure and (step, moment) == self.failure[0]:
            it.raise_(self.failure[1], "failure of task %d" % step)


def check(ctx):
    ctx.rule("there", "what a task reads is what was written for it")
    ctx.rule("removed", "after the statement only its own result has been added to the tables, and none has been removed")
    ctx.rule("failed", "the same after a task failed")
    ctx.rule("meanwhile", "the same when another statement runs while a task runs")
    e = Staged(ctx)
    it, s = e.it, e.s
    where = "syncanysql/taskers/query.py"
    plain, unions = forms(s)
    into = lambda: s.node("Into", this=s.node("Table", this=s.node("Parameter", this=s.node("Var", this="v"))))
    tables = {"--.t": [wrap({"a": 1, "b": 2, "c": 3})], "--.u": [wrap({"a": 2, "b": 2, "c": 2})], "--.kept": [wrap({"x": 1})]}
    statements, bodies = [], dict(plain, **unions)
    for name, b in bodies.items():
        statements.append(("select", name, b, None))
        statements.append(("insert", name, lambda b=b: s.node("Insert", this=s.table("target"), expression=b()), "--.target"))
        if name in plain:
            statements.append(("into", name, lambda b=b: b(into=into()), None))

    def entry(it):
        e.failure, e.meanwhile = failure, None
        e.fresh(it)
        e.store.update({k: list(v) for k, v in tables.items()})
        e.written.update({k: list(v) for k, v in tables.items()})
        e.trees = {"select q": build, "select other": lambda: bodies[name](), "select after": lambda: bodies["derived"](),
                   "insert other": lambda: s.node("Insert", this=s.table("other"), expression=bodies[name]())}
        if batch:
            e.call(it, e.engine, "set_variable", "@batch", batch)
        level = e.context(it) if scope == "context" else e.engine
        if inner:
            other = e.context(it)

            def todo():
                for sql in ("select other", "insert other"):
                    before = set(e.store)
                    e.script(it, level if inner[1] == "same" else other, sql)
                    left = set(e.store) - before - {"--.other"}
                    if left or before - set(e.store):
                        e.problem = e.problem or "the other statement leaves %s, removes %s" % (sorted(left), sorted(before - set(e.store)))
            e.meanwhile = (inner[0], todo)
        failed = None
        try:
            e.script(it, level, script)
        except Raised as x:
            failed = x
        if failed is not None and (not failure or failed.exc.cls.name.split(".")[-1] != failure[1]):
            raise failed
        if failure and failed is None:
            return "the failure of a task is lost"
        steps.append((e.step, batch))
        if e.problem:
            return e.problem
        own = {target} | ({"--.other"} if inner else set())
        left = sorted(re.sub(r"\d+", "N", k) for k in set(e.store) - set(tables) - own)
        if left:
            return "leaves %s" % left
        changed = [k for k in tables if e.store.get(k) != tables[k]]
        if changed:
            return "changes %s" % changed
        if target and not failure and len(e.store.get(target, [])) < 1:
            return "its result has been removed"
        return ""

    for kind, name, build, target in statements:
        for batch in (0, 100):
            what = "%s %s%s" % (kind, name, " in batches" if batch else "")
            failure, inner, scope, steps, script = None, None, "context", [], "select q; select after"
            run(ctx, it, "removed", what + ", then another one", entry, where)
            scope, steps, script = "engine", [], "select q"
            run(ctx, it, "removed", what, entry, where)
            count = max([n for n, _ in steps] or [0])
            moments = ["0 before", "0 written"] + (["1 before", "1 written"] if batch else []) + ["end"]
            for n in range(1, count + 1):
                for i, m in enumerate(moments):
                    if ctx.tier != "thorough" and (n + i + len(kind)) % len(moments) > (0 if batch else 1):
                        continue
                    failure = ((n, m), FAILURES[(n + i) % 3])
                    run(ctx, it, "failed", "%s, task %d fails (%s, %s)" % (what, n, m, failure[1]), entry, where)
            failure = None
            for n in range(1, count + 1):
                for which in ("same", "other"):
                    if ctx.tier != "thorough" and ((n + (which == "same")) % 2 or kind == "into"):
                        continue
                    inner = ((n, "0 written"), which)
                    run(ctx, it, "meanwhile", "%s, another statement of the %s level while task %d runs" % (what, which, n), entry, where)
            inner = None
