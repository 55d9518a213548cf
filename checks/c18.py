"""C18: a failing script.

Scripts run on the engine abstractly with a failure at one statement (it cannot be parsed, its compilation fails, its run fails with an
ordinary or a system exception), directly or inside executed files.  The statements compiled and run and the failure the caller sees must be
those the rules give, and a second script executed afterwards at any level must run exactly its own statements."""
import itertools

from sa.interp import Raised

from .c17 import Staged, forms
from .running import Expected, Running
from .stmt import run

EXPLANATION = __doc__
SCRIPTS = {
    "plain": "select 1 as a; select 2 as a; select 3 as a",
    "file": "execute f.sql; select 2 as a; select 3 as a",
    "file last": "select 2 as a; execute f.sql",
    "nested": "select 2 as a; execute n.sql; select 3 as a",
    "long": "; ".join("select %d as a" % i for i in range(20, 27)),
    "twice": "execute f.sql; execute g.sql; execute f.sql",
}
FILES = {"f.sql": "select 1 as a; select 4 as a", "g.sql": "select 5 as a", "n.sql": "select 6 as a; execute f.sql; select 7 as a",
         "bad.sql": "select 8 as a; nonsense; select 9 as a"}
KINDS = (("compile", "SyncanySqlCompileException"), ("compile", "KeyError"), ("run", "ValueError"), ("run", "KeyboardInterrupt"),
         ("run", "SystemError"), ("run", "SystemExit"), ("run", "KeyError"), ("run", "RuntimeError"))


def cases():
    for level in Running.LEVELS:
        for name, sql in SCRIPTS.items():
            numbers = sorted({int(w) for t in [sql] + [FILES[f] for f in FILES if f != "bad.sql"] for w in t.replace(";", " ").split() if w.isdigit()})
            for n in numbers:
                probe = Expected({}, {}, FILES)
                probe.script(level, sql)
                if not any(e[:2] == ("run", n) for e in probe.trace):
                    continue
                for kind in KINDS if name != "long" else KINDS[n % 2::3]:
                    yield level, sql, {n: kind}
        for sql in ("nonsense", SCRIPTS["long"] + "; nonsense", "execute f.sql; " * 4 + "nonsense", "select 1 as a; nonsense", "select 1 as a; nonsense; select 2 as a", "select 1 as a; execute bad.sql; select 2 as a",
                    "execute f.sql; execute bad.sql"):
            yield level, sql, {}


def check(ctx):
    ctx.rule("stops", "a failing statement ends the script with its failure; nothing runs if compiling failed, nothing after it otherwise")

    w = Running(ctx)
    it = w.it
    where = "syncanysql/executor.py"
    following = [[("%s" % l, "select 50 as a; select 51 as a")] for l in Running.LEVELS] + \
        [[("engine", "execute g.sql"), ("one", "select 52 as a; select 53 as a"), ("two", "execute g.sql; select 54 as a")]]

    def compare(trace, failed, want, ended):
        if trace != want.trace:
            i = next((i for i, (x, y) in enumerate(zip(trace, want.trace)) if x != y), min(len(trace), len(want.trace)))
            return "event %d is %r, not %r" % (i + 1, trace[i:i + 2], want.trace[i:i + 2])
        got = failed.exc.cls.name.split(".")[-1] if failed is not None else None
        if got != ended:
            return "ends with %s, not %s" % (got, ended)
        return ""

    def entry(it):
        w.start(it, {}, fails, FILES)
        failed = w.try_script(it, level, sql)
        found = compare(w.trace, failed, want, ended)
        if found:
            return found
        w.fails = {}
        for lv, then in after:
            w.trace = []
            again = Expected({}, {}, FILES)
            stop = again.script(lv, then)
            found = compare(w.trace, w.try_script(it, lv, then), again, stop)
            if found:
                return "then %s: %s: %s" % (lv, then, found)
        return ""

    for i, (level, sql, fails) in enumerate(cases()):
        want = Expected({}, fails, FILES)
        ended = want.script(level, sql)
        every = following + [[(level, sql)]]
        for after in every if ctx.tier == "thorough" else [every[i % 5]]:
            run(ctx, it, "stops", "%s: %s, %r, then %r" % (level, sql, fails, after), entry, where)
    stages(ctx)


def stages(ctx):
    ctx.rule("stage", "a failure of any task of a query ends the script, no further task runs")
    e = Staged(ctx)
    plain, unions = forms(e.s)

    def entry(it):
        e.failure, e.meanwhile = failure, None
        e.fresh(it)
        e.trees = {"select q": build, "select after": lambda: plain["a"]()}
        if batch:
            e.call(it, e.engine, "set_variable", "@batch", batch)
        try:
            e.script(it, e.engine, "select q; select after")
        except Raised as x:
            name = x.exc.cls.name.split(".")[-1]
            if not failure or name != failure[1]:
                raise
            if e.step != failure[0][0]:
                return "%d more tasks run after the failure" % (e.step - failure[0][0])
            return ""
        steps.append(e.step)
        return "the failure is lost" if failure else ""

    names = ("SystemError", "KeyboardInterrupt", "ValueError", "KeyError")
    for i, (name, build) in enumerate(list(plain.items()) + list(unions.items())):
        for batch in (0, 100):
            failure, steps = None, []
            run(ctx, e.it, "stage", "%s%s" % (name, " in batches" if batch else ""), entry, "syncanysql/taskers/query.py")
            for n in range(1, max(steps or [0])):
                for j, kind in enumerate(names):
                    if ctx.tier != "thorough" and (i + j + n + 2 * bool(batch)) % 4:
                        continue
                    failure = ((n, "0 written"), kind)
                    run(ctx, e.it, "stage", "%s%s, task %d fails (%s)" % (name, " in batches" if batch else "", n, kind), entry,
                        "syncanysql/taskers/query.py")
