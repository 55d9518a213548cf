"""C16: the current script.

Scripts run on the engine abstractly; a statement's run executes further scripts on the same or another level, in several depths, some of
which fail.  The statements compiled and run, in order, and the level whose variables and settings each sees, must be those the rules give."""
import itertools

from sa.interp import NONE

from .running import Expected, Running
from .sqlnodes import py
from .stmt import run

EXPLANATION = __doc__
OUTER = "select 1 as a; select 2 as a; select 3 as a"
INNER = "select 11 as a; select 12 as a"


def cases(ctx):
    L = Running.LEVELS
    mark = "set @level = '%s'; set @config.encoding = '%s'; "
    files = {"f.sql": mark % ("f", "f") + OUTER, "g.sql": mark % ("g", "g") + INNER, "n.sql": mark % ("n", "n") + "select 4 as a; execute f.sql; select 5 as a"}
    fails = ({}, {11: ("compile", "KeyError")}, {12: ("compile", "ValueError")}, {11: ("run", "ValueError")}, {12: ("run", "KeyboardInterrupt")})
    for a in L:
        for sql in (OUTER, "execute f.sql", "execute n.sql; select 6 as a", "execute f.sql; execute g.sql"):
            yield a, sql, {}, {}, files
        for b, at, f, inner in itertools.product(L, (1, 3), fails, (INNER, "execute g.sql; select 13 as a", "nonsense", "select 11 as a; nonsense")):
            for outer in (OUTER, "execute n.sql; select 6 as a"):
                if f and "nonsense" in inner:
                    continue
                yield a, outer, {at: [(b, inner, True)]}, f, files
        for b, c, f in itertools.product(L, L, fails):
            yield a, OUTER, {1: [(b, INNER, True)], 11: [(c, "select 21 as a; select 22 as a", True)]}, f, files
            yield a, OUTER, {1: [(b, INNER, True), (c, "select 21 as a", True)]}, f, files
            yield a, OUTER, {1: [(b, INNER, False)], 3: [(c, "select 21 as a", True)]}, f, files
        if ctx.tier == "thorough":
            for b, c, d in itertools.product(L, L, L):
                for f in fails:
                    yield a, OUTER, {1: [(b, INNER, True)], 11: [(c, "select 21 as a; execute g2.sql", True)], 21: [(d, "select 31 as a", True)],
                                     2: [(d, "select 41 as a", True)]}, f, dict(files, **{"g2.sql": "select 24 as a"})


def check(ctx):
    ctx.rule("order", "scripts executed while a statement runs have their own statements, each statement sees its own level")
    ctx.rule("entered", "the current context is the innermost one entered")
    w = Running(ctx)
    it = w.it
    where = "syncanysql/executor.py"

    def entry(it):
        w.start(it, actions, fails, files)
        before = w.current(it)
        failed = w.try_script(it, level, sql)
        got = failed.exc.cls.name.split(".")[-1] if failed is not None else None
        if w.trace != want.trace:
            i = next((i for i, (x, y) in enumerate(zip(w.trace, want.trace)) if x != y), min(len(w.trace), len(want.trace)))
            return "event %d is %r, not %r" % (i + 1, w.trace[i:i + 2], want.trace[i:i + 2])
        if got != ended:
            return "ends with %s, not %s" % (got, ended)
        if w.current(it) != before:
            return "afterwards the variables of %r are current, not of %r" % (w.current(it), before)
        return ""

    for level, sql, actions, fails, files in cases(ctx):
        want = Expected(actions, fails, files)
        ended = want.script(level, sql)
        run(ctx, it, "order", "%s: %s, %r %r" % (level, sql, actions, fails), entry, where)

    def contexts(it):
        w.start(it)
        stack = [None]
        cls = it.get("syncanysql.ScriptEngine")

        def now():
            return it.call(it.getattr(cls, "current_context"), [], {})
        for op in ops:
            if op == "exit":
                it.call(it.getattr(stack.pop(), "__exit__"), [NONE] * 3, {})
            else:
                stack.append(w.real[op])
                it.call(it.getattr(stack[-1], "__enter__"), [], {})
            if (py(now()) is not None) if stack[-1] is None else now() is not stack[-1]:
                return "after %s the current context is another" % (op,)
        return ""

    for n in (1, 2, 3):
        for names in itertools.product(("one", "two"), repeat=n):
            for shape in range(n):
                ops = list(names[:shape + 1]) + ["exit"] * (shape + 1) if shape == n - 1 else \
                    list(names[:shape + 1]) + ["exit"] + list(names[shape + 1:]) + ["exit"] * (n - 1)
                run(ctx, it, "entered", " ".join(ops), contexts, "syncanysql/__init__.py")
