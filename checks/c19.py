"""C19: the functions of the Python interface.

The functions of the module, the engine and its contexts run abstractly in sequences, together with statements that write the same tables;
what they return, the tables left and the databases opened and closed must be those of a plain model of the interface."""
import itertools

from sa.interp import C, Inst, NONE, Raised
from .engine import Scripts, host
from .sqlnodes import py
from .stmt import run, wrap

EXPLANATION = __doc__
LEVELS = ("module", "engine", "one", "two")
CONFIG = {"databases": [{"name": "x", "driver": "memory"}, {"name": "y", "driver": "mysql", "host": "h1"}, {"name": "z", "driver": "nosuch"}]}


class Api(Scripts):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.real_configuration()
        it = self.it
        it.models["syncany.database.find_database"] = self.find
        it.models["syncany.taskers.manager.TaskerManager"] = lambda it, a, k, n: self.manager(a)

    def find(self, it, a, k, n):
        driver = py(a[0])
        if driver == "nosuch":
            return NONE

        def make(manager, config, *a):
            d = self.database()
            i = len(self.opened)
            d.attrs["index"] = C(i)
            self.opened.append([driver, dict(py(config)), 0])

            def close(*a):
                self.opened[i][2] += 1
                return NONE
            d.attrs["close"] = host(close)
            return d
        return host(make)

    def manager(self, a):
        self.managers.append(0)
        i = len(self.managers) - 1

        def close(*a):
            self.managers[i] += 1
            return NONE
        return Inst(None, {"database_manager": a[0] if a else NONE, "close": host(close)}, name="manager")

    def start(self, it, config=None):
        self.store, self.output, self.log, self.uuids, self.texts = {}, [], [], 0, []
        self.opened, self.managers, self.running = [], [], None
        it.concrete_ids = {}
        it.models["open"] = self.open
        self.config = wrap(config) if config else None
        self.contexts = {}

    def at(self, it, level, fn, *args):
        """calls an interface function at a level"""
        args = [a if hasattr(a, "snapshot") or isinstance(a, (C, Inst)) or not isinstance(a, (str, int, list, dict, type(None))) else wrap(a) for a in args]
        if level == "module":
            return it.call(it.get("syncanysql." + fn), args, {})
        engine = it.call(it.getattr(it.get("syncanysql.ScriptEngine"), "instance"), [self.config] if self.config is not None else [], {})
        if level != "engine":
            if level not in self.contexts:
                self.contexts[level] = it.call(it.getattr(engine, "context"), [], {})
            engine = self.contexts[level]
        return it.call(it.getattr(engine, fn), args, {})

    def perform(self, it, t):
        if self.running:
            self.running(t)
        return super().perform(it, t)


def operations():
    for level in LEVELS:
        yield ("push", level, [{"a": 1}, {"a": 2}])
        yield ("push", level, {"a": 3})
        yield ("get", level)
        yield ("pop", level)
    yield ("insert", "engine")
    yield ("insert", "one")


def check(ctx):
    ctx.rule("data", "push adds rows to a table of the memory database, get gives them, pop gives and removes them, at every level, no other table changes")
    ctx.rule("database", "get_database gives the configured database of that name, one per engine, or DatabaseUnknownException")
    ctx.rule("closed", "closing an engine closes what it opened, and the module starts a new one afterwards")
    ctx.rule("terminal", "terminal() terminates the task running in the context entered, otherwise the engine's")
    w = Api(ctx)
    it = w.it
    where = "syncanysql/__init__.py"

    def data(it):
        w.start(it)
        w.store["--.other"] = [wrap({"b": 1})]
        model = []
        for op in ops:
            kind, level = op[:2]
            got = None
            if kind == "push":
                w.at(it, level, "push_memory_datas", "r", op[2])
                model.extend(op[2] if isinstance(op[2], list) else [op[2]])
            elif kind == "insert":
                w.at(it, level, "execute", "insert into r select 9 as a")
                model.append({"a": 9})
            else:
                got = py(w.at(it, level, kind + "_memory_datas", "r"))
                if got != model:
                    return "%s of %s gives %s, expected %s" % (kind, level, got, model)
                if kind == "pop":
                    model = []
            if [py(x) for x in w.store.get("--.r", [])] != model:
                return "after %s of %s the table holds %s, expected %s" % (kind, level, [py(x) for x in w.store.get("--.r", [])], model)
        if sorted(k for k, v in w.store.items() if v and k != "--.r") != ["--.other"] or len(w.store["--.other"]) != 1:
            return "other tables change: %s" % sorted(w.store)
        return ""

    every = list(operations())
    for ops in itertools.chain(itertools.product(every, repeat=1), itertools.product(every, repeat=2),
                               ((a, b, c) for a, b, c in itertools.product(every, repeat=3)
                                if ctx.tier == "thorough" or (every.index(a) + 3 * every.index(b) + 7 * every.index(c)) % 11 == 0)):
        run(ctx, it, "data", "; ".join("%s %s" % (o[0], o[1]) + (" %s" % (o[2],) if len(o) > 2 else "") for o in ops), data, where)

    def database(it):
        w.start(it, CONFIG)
        w.at(it, "engine", "setup")
        seen = {}
        for level, name in ops:
            d = w.at(it, level, "get_database", *([name] if name != "default" else []))
            name = name if name not in (None, "", "default") else "--"
            if not isinstance(d, Inst) or "index" not in d.attrs:
                return "%r gives no database: %r" % (name, d)
            i = py(d.attrs["index"])
            if seen.setdefault(name, i) != i:
                return "%s is opened again" % name
            driver, config, _ = w.opened[i]
            if config.get("name") != name or driver != {"--": "memory", "x": "memory", "y": "mysql"}[name] or config.get("host") != {"y": "h1"}.get(name):
                return "%r gives the database %s %s" % (name, driver, config)
        return ""

    for ops in itertools.product(itertools.product(LEVELS, ("default", None, "--", "x", "y")), repeat=2):
        run(ctx, it, "database", ", ".join("%s of %s" % (n, l) for l, n in ops), database, where)
    for level, name in itertools.product(LEVELS, ("z", "missing")):
        ops = ((level, name),)
        run(ctx, it, "database", "%s of %s" % (name, level), database, where, raises=("DatabaseUnknownException",))

    def closed(it):
        w.start(it)
        if how == "module":
            e = it.call(it.get("syncanysql.instance"), [], {})
        else:
            e = it.instantiate(it.get("syncanysql.ScriptEngine"), [], {})
        for op in ops:
            if op == "database":
                it.call(it.getattr(e, "get_database"), [], {})
            elif op == "push":
                it.call(it.getattr(e, "push_memory_datas"), [C("r"), wrap([{"a": 1}])], {})
            elif op == "execute":
                it.call(it.getattr(e, "execute"), [C("select 1 as a")], {})
            elif op == "setup":
                it.call(it.getattr(e, "setup"), [], {})
        opened, managers = len(w.opened), len(w.managers)
        if how == "module":
            it.call(it.get("syncanysql.close"), [], {})
        elif how == "with":
            it.call(it.getattr(e, "__enter__"), [], {})
            r = it.call(it.getattr(e, "__exit__"), [C(None)] * 3 if not ops else [it.fresh("type"), it.fresh("error"), NONE], {})
            if not (isinstance(r, C) and not r.v):
                return "leaving the with statement hides an exception"
        else:
            it.call(it.getattr(e, "close"), [], {})
        if [x for x in w.managers if x != 1]:
            return "the task manager is closed %s times" % w.managers
        if "execute" not in ops and [x for x in w.opened if x[2] < 1]:
            return "%d of %d databases are not closed" % (len([x for x in w.opened if x[2] < 1]), opened)
        if ops and managers != 1:
            return "%d task managers" % managers
        if how == "module":
            it.call(it.get("syncanysql.close"), [], {})
            again = it.call(it.get("syncanysql.instance"), [], {})
            if again is e:
                return "the closed engine is used again"
            it.call(it.get("syncanysql.push_memory_datas"), [C("r2"), wrap([{"a": 1}])], {})
            if len(w.managers) != managers + 1:
                return "the next engine is not set up"
        else:
            it.call(it.getattr(e, "close"), [], {})
            if [x for x in w.managers if x > 1] or [x for x in w.opened if x[2] > 1]:
                return "closing again closes twice"
        return ""

    for how in ("module", "close", "with"):
        for n in range(4):
            for ops in itertools.product(("database", "push", "execute", "setup"), repeat=n):
                if n < 3 or len(set(ops)) == 3:
                    run(ctx, it, "closed", "%s after %s" % (how, ", ".join(ops) or "nothing"), closed, where)

    def terminal(it):
        w.start(it)
        found = []

        def running(t):
            if depth and inner and not found:
                found.append(None)
                w.at(it, inner, "execute", "select 2 as a")
                return
            before = len(w.log)
            w.at(it, caller, "terminal")
            ended = [x[1] for x in w.log[before:] if x[0] == "terminate"]
            found.append((t in ended, len([x for x in ended if x is not t])))
        w.at(it, "engine", "setup")
        w.at(it, "one", "get_variable", "x")
        w.at(it, "two", "get_variable", "x")
        if entered:
            it.call(it.getattr(w.contexts[entered], "__enter__"), [], {})
        w.running = running
        w.at(it, level, "execute", "select 1 as a")
        got = found[-1] if found else None
        affected = caller if caller in ("one", "two") else entered or "engine"
        at = inner if depth and inner else level
        at = "engine" if at == "module" else at
        outer = "engine" if level == "module" else level
        want = (affected == at, 1 if depth and inner and affected == outer and outer != at else 0)
        if got != want:
            return "the running task is %sterminated, %d others" % ("" if got and got[0] else "not ", got[1] if got else 0)
        return ""

    for level, caller, entered in itertools.product(LEVELS, LEVELS, (None, "one", "two")):
        for depth, inner in ((0, None), (1, "engine"), (1, "one"), (1, "two")):
            if inner == ("engine" if level == "module" else level):
                continue
            run(ctx, it, "terminal", "statement of %s%s, terminal() of %s%s" % (level, ", inner one of %s" % inner if inner else "", caller,
                                                                               ", %s entered" % entered if entered else ""), terminal, where)
