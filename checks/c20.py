"""C20: the command line.

main() runs abstractly for each kind of standard input and argument, with and without files executed first, with scripts that succeed or
fail in each way.  What is executed, in what order, and the status the process ends with must be those of the table, and the task
manager must be closed."""
import itertools

from sa.interp import C, DictV, Inst, ListV, NONE, Raised
from .engine import host
from .running import Expected, Running
from .sqlnodes import py
from .stmt import run, wrap

EXPLANATION = __doc__
SCRIPT = "select 1 as a; select 2 as a; select 3 as a"
INTERRUPTS = ("SystemError", "KeyboardInterrupt")
FAILS = ({}, {2: ("compile", "TypeError")}, {1: ("run", "ValueError")}, {3: ("run", "KeyError")}, {2: ("run", "RuntimeError")},
         {2: ("run", "KeyboardInterrupt")}, {3: ("run", "SystemError")}, {11: ("run", "ValueError")}, {12: ("compile", "KeyError")},
         {11: ("run", "KeyboardInterrupt")})


class Main(Running):
    def __init__(self, ctx):
        super().__init__(ctx)
        it = self.it
        self.stdin = self.tty = None

        def leave(it, a, k, n):
            raise Raised(Inst(_type("SystemExit"), {"args": wrap([]), "code": a[0] if a else NONE}, name="exit"), n)
        for q in ("sys.exit", "os._exit"):
            it.models[q] = leave
        it.models.update({
            "os.getcwd": lambda it, a, k, n: C("/work"),
            "sys.stdin.isatty": lambda it, a, k, n: C(self.tty),
            "sys.stdin.read": lambda it, a, k, n: C(self.stdin),
            "os.path.splitext": lambda it, a, k, n: wrap(__import__("os").path.splitext(py(a[0]))),
            "signal.signal": self.signal,
            "syncanysql.config.GlobalConfig.load": self.load,
            "syncanysql.prompt.CliPrompt": lambda it, a, k, n: Inst(None, {"run": host(lambda *a: self.prompt())}, name="prompt"),
            "syncany.taskers.manager.TaskerManager": lambda it, a, k, n: self.manager(),
        })

    def signal(self, it, a, k, n):
        self.handlers[str(a[0])] = a[1]
        return NONE

    def load(self, it, a, k, n):
        if self.config_fails:
            it.raise_(self.config_fails, "configuration")
        return ListV([C(x) for x in self.init])

    def manager(self):
        self.managers.append(0)
        i = len(self.managers) - 1

        def close(*a):
            self.managers[i] += 1
            return NONE
        return Inst(None, {"database_manager": NONE, "close": host(close)}, name="manager")

    def prompt(self):
        self.trace.append("prompt")
        return NONE

    def current(self, it):
        return "main"

    def parse(self, it, a, k, n):
        if py(a[0]).strip() == "nonsense":
            it.raise_("ValueError", "cannot be parsed", n)
        return super().parse(it, a, k, n)

    def begin(self, it, argv, tty, stdin, init, fails, files, config_fails=None):
        self.texts, self.store, self.output, self.log, self.uuids = [], {}, [], [], 0
        self.trace, self.fails, self.actions, self.files = [], dict(fails), {}, dict(files)
        self.tty, self.stdin, self.init, self.config_fails = tty, stdin, init, config_fails
        self.managers, self.handlers = [], {}
        it.concrete_ids = {}
        it.models["open"] = self.open
        it.ext_values = {"os.environ": DictV(), "sys.path": ListV([]), "sys.argv": wrap(["syncany-sql"] + argv), "sys.platform": C("linux"),
                         "signal.SIGHUP": C("SIGHUP"), "signal.SIGTERM": C("SIGTERM")}


def _type(name):
    from sa.interp import TypeV
    return TypeV(name)


def expected(argv, tty, stdin, init, fails, files, config_fails):
    """events, status"""
    ext = "." + argv[0].rsplit(".", 1)[1].lower() if argv and "." in argv[0] else ""
    script = ext in (".sql", ".sqlx", ".prql")
    if tty and ext and not script:
        return [], 2
    if config_fails:
        return [], 130 if config_fails in INTERRUPTS else 1
    w = Expected({}, fails, files)
    failed = None
    for name in init:
        failed = failed or ("FileNotFoundError" if name not in files else w.script("main", files[name]))
    if failed is None:
        if not tty and not script:
            text = stdin.strip()
            if text and text[0] in "\"'" and text[-1] in "\"'":
                text = text[1:-1]
            failed = w.script("main", text)
        elif argv:
            failed = "FileNotFoundError" if argv[0] not in files else w.script("main", files[argv[0]])
        else:
            w.trace.append("prompt")
    return w.trace, 0 if failed is None else 130 if failed in INTERRUPTS else 1


def cases(ctx):
    files = {"s.sql": SCRIPT, "x.SQLX": "execute n.sql; select 2 as a", "n.sql": "select 3 as a; select 1 as a", "i.sql": "select 11 as a; select 12 as a",
             "j.sql": "select 13 as a", "bad.sql": "select 1 as a; nonsense; select 2 as a", "name.sql": "select 2 as a"}
    inits = ([], ["i.sql"], ["i.sql", "j.sql"], ["j.sql", "missing.sql"])
    for init, fails in itertools.product(inits, FAILS):
        if any(n > 10 for n in fails) and "i.sql" not in init:
            continue
        for tty in (True, False):
            for name in ("s.sql", "x.SQLX", "bad.sql", "name.sql", "missing.sql"):
                if ctx.tier == "thorough" or name == "s.sql" or not init or not fails:
                    yield [name], tty, "select 50 as a", init, fails, files, None
            yield ["s.sql", "--x=1", "other.sql"], tty, "", init, fails, files, None
        for stdin in (SCRIPT, "  \n'" + SCRIPT + "'\n", '"' + SCRIPT + '"', "execute s.sql; select 2 as a", "", " \n ", "select 1 as a; nonsense"):
            for argv in ([], ["--x=1"], ["select"], ["x.txt"]):
                if ctx.tier == "thorough" or not argv or (not init and stdin == SCRIPT):
                    yield argv, False, stdin, init, fails, files, None
        yield [], True, "", init, fails, files, None
    for name in ("x.txt", "a.json", "x.py"):
        yield [name], True, "", ["i.sql"], {}, files, None
    for failure in ("ValueError", "KeyError", "KeyboardInterrupt", "SystemError"):
        yield ["s.sql"], True, "", ["i.sql"], {}, files, failure
        yield [], False, SCRIPT, [], {}, files, failure


def check(ctx):
    ctx.rule("runs", "the files to execute first, then the script of the argument or of standard input, or the prompt, in order up to a failure")
    ctx.rule("status", "0 after success, 1 after a failure, 130 after an interrupt, 2 for a wrong argument")
    ctx.rule("closed", "the task manager is closed at the end")
    ctx.rule("signals", "SIGTERM and SIGHUP terminate the task that runs")
    w = Main(ctx)
    it = w.it
    where = "syncanysql/main.py"
    main = it.get("syncanysql.main.main")

    def outcome(it):
        try:
            it.call(main, [], {})
        except Raised as e:
            if e.exc.cls.name.split(".")[-1] != "SystemExit":
                raise
            code = py(e.exc.attrs["code"]) if "code" in e.exc.attrs else None
            return 0 if code is None else code
        return 0

    def entry(it):
        w.begin(it, *case)
        status = outcome(it)
        if rule == "runs":
            if w.trace != trace:
                i = next((i for i, (x, y) in enumerate(zip(w.trace, trace)) if x != y), min(len(w.trace), len(trace)))
                return "event %d is %r, not %r" % (i + 1, w.trace[i:i + 2], trace[i:i + 2])
        elif rule == "status":
            return "" if status == want else "ends with status %s, not %s" % (status, want)
        elif not all(w.managers):
            return "a task manager is left open"
        return ""

    for case in cases(ctx):
        trace, want = expected(*case)
        argv, tty, stdin, init, fails = case[:5]
        what = "%s %s%r, first %s, %s%s" % (argv, "terminal" if tty else "stdin ", "" if tty else stdin, init, fails, case[6] or "")
        for rule in ("runs", "status", "closed"):
            run(ctx, it, rule, what, entry, where)

    def signals(it):
        w.begin(it, *case)
        real = w.perform

        def perform(it, t):
            if w.number(t) == 2:
                h = w.handlers.get(repr(C(which)), w.handlers.get(which))
                if h is None:
                    w.problem = "no handler"
                else:
                    before = len(w.log)
                    it.call(h, [C(15), NONE], {})
                    ended = [x[1] for x in w.log[before:] if x[0] == "terminate"]
                    w.problem = "" if t in ended else "the running task is not terminated"
                    if [x for x in ended if x is not t]:
                        w.problem = "another task is terminated"
            return real(it, t)
        w.problem, w.perform = "statement 2 did not run", perform
        try:
            outcome(it)
        finally:
            del w.perform
        return w.problem

    files = {"s.sql": SCRIPT, "x.sql": "execute s.sql; select 3 as a", "i.sql": "select 11 as a"}
    for which in ("SIGTERM", "SIGHUP"):
        for case in ((["s.sql"], True, "", ["i.sql"], {}, files), (["x.sql"], True, "", [], {}, files), ([], False, SCRIPT, ["i.sql"], {}, files),
                     ([], False, "execute s.sql", [], {}, files), ([], False, SCRIPT, ["s.sql"], {}, files)):
            run(ctx, it, "signals", "%s, %s %s" % (which, case[0], case[2]), signals, where)
