"""Scripts whose statements are numbered (`select 7 as a`), executed by the engine's levels; running a statement may run another script."""
from sa.interp import C, NONE, Inst, Raised
from .engine import Scripts, host
from .sqlnodes import py


class Expected:
    """what a script runs, by the rules"""

    def __init__(self, actions, fails, files):
        self.actions, self.fails, self.files = actions, fails, files
        self.trace = []

    def script(self, level, sql):
        """the failure the script ends with, or None"""
        todo = []
        failed = self.compile(level, sql, todo)
        if failed is None:
            for t in todo:
                failed = t()
                if failed is not None:
                    break
        return failed

    def compile(self, level, sql, todo):
        for st in [x.strip() for x in sql.split(";") if x.strip()]:
            if st == "nonsense":
                return "ParseError"
            kind, arg = st.split()[:2]
            if kind == "set":           # marks the level of the rest of a file
                if arg == "@level":
                    level = st.split("'")[1]
                continue
            if kind == "execute":
                inner = []
                failed = self.compile(level, self.files[arg], inner)
                if failed is not None:
                    return failed
                todo.append(lambda inner=inner: next((f for f in (t() for t in inner) if f is not None), None))
                continue
            n = int(arg)
            self.trace.append(("compile", n, level))
            if self.fails.get(n, ("",))[0] == "compile":
                return self.fails[n][1]
            todo.append(lambda n=n, level=level: self.run(level, n))
        return None

    def run(self, level, n):
        self.trace.append(("run", n, level))
        for lv, sql, caught in self.actions.get(n, ()):
            failed = self.script(lv, sql)
            if failed is not None and not caught:
                return failed
            self.trace.append(("back", n, level))
        if self.fails.get(n, ("",))[0] == "run":
            return self.fails[n][1]
        return None


class Running(Scripts):
    LEVELS = ("engine", "one", "two")

    def start(self, it, actions=None, fails=None, files=None):
        """actions: statement number -> (level, script) run while it runs; fails: number -> (when, exception name)"""
        self.actions, self.fails = dict(actions or {}), dict(fails or {})
        self.files = dict(files or {})
        self.trace = []
        self.fresh(it)
        self.real = {"engine": self.engine, "one": self.context(it), "two": self.context(it)}
        for level, x in self.real.items():
            self.call(it, x, "set_variable", "level", level)
            self.call(it, it.getattr(it.getattr(x, "executor"), "session_config"), "set", "encoding", level)

    def current(self, it):
        """the level whose variables and settings a statement sees now"""
        c = it.instantiate(it.get("syncanysql.calculaters.env_variable_calculater.CurrentEnvVariableCalculater"),
                           [C("current_env_variable::get_value")], {})
        variable = py(it.call(it.getattr(c, "calculate"), [C("@level")], {}))
        reader = it.instantiate(it.get("syncanysql.executor.ContextConfigReader"), [C("context://session/config/encoding")], {})
        d = it.call(it.getattr(reader, "read"), [], {}).items[1]
        v = d.cget("encoding") if hasattr(d, "cget") else None
        setting = v.v if isinstance(v, C) else None
        return variable if variable == setting else "variables of %s, settings of %s" % (variable, setting)

    def number(self, t):
        cols = self.columns(t)
        if len(cols) != 1:
            return None
        v = self.value(self.it, cols[0][1])
        return v.v if isinstance(v, C) else None

    def fail(self, it, n, when):
        f = self.fails.get(n)
        if f and f[0] == when:
            it.raise_(f[1], "failure of %r" % n)

    def core(self, it, a, k, n):
        t = super().core(it, a, k, n)
        compile = t.attrs["compile"]

        def wrapped(args, *a):
            i = self.number(t)
            self.trace.append(("compile", i, self.current(it)))
            self.fail(it, i, "compile")
            return it.call(compile, [args], {})
        t.attrs["compile"] = host(wrapped)
        return t

    def perform(self, it, t):
        i = self.number(t)
        self.trace.append(("run", i, self.current(it)))
        if i in self.actions:
            for level, sql, caught in self.actions[i]:
                self.inner(it, level, sql, caught)
                self.trace.append(("back", i, self.current(it)))
        self.fail(it, i, "run")
        super().perform(it, t)

    def inner(self, it, level, sql, caught):
        failed = self.try_script(it, level, sql)
        if failed is not None and not caught:
            raise failed

    def try_script(self, it, level, sql):
        """runs a script; the failure it ends with, or None"""
        try:
            self.script(it, self.real[level], sql)
        except Raised as e:
            return e
        return None
