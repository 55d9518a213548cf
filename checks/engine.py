"""The engine run abstractly: scripts given to a ScriptEngine or to one of its contexts, with the library's tasker and databases
modelled.  A script is text (split by the engine's own splitter); the syntax tree of each of its statements is given."""
import re

from sa.interp import C, DictV, GenV, Inst, ListV, NONE, PyV, Term, TupleV, V
from sa.project import AnalysisBroken
from .sqlnodes import Sql, compiler_interp, py
from .stmt import library, text, wrap

CORE = "syncany.taskers.core.CoreTasker"
LIB = ("syncany.taskers.core", "syncany.taskers.config", "syncany.calculaters.calculater", "syncany.hook")


def pattern(it, a, k, n):
    """re.compile on a known pattern, used on known texts"""
    flags = py(a[1]) if len(a) > 1 else 0
    if isinstance(a[0], V) and not isinstance(a[0], C):
        raise AnalysisBroken("computed regular expression")
    rx = re.compile(py(a[0]), re.S | re.M if not isinstance(flags, int) else flags)

    def known(a):
        xs = [py(x) for x in a]
        if any(isinstance(x, V) for x in xs):
            raise AnalysisBroken("regular expression on an unknown text: %r" % (xs,))
        return xs

    def found(m):
        if m is None:
            return NONE
        return Inst(None, {"groups": PyV(lambda it, a, k, n: wrap(m.groups())),
                           "group": PyV(lambda it, a, k, n: wrap(m.group(*known(a)))),
                           "start": PyV(lambda it, a, k, n: wrap(m.start(*known(a)))),
                           "end": PyV(lambda it, a, k, n: wrap(m.end(*known(a)))),
                           "span": PyV(lambda it, a, k, n: wrap(m.span(*known(a))))}, name="match")

    def sub(it, a, k, n):
        if isinstance(py(a[0]), str):
            return C(rx.sub(*known(a)))
        return C(rx.sub(lambda m: str(py(it.call(a[0], [found(m)], {}))), *known(a[1:])))
    return Inst(None, {"findall": PyV(lambda it, a, k, n: wrap(rx.findall(*known(a)))),
                       "finditer": PyV(lambda it, a, k, n: ListV([found(m) for m in rx.finditer(*known(a))])),
                       "match": PyV(lambda it, a, k, n: found(rx.match(*known(a)))),
                       "fullmatch": PyV(lambda it, a, k, n: found(rx.fullmatch(*known(a)))),
                       "search": PyV(lambda it, a, k, n: found(rx.search(*known(a)))),
                       "split": PyV(lambda it, a, k, n: wrap(rx.split(*known(a)))),
                       "sub": PyV(sub), "pattern": a[0]}, name="pattern")


def host(fn):
    return PyV(lambda it, a, k, n: fn(*a, **k))


class Engine:
    def __init__(self, ctx, **kw):
        self.ctx = ctx
        self.trees = {}
        self.it, self.s = compiler_interp(ctx, models={"re.compile": pattern}, **kw)
        it = self.it
        it.inline_lib += LIB
        library(it)
        it.models.update({
            CORE: self.core,
            "sqlglot.maybe_parse": self.parse,
            "sqlglot.expressions.maybe_parse": self.parse,
            "syncany.database.find_database": lambda it, a, k, n: host(lambda *a, **k: self.database()),
            "syncany.database.DatabaseManager": lambda it, a, k, n: Inst(None, {}, name="database manager"),
            "syncany.taskers.manager.TaskerManager": lambda it, a, k, n: Inst(
                None, {"database_manager": a[0] if a else NONE, "close": host(lambda *a: NONE)}, name="manager"),
            "syncany.logger.get_logger": lambda it, a, k, n: Inst(
                None, {m: host(lambda *a, **k: NONE) for m in ("info", "error", "warning", "debug", "exception")}, name="logger"),
            "syncanysql.config.GlobalConfig.load": lambda it, a, k, n: ListV([]),
            "syncanysql.config.GlobalConfig.config_logging": lambda it, a, k, n: NONE,
            "syncanysql.config.GlobalConfig.load_extensions": lambda it, a, k, n: NONE,
            "syncanysql.executor.EnvVariables.build_global": self.globals,
            "uuid.uuid1": self.uuid,
            "traceback.format_exc": lambda it, a, k, n: C(""),
            "time.time": lambda it, a, k, n: C(0.0),
            "os.path.exists": lambda it, a, k, n: C(py(a[0]) in self.files),
            "syncany.main.warp_database_logging": lambda it, a, k, n: NONE,
        })
        tree_text = lambda it, a, k, n: C(self.text(a[1] if len(a) > 1 else NONE))
        it.models["syncanysql.compiler.Compiler.to_sql"] = tree_text
        it.models["syncanysql.compiler.Compiler.generate_sql"] = tree_text
        it.models["sqlglot.expressions.Expression.sql"] = lambda it, a, k, n: C(self.text(a[0]))
        self.files = {}
        self.splits, self.plain = {}, {}
        for q in ("syncanysql.parser.SqlParser.split", "syncanysql.compiler.Compiler.parse_mapping"):
            try:
                it.get(q)
            except AnalysisBroken:
                continue
            it.models[q] = self.split if q.endswith("split") else self.mapped
        it.loop_bound = 1000
        it.gen_delay = True

    def real_configuration(self):
        """the engine loads its configuration, no file of which exists"""
        it = self.it
        it.models.pop("syncanysql.config.GlobalConfig.load", None)
        it.models["os.path.expanduser"] = lambda it, a, k, n: C("/home/u")
        it.models["os.getcwd"] = lambda it, a, k, n: C("/work")
        it.models["syncany.taskers.config.load_config"] = lambda it, a, k, n: it.raise_("FileNotFoundError", "", n)
        it.ext_values = {"os.environ": DictV(), "sys.path": ListV([])}

    # what a known text is split into, or is without quoted names, is found once
    def split(self, it, a, k, n):
        sql = it.getattr(a[0], "sql")
        real = lambda: it.call_func(it.get("syncanysql.parser.SqlParser.split"), a, k, n)
        if not isinstance(sql, C) or len(a) > 1 or k:
            return real()
        if sql.v not in self.splits:
            r = real()
            parts = [x.attrs for x in r.items] if isinstance(r, ListV) else []
            if not isinstance(r, ListV) or not all(set(p) == {"sql", "lineno"} and all(isinstance(v, C) for v in p.values()) for p in parts):
                return r
            self.splits[sql.v] = [(p["sql"], p["lineno"]) for p in parts]
            return r
        cls = it.get("syncanysql.parser.SqlSegment")
        return ListV([it.instantiate(cls, [x, y], {}) for x, y in self.splits[sql.v]])

    def mapped(self, it, a, k, n):
        real = lambda: it.call_func(it.get("syncanysql.compiler.Compiler.parse_mapping"), a, k, n)
        if len(a) != 2 or k or not isinstance(a[1], C) or "`" in str(a[1].v):
            return real()
        if a[1].v not in self.plain:
            self.plain[a[1].v] = real()
        return self.plain[a[1].v]

    def uuid(self, it, a, k, n):
        self.uuids += 1
        return Inst(None, {"int": C(900000 + self.uuids), "hex": C("u%d" % self.uuids)}, name="uuid")

    def globals(self, it, a, k, n):
        return it.instantiate(it.get("syncanysql.executor.EnvVariables"), [], {})

    def text(self, n):
        """SQL text of a tree: the text it was written as"""
        if isinstance(n, Inst) and n.name == "SetItem":
            kind = n.attrs["args"].cget("kind")
            eq = n.attrs["args"].cget("this")
            kind = "%s " % kind.v if isinstance(kind, C) and kind.v else ""
            return kind + self.text(eq)
        if isinstance(n, Inst) and n.name == "EQ":
            return "%s = %s" % (self.text(n.attrs["args"].cget("this")), self.text(n.attrs["args"].cget("expression")))
        if isinstance(n, Inst) and n.name == "Parameter":
            return "@" + self.text(n.attrs["args"].cget("this"))
        if isinstance(n, Inst) and n.name == "Var":
            return n.attrs["args"].cget("this").v
        if isinstance(n, Inst) and n.name == "Literal":
            a = n.attrs["args"]
            t = a.cget("this").v
            if isinstance(a.cget("is_string"), C) and a.cget("is_string").v:
                return "'%s'" % t.replace("'", "''")
            return t
        return text(n)

    # ---- trees
    def parse(self, it, a, k, n):
        sql = py(a[0])
        if not isinstance(sql, str):
            raise AnalysisBroken("statement of unknown text: %r" % (sql,))
        t = " ".join(sql.split())
        if t not in self.trees:
            it.raise_("ParseError", "statement %r" % t, n)
        return self.trees[t]()

    # ---- the library
    def database(self):
        def rows(name):
            return self.store.get(py(name), [])

        def query(name, *a):
            self.log.append(("query", py(name)))
            return Inst(None, {"commit": host(lambda *a: ListV([self.it.deepcopy(r, True) for r in rows(name)]))}, name="query")

        def delete(name, *a):
            def commit(*a):
                self.log.append(("delete", py(name)))
                self.store.pop(py(name), None)
                return NONE
            return Inst(None, {"commit": host(commit)}, name="delete")

        def insert(name, keys=None, fields=None, datas=None, *a):
            def commit(*a):
                self.store.setdefault(py(name), []).extend([datas] if isinstance(datas, DictV) else datas.items)
                return NONE
            return Inst(None, {"commit": host(commit)}, name="insert")
        d = Inst(None, {"query": host(query), "delete": host(delete), "insert": host(insert),
                        "is_streaming": host(lambda *a: C(False)), "close": host(lambda *a: NONE)}, name="database")
        d.attrs["build"] = host(lambda *a: d)
        return d

    def core(self, it, a, k, n):
        if not a or not isinstance(a[0], DictV):
            raise AnalysisBroken("tasker of %r" % (a[:1],))
        cfg = it.deepcopy(a[0], True)
        t = Inst(None, {"config": cfg, "status": DictV([(C("store_count"), C(0)), (C("load_count"), C(0))]), "name": cfg.cget("name"),
                        "schema": cfg.cget("schema"), "arguments": DictV(), "join_loaders": DictV(), "hooks": ListV([]),
                        "state": C("new")}, name="core")

        def end(which):
            ref = cfg.cget(which)
            ref = py(ref)
            head = ref.split("::")[0].split(".", 1)[-1].split(" ")[0] if isinstance(ref, str) else ""
            return Inst(None, {"name": C(head), "db": self.database(), "is_streaming": host(lambda *a: C(False)),
                               "set_streaming": host(lambda *a: NONE)}, name=which)

        def load(*a):
            t.attrs.update({"input": cfg.cget("input"), "output": cfg.cget("output")})
            return NONE

        def compile(args, *a):
            t.attrs.update({"loader": end("input"), "outputer": end("output"), "arguments": args, "state": C("compiled"),
                            "schema": cfg.cget("schema"), "databases": Inst(None, {"instance": host(lambda *a: self.database())}, name="databases")})
            return NONE

        def run_yield(*a):
            self.log.append(("run", t))
            self.perform(it, t)
            return GenV([])

        def close(*a, **k):
            t.attrs["state"] = C("closed")
            return NONE

        def hook(h, *a):
            t.attrs["hooks"].items.append(h)
            return NONE

        def terminate(*a):
            self.log.append(("terminate", t))
            return NONE
        t.attrs.update({"load": host(load), "compile": host(compile), "run_yield": host(run_yield), "close": host(close),
                        "add_hooker": host(hook), "terminate": host(terminate)})
        return t

    def perform(self, it, t):
        """what running the task does; a row of its columns by default"""
        self.write(t, [DictV([(C(k), self.value(it, v)) for k, v in self.columns(t)])])

    def columns(self, t):
        return [(k.v, v) for k, v in t.attrs["schema"].d.values()]

    def write(self, t, rows):
        name = py(t.attrs["outputer"].attrs["name"])
        if name.startswith("-."):
            self.output.append(rows)
        else:
            self.store.setdefault(name, []).extend(rows)

    def value(self, it, x):
        """value of a column of a task"""
        if isinstance(x, ListV) and x.items and isinstance(x.items[0], C):
            h = x.items[0].v
            if h == "#const":
                return x.items[1]
            if h.startswith("@current_env_variable::"):
                c = it.instantiate(it.get("syncanysql.calculaters.env_variable_calculater.CurrentEnvVariableCalculater"), [C(h[1:])], {})
                return it.call(it.getattr(c, "calculate"), [self.value(it, y) for y in x.items[1:]], {})
        if isinstance(x, C) or not isinstance(x, ListV):
            return x
        return Term("column", (x,))

    # ---- scripts
    def fresh(self, it):
        self.store, self.output, self.log, self.uuids = {}, [], [], 0
        it.concrete_ids = {}
        self.engine = it.instantiate(it.get("syncanysql.ScriptEngine"), [], {})
        it.call(it.getattr(self.engine, "setup"), [], {})
        return self.engine

    def call(self, it, obj, method, *args):
        return it.call(it.getattr(obj, method), [a if isinstance(a, V) else C(a) for a in args], {})

    def context(self, it):
        return self.call(it, self.engine, "context")


VAR = r"@(\w+)"


class Scripts(Engine):
    """statements of the small language the scripts of these checks are written in"""

    def expr(self, t):
        s, t = self.s, t.strip()
        m = re.fullmatch(VAR, t)
        if m:
            return s.node("Parameter", this=s.node("Var", this=m.group(1)))
        m = re.fullmatch(VAR + r"\s*:=\s*(.*)", t, re.S)
        if m:
            return s.node("AssignParameter", this=s.node("Var", this=m.group(1)), expression=self.expr(m.group(2)))
        if re.fullmatch(r"\d+(\.\d+)?", t):
            return s.num(t)
        if t[0] == "-":
            return s.node("Neg", this=self.expr(t[1:]))
        if re.fullmatch(r"'([^']|'')*'|\"([^\"]|\"\")*\"", t, re.S):
            return s.str(t[1:-1].replace(t[0] * 2, t[0]))
        m = re.fullmatch(r"('[^']*')\s*=\s*('[^']*')", t)
        if m:
            return s.b("EQ", self.expr(m.group(1)), self.expr(m.group(2)))
        if t.lower() in ("true", "false"):
            return s.node("Boolean", this=t.lower() == "true")
        if t.lower() == "null":
            return s.null()
        if re.fullmatch(r"\w+", t):
            return s.col(t)
        self.it.raise_("ParseError", "expression %r" % t)

    def parse(self, it, a, k, n):
        sql = py(a[0])
        if not isinstance(sql, str):
            raise AnalysisBroken("statement of unknown text: %r" % (sql,))
        s = self.s
        self.texts.append(sql)
        if " ".join(sql.split()) in self.trees:
            return self.trees[" ".join(sql.split())]()
        m = re.fullmatch(r"\s*set\s+(global\s+)?(@?\w+)\s*=\s*(.*?)\s*", sql, re.S | re.I)
        if m:
            key = self.expr(m.group(2)) if m.group(2)[0] == "@" else s.ident(m.group(2))
            kw = {"kind": "GLOBAL"} if m.group(1) else {}
            return s.node("Set", expressions=[s.node("SetItem", this=s.b("EQ", key, self.expr(m.group(3))), **kw)])
        m = re.fullmatch(r"\s*set\s+(.*)", sql, re.S | re.I)
        if m:
            return s.node("Command", this="set", expression=m.group(1))
        m = re.fullmatch(r"\s*(execute|show|explain)\s+(.*?)\s*", sql, re.S | re.I)
        if m:
            return s.node("Command", this=m.group(1), expression=s.str(m.group(2)))
        m = re.fullmatch(r"\s*use\s+`?(.*?)`?\s*", sql, re.S | re.I)
        if m:
            return s.node("Use", this=s.table(m.group(1)))
        m = re.fullmatch(r"\s*select\s+(.*?)(?:\s+as\s+(\w+))?(?:\s+into\s+" + VAR + r")?(?:\s+from\s+(\w+))?\s*", sql, re.S | re.I)
        if m:
            cols = []
            items = re.findall(r"(?:'(?:[^']|'')*'|[^,'])+", m.group(1))
            for i, x in enumerate(items):
                x, _, alias = x.partition(" as ")
                e = self.expr(x)
                alias = alias.strip() or (m.group(2) if i == len(items) - 1 else "")
                cols.append(s.alias(e, alias) if alias else e)
            kw = {}
            if m.group(3):
                kw["into"] = s.node("Into", this=s.node("Table", this=s.node("Parameter", this=s.node("Var", this=m.group(3)))))
            return s.select(cols, s.table(m.group(4)) if m.group(4) else None, **kw)
        m = re.fullmatch(r"\s*insert\s+into\s+(\w+)\s+(select.*)", sql, re.S | re.I)
        if m:
            return s.node("Insert", this=s.table(m.group(1)), expression=self.parse(it, [C(m.group(2))], {}, n))
        it.raise_("ParseError", "statement %r" % sql, n)

    def fresh(self, it):
        self.texts = []
        it.models["open"] = self.open
        return super().fresh(it)

    def open(self, it, a, k, n):
        name = py(a[0])
        if name not in self.files:
            it.raise_("FileNotFoundError", str(name), n)
        return Inst(None, {"read": host(lambda *a: C(self.files[name]))}, name="file")

    def script(self, it, level, sql):
        return self.call(it, level, "execute", sql)
