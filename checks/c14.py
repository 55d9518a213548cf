"""C14: settings.

The configuration files, the custom configuration and histories of SET @config..., SET GLOBAL @config... and use() given to an engine,
its contexts and files they execute are run abstractly.  The settings every task is compiled with (what it reads from
context://session/config) must be those of a layered merge of the sources."""
import itertools
import json

from sa.interp import C, DictV, Inst, ListV, NONE, Term, TupleV, V
from .engine import Scripts
from .sqlnodes import py
from .stmt import run, wrap

EXPLANATION = __doc__
SECTIONS = ("arguments", "imports", "sources", "defines", "variables", "options", "logger")
NAMED = ("databases", "caches")
HOME, CWD = "/home/u/.syncany", "/cwd"
VIEW = "select * from t where a > #{a__gt:5}"


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


FUNCTION, MODULE = Opaque("function"), Opaque("module")


def plain(v):
    """python value of an abstract one"""
    if isinstance(v, C):
        return v.v
    if isinstance(v, (ListV, TupleV)):
        return [plain(x) for x in v.items]
    if isinstance(v, DictV):
        return {plain(k): plain(x) for k, x in v.d.values()}
    if isinstance(v, Inst) and isinstance(v.attrs.get("opaque"), Opaque):
        return v.attrs["opaque"]
    return repr(v)


# ---- the layered merge
def merge(base, new):
    """settings of `new` over those of `base`"""
    out = dict(base)
    for k, v in new.items():
        if k in SECTIONS:
            out[k] = dict(out.get(k, {}), **v)
        elif k in NAMED:
            items = [dict(x) for x in out.get(k, [])]
            for d in v:
                for x in items:
                    if x["name"] == d["name"]:
                        x.update(d)
                        break
                else:
                    items.append(dict(d))
            out[k] = items
        elif k in ("states", "executes"):
            out[k] = list(out.get(k) or []) + (list(v) if isinstance(v, list) else [v])
        else:
            out[k] = v
    return out


class Level:
    def __init__(self, parent=None):
        self.own, self.parent = {}, parent

    def settings(self):
        return merge(self.parent.settings(), self.own) if self.parent is not None else merge({}, self.own)

    def set(self, key, value):
        key = key.split(".") if isinstance(key, str) else list(key)
        if len(key) == 1:
            if value is None:
                self.own.pop(key[0], None)
            else:
                self.own[key[0]] = value
            return
        if key[0] != "databases":
            sec = self.own.setdefault(key[0], {})
            if value is None:
                sec.pop(key[1], None)
            else:
                sec[key[1]] = parsed(value) if key[0] in ("defines", "variables", "options") else value
            return
        dbs = self.own.setdefault("databases", [])
        db = next((d for d in dbs if d["name"] == key[1]), None)
        if len(key) == 2:
            if value is None:
                if db is not None:
                    dbs.remove(db)
                return
            new = dict({"name": key[1]}, **json.loads(value))
            if db is None:
                dbs.append(new)
            else:
                dbs[dbs.index(db)] = new
            return
        if db is None:
            db = {"name": key[1]}
            dbs.append(db)
        if len(key) == 4:
            views = [dict(v) for v in db.get("virtual_views", []) if v["name"] != key[3]]
            at = next((i for i, v in enumerate(db.get("virtual_views", [])) if v["name"] == key[3]), len(views))
            if value is not None:
                views.insert(at, {"name": key[3], "query": value.replace("#{a__gt:5}", "%s"),
                                  "args": [["a", ">", 5]] if "#{" in value else []})
            db["virtual_views"] = views
        elif value is None:
            db.pop(key[2], None)
        else:
            db[key[2]] = parsed(value)


def parsed(value):
    if not isinstance(value, str):
        return value
    try:
        return json.loads(value)
    except ValueError:
        return value


# ---- the engine
class Settings(Scripts):
    def __init__(self, ctx):
        super().__init__(ctx)
        it = self.it
        for q in ("load", "load_extensions"):
            it.models.pop("syncanysql.config.GlobalConfig." + q, None)
        it.models.update({
            "syncany.taskers.config.load_config": self.load_file,
            "os.path.expanduser": lambda it, a, k, n: C("/home/u"),
            "os.path.exists": lambda it, a, k, n: C(py(a[0]) in self.files or py(a[0]) in self.configs or py(a[0])[:5] == "/lib/"),
            "os.path.isdir": lambda it, a, k, n: C(True),
            "syncany.utils.set_timezone": lambda it, a, k, n: NONE,
            "pytz.timezone": lambda it, a, k, n: it.fresh("timezone"),
            "copy.deepcopy": self.deepcopy,
            "json.loads": self.loads,
            "builtins.__import__": lambda it, a, k, n: NONE,
        })
        self.configs, self.loaded = {}, []
        self.seen = None

    def deepcopy(self, it, a, k, n):
        def walk(v):
            if isinstance(v, Inst) and v.attrs.get("opaque") is MODULE:
                it.raise_("TypeError", "cannot pickle 'module' object", n)
            for x in v.items if isinstance(v, (ListV, TupleV)) else [x for _, x in v.d.values()] if isinstance(v, DictV) else []:
                walk(x)
        walk(a[0])
        return it.deepcopy(a[0], True)

    def load_file(self, it, a, k, n):
        name = py(a[0])
        self.loaded.append(name)
        if name not in self.configs:
            it.raise_("FileNotFoundError", str(name), n)
        return wrap(self.configs[name])

    def loads(self, it, a, k, n):
        t = py(a[0])
        if not isinstance(t, str):
            it.raise_("TypeError", "the JSON object must be str", n)
        try:
            return wrap(json.loads(t))
        except ValueError as e:
            it.raise_("json.decoder.JSONDecodeError", str(e), n)

    def opaque(self, o):
        return Inst(None, {"opaque": o}, name=o.name)

    def core(self, it, a, k, n):
        """a task reads the settings when it is compiled"""
        t = super().core(it, a, k, n)
        if self.seen is not None:
            self.seen.append(self.read(it))
        return t

    def read(self, it):
        """what a task of the current executor reads"""
        out = {}
        for name in ("context://session/config", "context://session/config/encoding"):
            reader = it.instantiate(it.get("syncanysql.executor.ContextConfigReader"), [C(name)], {})
            got = it.call(it.getattr(reader, "read"), [], {}).items[1]
            out.update(plain(got))
            it.dict_method(got, "pop", [C("extends"), NONE], {})
        return out


def world(w, it, custom=None):
    w.store, w.output, w.log, w.uuids, w.texts = {}, [], [], 0, []
    it.models["open"] = w.open
    w.loaded, w.seen = [], None
    it.ext_values = {"os.environ": DictV(), "sys.path": ListV([])}
    cls = it.get("syncanysql.ScriptEngine")
    w.engine = it.instantiate(cls, [custom] if custom is not None else [], {})
    it.call(it.getattr(w.engine, "setup"), [], {})
    return w.engine


KEYS = ("databases", "caches", "imports", "sources", "defines", "variables", "options", "encoding")


def view(settings):
    """settings a task is compiled with"""
    d = {k: settings[k] for k in KEYS if settings.get(k)}
    if "databases" in d:
        d["databases"] = sorted(d["databases"], key=lambda x: str(x["name"]))
    return d


FAMILIES = {
    "imports": [("imports.k", "'m1'"), ("imports.k", "'m2'"), ("imports.k", "null"), ("imports.j", "'m3'"), ("use:k", FUNCTION), ("use:k", MODULE)],
    "database": [("databases.d", "'{\"driver\": \"csv\", \"a\": 1}'"), ("databases.d", "'{\"driver\": \"json\", \"b\": 2}'"), ("databases.d.a", "5"),
                 ("databases.d.a", "'text'"), ("databases.d.a", "'[1, {\"z\": null}]'"), ("databases.d", "null"), ("databases.e.c", "'x'")],
    "view": [("databases.d.virtual_views.v", "'%s'" % VIEW), ("databases.d.virtual_views.v", "'select 1'"), ("databases.d.virtual_views.w", "'select 2'"),
             ("databases.d.a", "1")],
    "section": [("options.o", "1"), ("options.o", "'text'"), ("options.o", "null"), ("options.p", "'{\"x\": 1}'"), ("defines.o", "'d'")],
    "scalar": [("encoding", "'gbk'"), ("encoding", "'big5'"), ("encoding", "null")],
}
LEVELS = ("global", "engine", "one", "two", "file")


def literal(text):
    if text == "null":
        return None
    if text[0] == "'":
        return text[1:-1]
    return int(text)


def steps(ops, levels=LEVELS):
    return [(lv, k, v) for lv in levels for k, v in ops if not (k.startswith("use:") and lv in ("global", "file"))]


def scripts(ctx):
    """histories run on the engine"""
    for fam, ops in FAMILIES.items():
        for a in steps(ops):
            yield (a,)
        if ctx.tier == "thorough":
            for a, b in itertools.product(steps(ops[:2]), steps(ops[:1])):
                yield a, b
    yield ("engine", "use:k", FUNCTION), ("one", "use:k", MODULE), ("engine", "imports.k", "'m1'")
    yield ("one", "databases.d.a", "5"), ("file", "databases.d.a", "6"), ("global", "databases.d.a", "7")


def histories(ctx):
    """histories run on the settings alone"""
    n = 3 if ctx.tier == "thorough" else 2
    for fam, ops in FAMILIES.items():
        yield from itertools.product(steps(ops, LEVELS[:4]), repeat=2)
        if n == 3:
            yield from itertools.product(steps(ops[:3], LEVELS[:3]), repeat=3)
    mixed = steps((("imports.k", "'m1'"), ("databases.d.a", "5"), ("options.o", "1"), ("encoding", "'gbk'"), ("use:f", FUNCTION)), LEVELS[:3])
    yield from itertools.product(mixed, repeat=2)


def sql_of(step):
    lv, k, v = step
    return "set %s@config.%s = %s" % ("global " if lv == "global" else "", k, v)


def levels():
    base = Level()
    base.own = {"databases": [{"name": "-", "driver": "textline"}, {"name": "--", "driver": "memory"}]}
    eng = Level(base)
    return {"global": base, "engine": eng, "one": Level(eng), "two": Level(eng)}


def check_histories(ctx, w):
    where = "syncanysql/config.py"
    it = w.it

    def entry(it):
        w.files, w.configs = {}, {}
        world(w, it)
        one, two = w.context(it), w.context(it)
        real = {"engine": w.engine, "one": one, "two": two}
        lv = levels()

        def differ(tag, want):
            seen, w.seen = [view(x) for x in w.seen], None
            return "" if seen == [want] else "%s: the task gets %r, not %r" % (tag, seen, want)

        def read(tag):
            for name in ("engine", "one", "two"):
                w.seen = []
                w.script(it, real[name], "select 1 as r")
                bad = differ(tag + name, view(lv[name].settings()))
                if bad:
                    return bad
            w.seen = []
            w.files["/cwd/read.sql"] = "select 1 as r"
            w.script(it, one, "execute /cwd/read.sql")
            return differ(tag + "a file executed by one", view(lv["one"].settings()))

        if between:
            bad = read("at first: ")
            if bad:
                return bad
        for i, (level, k, v) in enumerate(h):
            if k.startswith("use:"):
                w.call(it, real[level], "use", C(k[4:]), w.opaque(v))
                lv[level].set(("imports", k[4:]), v)
            elif level == "file":
                w.files["/cwd/op.sql"] = sql_of(h[i]) + "; select 1 as r"
                f = Level(lv["one"])
                f.set(k, literal(v))
                w.seen = []
                w.script(it, one, "execute /cwd/op.sql")
                bad = differ("in the file of step %d" % (i + 1), view(f.settings()))
                if bad:
                    return bad
            else:
                w.script(it, real["one" if level == "global" else level], sql_of(h[i]))
                lv[level].set(k, literal(v))
            if between or i == len(h) - 1:
                bad = read("after step %d: " % (i + 1))
                if bad:
                    return bad
        return ""

    between = True
    for h in scripts(ctx):
        run(ctx, it, "scripts", title(h), entry, where)


def title(h):
    return "; ".join("%s: %s" % (s[0], sql_of(s) if not s[1].startswith("use:") else "use(%s, %r)" % (s[1][4:], s[2])) for s in h)


def check_objects(ctx, w):
    it = w.it

    def entry(it):
        w.files, w.configs = {}, {}
        world(w, it)
        contexts = {"engine": it.getattr(w.engine, "executor")}
        for name in ("one", "two"):
            contexts[name] = it.getattr(w.context(it), "executor")
        lv = levels()

        def read(tag):
            for name, x in contexts.items():
                it.call(it.getattr(x, "__enter__"), [], {})
                got = view(w.read(it))
                it.call(it.getattr(x, "__exit__"), [NONE, NONE, NONE], {})
                want = view(lv[name].settings())
                if got != want:
                    return "%s%s: the task gets %r, not %r" % (tag, name, got, want)
            return ""

        bad = read("at first: ") if between else ""
        for i, (level, k, v) in enumerate(h):
            x = contexts["one" if level == "global" else level]
            settings = it.getattr(x, "session_config")
            if k.startswith("use:"):
                it.call(it.getattr(settings, "set"), [TupleV([C("imports"), C(k[4:])]), w.opaque(v)], {})
                lv[level].set(("imports", k[4:]), v)
            else:
                cfg = DictV([(C("key"), C(("global " if level == "global" else "") + "@config." + k)), (C("value"), C(v))])
                t = it.instantiate(it.get("syncanysql.taskers.set.SetCommandTasker"), [cfg], {})
                it.call(it.getattr(t, "start"), [C("t"), x, settings, NONE, DictV()], {})
                lv[level].set(k, literal(v))
            if between or i == len(h) - 1:
                bad = bad or read("after step %d: " % (i + 1))
        return bad

    for h in histories(ctx):
        for between in (True, False) if ctx.tier == "thorough" or len({k for _, k, _ in h}) > 1 and h[0][0] == "one" else (True,):
            run(ctx, it, "layers", title(h) + ("" if between else " (read at the end)"), entry, "syncanysql/config.py")


# ---- where settings are loaded from
FILES = ["%s/config.%s" % (d, e) for d in (HOME, CWD) for e in ("json", "yaml")]


def source(tag):
    """settings of one source: each overrides the others in part"""
    return {"encoding": tag, "imports": {"k": tag, "k" + tag: tag}, "options": {"o": tag, "o" + tag: 1}, "defines": {"f": ["#const", tag]},
            "sources": {"s": tag}, "variables": {"v": tag}, "logger": {"l" + tag: {}},
            "databases": [{"name": "d", "driver": "mysql", "host": tag, "h" + tag: 1}, {"name": "d" + tag, "driver": "memory"}],
            "caches": [{"name": "c", "database": tag}], "executes": [tag + ".sql"], "states": [tag], "timezone": "Etc/" + tag,
            "pypackage_paths": ["/lib/" + tag], "date_format": "%Y" + tag}


class Load:
    def __init__(self, files, custom):
        self.files, self.custom = files, custom

    def merged(self, cfg, name):
        own = dict(self.files[name])
        ext = own.pop("extends", [])
        for e in ext if isinstance(ext, list) else [ext]:
            cfg = self.merged(cfg, e)
        return merge(cfg, own)

    def result(self):
        cfg = {"databases": [], "caches": []}
        for f in FILES:
            if f in self.files:
                cfg = self.merged(cfg, f)
        if self.custom:
            cfg = merge(cfg, self.custom)
        names = [d["name"] for d in cfg["databases"]]
        for name, driver in (("-", "textline"), ("--", "memory")):
            if name not in names:
                cfg["databases"].append({"name": name, "driver": driver})
        for d in cfg["databases"]:
            if d["name"] == "--" and d["driver"] == "redis":
                for k, v in (("prefix", "syncany:900001:"), ("serialize", "pickle"), ("ignore_serialize_error", True), ("expire_seconds", 900)):
                    d.setdefault(k, v)
            if d["driver"] in ("textline", "json", "csv"):
                for k in ("encoding", "datetime_format", "date_format", "time_format"):
                    if cfg.get(k):
                        d[k] = cfg[k]
        executes = [HOME + "/" + x if x.startswith("home") else x for x in cfg.pop("executes", [])]
        return cfg, executes


def loads(ctx):
    tags = dict(zip(FILES, ("homejson", "homeyaml", "cwdjson", "cwdyaml")))
    for n in range(len(FILES) + 1):
        for fs in itertools.combinations(FILES, n):
            files = {f: source(tags[f]) for f in fs}
            yield files, None
            yield files, source("custom")
    base, second = CWD + "/base.json", CWD + "/second.json"
    for f in FILES:
        for ext in ([base], base, [base, second], [second, base]):
            yield {f: dict(source(tags[f]), extends=ext), base: source("base"), second: source("second")}, source("custom")
        yield {f: dict(source(tags[f]), extends=[base]), base: dict(source("base"), extends=second), second: source("second")}, None
        yield {f: {"extends": [base]}, base: source("base")}, None
    for custom in ({"databases": [{"name": "-", "driver": "json"}]}, {"databases": [{"name": "--", "driver": "redis"}]},
                   {"databases": [{"name": "--", "driver": "redis", "prefix": "p:", "expire_seconds": 5}]},
                   {"databases": [{"name": n, "driver": n} for n in ("json", "csv", "textline", "mysql", "execl")], "encoding": "gbk",
                    "datetime_format": "a", "date_format": "b", "time_format": "c"},
                   {"executes": "home.sql"}, {"states": "x"}, {"loglevel": "INFO"}, {"pypackage_paths": "/lib/one"},
                   {"pypackage_paths": ["/none", "/lib/two", "/lib/one"]}, {}):
        yield {}, custom
        yield {FILES[2]: source("cwdjson")}, custom


def check_loads(ctx, w):
    it = w.it

    def entry(it):
        w.loaded, w.uuids, w.seen = [], 0, None
        w.configs = files
        w.files = {e: "" for e in want_executes}
        path = ListV([])
        it.ext_values = {"os.environ": DictV(), "sys.path": path}
        zone = []
        it.models["pytz.timezone"] = lambda it, a, k, n: a[0]
        it.models["syncany.utils.set_timezone"] = lambda it, a, k, n: zone.append(plain(a[0])) or NONE
        given = wrap(custom) if custom is not None else NONE
        g = it.instantiate(it.get("syncanysql.config.GlobalConfig"), [], {})
        executes = it.call(it.getattr(g, "load"), [given], {})
        got = plain(it.call(it.getattr(g, "get"), [], {}))
        for k in sorted(set(want) | set(got) & set(KEYS)):
            if got.get(k) != want.get(k) and (got.get(k) or want.get(k)):
                return "%s is %r, not %r" % (k, got.get(k), want.get(k))
        if plain(executes) != want_executes:
            return "scripts to execute are %r, not %r" % (plain(executes), want_executes)
        libs = want.get("pypackage_paths", [])
        libs = [libs] if isinstance(libs, str) else libs
        if [x for x in plain(path) if x != HOME] != [x for x in libs if x != "/none"]:
            return "the Python path gets %r, not %r" % (plain(path), libs)
        if zone != ([want["timezone"]] if "timezone" in want else []):
            return "the timezone becomes %r" % (zone,)
        session = it.call(it.getattr(g, "session"), [], {})
        for k, v in (("databases.d.host", "changed"), ("imports.k", "changed"), ("databases.new.driver", "x"), ("options.o", "changed")):
            it.call(it.getattr(g, "set"), [C(k), C(v)], {})
            it.call(it.getattr(session, "get"), [], {})
        if custom is not None and plain(given) != custom:
            return "the caller's configuration becomes %r" % (plain(given),)
        return ""

    for files, custom in loads(ctx):
        want, want_executes = Load(files, custom).result()
        text = "%s%s" % (", ".join(f + (" extends %s" % files[f]["extends"] if "extends" in files[f] else "") for f in sorted(files)) or "no file",
                         "" if custom is None else " and %r" % (custom if len(custom) < 8 else "custom",))
        run(ctx, it, "sources", text, entry, "syncanysql/config.py")


def check(ctx):
    ctx.rule("scripts", "every task of a script is compiled with the settings of its level, those of nearer levels first")
    ctx.rule("layers", "the settings a level's tasks read are those of the levels around it, the nearest first, after every history of changes")
    w = Settings(ctx)
    check_histories(ctx, w)
    check_objects(ctx, w)
    ctx.rule("sources", "files of the home and the working directory, what they extend and the given configuration are merged in order")
    check_loads(ctx, w)
