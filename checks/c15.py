"""C15: variables.

Histories of writes (set_variable, SET, SET GLOBAL, SELECT ... INTO, `:=`, files executed) at the levels of a program (engine, two of
its contexts, files) run on the engine abstractly.  After each history every level must read, through every way of reading
(get_variable, `@x`, `${@x}`), the value a dictionary layered by the scopes gives, with the SETs of a script applied when it is
compiled.  The value a SET stores is decided for each form of literal."""
import itertools

from sa.interp import C, NONE
from .engine import Scripts
from .sqlnodes import py
from .stmt import run

EXPLANATION = __doc__
UNSET = ("unset",)


class Layer(dict):
    def __init__(self, parent=None):
        self.parent = parent

    def read(self, name):
        for key in ("@" + name, name):
            if key in self:
                return self[key]
        return self.parent.read(name) if self.parent is not None else UNSET


class Oracle:
    """what a script writes and reads"""

    def __init__(self, files):
        self.glob = Layer()
        self.files = files
        self.levels = {"engine": Layer(self.glob)}
        self.levels["one"] = Layer(self.levels["engine"])
        self.levels["two"] = Layer(self.levels["engine"])

    def run(self, level, sql):
        """values the SELECTs of the script give"""
        todo = self.compile(self.levels[level], sql)
        out = []
        for t in todo:
            t(out)
        return out

    def compile(self, layer, sql):
        todo = []
        for st in sql.split(";"):
            w = st.split()
            if not w:
                continue
            if w[0] == "set":
                target = self.glob if w[1] == "global" else layer
                name, _, value = st.split("global" if w[1] == "global" else "set", 1)[1].strip().partition("=")
                value = value.strip()
                if value[0] == "@":
                    todo.append(self.into(layer, name.strip(), value))
                else:
                    target[name.strip()] = int(value)
            elif w[0] == "execute":
                child = Layer(layer)
                sub = self.compile(child, self.files[w[1].strip("`")])
                todo.extend(sub)
            elif "into" in w:
                layer.setdefault(w[-1], None)
                todo.append(self.into(layer, w[-1], w[1]))
            else:
                todo.append(self.select(layer, st.split("select", 1)[1].rsplit(" as ", 1)[0].strip()))
        return todo

    def value(self, layer, x):
        if ":=" in x:
            name, _, v = x.partition(":=")
            layer[name.strip()] = self.value(layer, v.strip())
            return layer[name.strip()]
        if x[0] == "@":
            v = layer.read(x[1:])
            return None if v is UNSET else v
        return int(x)

    def into(self, layer, name, x):
        layer.setdefault(name, None)

        def go(out):
            layer[name] = self.value(layer, x)
        return go

    def select(self, layer, x):
        return lambda out: out.append(self.value(layer, x))


FILES = {"set.sql": "set @x = 91; select @x as v", "into.sql": "select @x as v; select 92 as v into @x; select @x as v",
         "global.sql": "set global @x = 93", "nested.sql": "set @x = 94; execute `into.sql`; select @x as v",
         "assign.sql": "select @x := 95 as v"}
WRITES = ["set @x = %d", "select %d as v into @x", "set global @x = %d", "set x = %d"]
LEVELS = ("engine", "one", "two")


def operations(ctx):
    ops = [(l, "api", None) for l in LEVELS]
    ops += [(l, "script", w) for l in ("engine", "one") for w in WRITES]
    ops += [(l, "script", "execute `%s`" % f) for l in ("engine", "one") for f in sorted(FILES)]
    ops += [("one", "script", "select @x := %d as v"), ("two", "script", "set @x = @y"), ("one", "script", "set @x = @x")]
    return ops


def check(ctx):
    ctx.rule("layers", "every level reads what the last write of the nearest scope stored, another variable nothing")
    ctx.rule("script", "the statements of a script read, in order, what those before them wrote")
    ctx.rule("literal", "a SET stores the literal written, text for text")
    ctx.rule("text", "${name:default} stands for the variable's value, or the default, when the statement is compiled")
    e = Scripts(ctx)
    it = e.it
    where = "syncanysql/executor.py"
    e.files = dict(FILES)
    levels = {}

    def start(it):
        e.fresh(it)
        levels.clear()
        levels["engine"] = e.engine
        levels["one"], levels["two"] = e.context(it), e.context(it)
        return Oracle(FILES)

    def outputs():
        out = []
        for rows in e.output:
            for r in rows:
                out.extend(v for v in py(r).values())
        e.output.clear()
        return out

    def reads(it, o):
        for l in LEVELS:
            for name in ("x", "@x", "y"):
                want = o.levels[l].read(name.lstrip("@"))
                got = py(e.call(it, levels[l], "get_variable", name, "default"))
                if got != ("default" if want is UNSET else want):
                    return "%s.get_variable(%r) gives %r, expected %r" % (l, name, got, "default" if want is UNSET else want)
            e.script(it, levels[l], "select @x as v")
            want = o.levels[l].read("x")
            got = outputs()
            if got != [None if want is UNSET else want]:
                return "select @x gives %r at %s, expected %r" % (got, l, want)
            got = []
            e.texts.clear()
            e.script(it, levels[l], "select '${@x:none}' as v")
            want = {UNSET: "none", None: "null"}.get(want, str(want))
            if e.texts != ["select '%s' as v" % want]:
                return "${@x:none} becomes %r at %s, expected %r" % (e.texts, l, want)
            e.output.clear()
        return ""

    def history(ops):
        def entry(it):
            o = start(it)
            for i, (level, kind, op) in enumerate(ops):
                if kind == "api":
                    e.call(it, levels[level], "set_variable", "x" if i % 2 else "@x", 10 + i)
                    o.levels[level]["@x"] = 10 + i
                    continue
                sql = op % (10 + i) if "%d" in op else op
                e.script(it, levels[level], sql)
                want, got = o.run(level, sql), outputs()
                if want != got:
                    return "%s at %s reads %r, expected %r" % (sql, level, got, want)
            return reads(it, o)
        return entry

    def name(ops):
        return "; then ".join("%s: %s" % (l, "set_variable" if k == "api" else op.replace("%d", "N")) for l, k, op in ops)

    ops = operations(ctx)
    for n in (0, 1, 2):
        for h in itertools.product(ops, repeat=n):
            run(ctx, it, "layers", name(h) or "nothing written", history(h), where)
            ctx.count("histories")
    if ctx.thorough:
        for h in itertools.product([o for o in ops if o[0] != "two"], repeat=3):
            run(ctx, it, "layers", name(h), history(h), where)
            ctx.count("histories")

    # ---- statements of one script
    parts = ["set @x = 1", "set @x = 2", "select 3 as v into @x", "set @x = @y", "select @x := 4 as v", "select @x as v",
             "select 5 as v into @y", "execute `nested.sql`", "set global @x = 6"]
    for n in (2, 3):
        for sts in itertools.product(parts, repeat=n):
            if n == 3 and not ctx.thorough and (len(set(sts)) < 3 or "select @x as v" not in sts[1:]):
                continue
            sql = "; ".join(sts) + "; select @x as v"

            def entry(it):
                o = start(it)
                e.script(it, levels["one"], sql)
                want, got = o.run("one", sql), outputs()
                return "" if want == got else "gives %r, expected %r" % (got, want)
            run(ctx, it, "script", sql, entry, where)

    # ---- literals
    for text, value in {"1": 1, "0": 0, "007": 7, "12.5": 12.5, "-3": -3, "-1.5": -1.5, "true": True, "FALSE": False, "null": None,
                        "''": "", "'a'": "a", "' a '": " a ", "'1'": "1", "'true'": "true", "'null'": "null", "'it''s'": "it's",
                        '"a"': "a", '"it\'s"': "it's", "'a=b'": "a=b", "'='": "=", "'a, b'": "a, b", "'\u00e9'": "\u00e9",
                        "'\"a\"'": '"a"', "'''a'''": "'a'", "'{\"a\": [1, 2]}'": '{"a": [1, 2]}', "'a\nb'": "a\nb"}.items():
        for st in ("set @x = %s", "set @x=%s", "set global @x = %s", "SET x = %s"):
            def entry(it):
                start(it)
                e.script(it, levels["one"], st % text)
                got = py(e.call(it, levels["one"], "get_variable", "x", "default"))
                if got != value or type(got) is not type(value):
                    return "stores %r, expected %r" % (got, value)
                other = py(e.call(it, levels["two"], "get_variable", "x", "default"))
                want = value if "global" in st else "default"
                return "" if other == want else "gives another context %r, expected %r" % (other, want)
            run(ctx, it, "literal", st % text, entry, "syncanysql/taskers/set.py")

    # ---- text
    values = {"int": 5, "negative": -5, "text": "a b", "empty": "", "none": None, "true": True, "false": False, "list": [1, "b", None],
              "nested": "${@y:d}"}
    for what, v in values.items():
        for st, want in {"select '${@x}' as v": "select '%s' as v", "select ${@x:7} as v": "select %s as v",
                         "select '${@x:q}', '${@x:p}' as v": "select '%s', '%s' as v",
                         "select '${@nosuch:x y}' as v": "select 'x y' as v", "select '${@nosuch}' as v": "select '' as v",
                         "select '$ {@x}' as v": "select '$ {@x}' as v", "select '${@nosuch:}' as v": "select '' as v"}.items():
            if "7}" in st and what in ("text", "empty", "list", "nested"):
                continue

            def entry(it):
                start(it)
                from .stmt import wrap
                e.call(it, levels["one"], "set_variable", "x", wrap(v))
                shown = {None: "null", True: "true", False: "false"}.get(v if not isinstance(v, (list, int)) or isinstance(v, bool) else "n", None)
                if isinstance(v, list):
                    shown = "(1,b,null)"
                elif shown is None:
                    shown = str(v)
                e.script(it, levels["one"], st)
                w = want.replace("%s", shown)
                return "" if e.texts == [w] else "becomes %r, expected %r" % (e.texts, w)
            run(ctx, it, "text", "%s: %s" % (what, st), entry, where)
    ctx.count("levels", len(LEVELS))
