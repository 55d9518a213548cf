"""Whole statements: the compiler run abstractly on abstract SQL statements, giving the task configuration it builds."""
import os
import posixpath
import re
import urllib.parse

from sa.interp import C, DictV, Inst, ListV, NONE, Term, TupleV, V
from sa.project import AnalysisBroken
from .forms import freeze
from .sqlnodes import COMPILER, Sql, compiler_interp, new_compiler, py


OPS = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Mod": "%", "EQ": "=", "NEQ": "<>", "GT": ">", "GTE": ">=", "LT": "<",
       "LTE": "<=", "And": "AND", "Or": "OR", "Is": "IS", "Like": "LIKE"}


def text(n):
    """SQL text of a node (what sqlglot would print, near enough: equal nodes give equal text)"""
    if isinstance(n, ListV):
        return ", ".join(text(x) for x in n.items)
    if isinstance(n, C):
        return str(n.v)
    if not isinstance(n, Inst) or "args" not in n.attrs:
        return repr(n)
    a = {k.v: v for k, v in n.attrs["args"].d.values() if not (isinstance(v, C) and v.v in (None, False))}
    g = lambda k: text(a[k]) if k in a else ""
    if n.name == "Identifier":
        return g("this")
    if n.name == "Column":
        return (g("table") + "." if "table" in a else "") + g("this")
    if n.name == "Literal":
        return "'%s'" % g("this") if "is_string" in a else g("this")
    if n.name == "Star":
        return "*"
    if n.name == "Null":
        return "NULL"
    if n.name == "Boolean":
        return "TRUE" if "this" in a else "FALSE"
    if n.name == "Paren":
        return "(%s)" % g("this")
    if n.name == "Neg":
        return "-" + g("this")
    if n.name == "Not":
        return "NOT " + g("this")
    if n.name in OPS:
        return "%s %s %s" % (g("this"), OPS[n.name], g("expression"))
    if n.name == "Anonymous":
        return "%s(%s)" % (g("this").upper(), g("expressions"))
    if n.name in ("Sum", "Max", "Min", "Count", "Avg"):
        return "%s(%s)" % (n.name.upper(), g("this"))
    return "%s(%s)" % (n.name, ", ".join("%s=%s" % (k, text(v)) for k, v in sorted(a.items())))


def library(it):
    """functions of the standard library on known texts"""
    def const_fn(fn):
        def m(it, a, k, n):
            xs = [py(x) for x in a]
            if any(isinstance(x, V) for x in xs):
                return it.fresh(fn.__name__, "str")
            r = fn(*xs)
            return wrap(r)
        return m
    it.models["os.path.split"] = const_fn(posixpath.split)
    it.models["os.path.splitext"] = const_fn(posixpath.splitext)
    for f in ("sub", "escape", "split", "findall"):
        it.models["re." + f] = const_fn(getattr(re, f))
    for f in ("isabs", "normpath", "expanduser"):
        it.models["os.path." + f] = const_fn(getattr(posixpath, f))
    it.models["os.path.realpath"] = const_fn(lambda p: posixpath.normpath(posixpath.join("/cwd", p)))
    for f in ("unquote", "parse_qsl", "parse_qs"):
        it.models["urllib.parse." + f] = const_fn(getattr(urllib.parse, f))
    it.models["os.path.dirname"] = const_fn(posixpath.dirname)
    it.models["os.path.basename"] = const_fn(posixpath.basename)
    it.models["os.path.join"] = const_fn(posixpath.join)
    it.models["os.path.abspath"] = const_fn(lambda p: posixpath.normpath(posixpath.join("/cwd", p)))
    it.models["os.getcwd"] = lambda it, a, k, n: C("/cwd")
    it.models["urllib.parse.unquote_plus"] = const_fn(urllib.parse.unquote_plus)

    def urlparse(it, a, k, n):
        try:
            u = urllib.parse.urlparse(py(a[0]))
        except ValueError as e:
            it.raise_("ValueError", str(e), n)
        return Inst(None, {f: C(getattr(u, f)) for f in ("scheme", "netloc", "path", "query", "fragment", "params")}, name="url")
    it.models["urllib.parse.urlparse"] = it.models["urllib.parse.urlsplit"] = urlparse


class World:
    """one compiler on one abstract statement per explored path"""

    def __init__(self, ctx, mapping=()):
        self.ctx = ctx
        self.it, self.s = compiler_interp(ctx)
        it = self.it
        self.uuids = 0
        self.mapping = dict(mapping)

        def sql_text(it, a, k, n):
            x = a[1] if len(a) > 1 else NONE
            return C(text(x))
        it.models[COMPILER + ".to_sql"] = sql_text
        it.models[COMPILER + ".generate_sql"] = sql_text
        it.models["uuid.uuid1"] = lambda it, a, k, n: self.uuid(it)
        library(it)

    def uuid(self, it):
        self.uuids += 1
        return Inst(None, {"int": C(900000 + self.uuids), "hex": C("u%d" % self.uuids)}, name="uuid")

    def fresh(self, it):
        self.uuids = 0
        self.comp = new_compiler(it)
        self.comp.attrs["mapping"] = DictV([(C(k), C(v)) for k, v in self.mapping.items()])
        cfg = Inst(it.get("syncanysql.config.SessionConfig"), {}, name="session_config")
        it.models["syncanysql.config.SessionConfig.create_tasker_config"] = lambda it, a, k, n: DictV()
        self.comp.attrs["config"] = cfg
        env = it.fresh("env_variables")
        self.comp.attrs["env_variables"] = env
        it.method_models["get_value"] = lambda it, a, k, n: it.fresh("variable value", "str")
        self.args = DictV()

    def call(self, it, method, *args):
        return it.call(it.getattr(self.comp, method), list(args), {})


def wrap(r):
    if isinstance(r, tuple):
        return TupleV([wrap(x) for x in r])
    if isinstance(r, list):
        return ListV([wrap(x) for x in r])
    if isinstance(r, dict):
        return DictV([(wrap(k), wrap(v)) for k, v in r.items()])
    return C(r)


def run(ctx, it, rule, construct, entry, where, raises=None):
    """entry(it) -> '' when the obligation holds, else what is wrong.
    raises: names of exception classes every path must end with (None: no path may raise)"""
    bad, n = None, 0
    for r in it.explore(entry):
        n += 1
        if r.kind == "raise":
            name = r.exc_name().split(".")[-1]
            if raises is None or name not in raises:
                bad = bad or "raises %s%s" % (name, "" if raises is None else " instead of " + "/".join(raises))
        elif raises is not None:
            bad = bad or "is accepted, expected %s%s" % ("/".join(raises), ": " + r.value if r.value else "")
        elif r.value:
            bad = bad or r.value
    if not n:
        bad = "no path"
    ctx.ob(rule, construct, not bad, bad or "", where)


def at(ctx, it, method):
    f = it.get(COMPILER + "." + method)
    return "%s:%d" % (ctx.project.relpath(f.module.mod), f.node.lineno)


# ---- what a compiled statement does, with generated names made comparable
PROCESSING = ("querys", "predicate", "intercept", "orders", "pipelines", "aggregate", "loader", "loader_arguments", "states", "defines")


class Plan:
    """a task configuration with the arguments it runs with and its dependencies' plans (as QueryTasker.start hands them)"""

    def __init__(self, cfg, args):
        self.cfg, self.args = cfg, args
        self.deps = []
        for d in cfg.get("dependencys") or []:
            if not isinstance(d, dict):
                raise AnalysisBroken("dependency is not a configuration: %r" % (d,))
            p = d["name"] + "@"
            self.deps.append(Plan(d, {k[len(p):]: v for k, v in args.items() if k.startswith(p)}))

    def own(self):
        """arguments of this task that differ from the default (@primary_order only disables a read order)"""
        return {k: v for k, v in self.args.items() if k.startswith("@") and v not in (None, 0, False) and k != "@primary_order"}

    def io(self, side):
        """(table, key, mode) of the input or output"""
        table, _, rest = str(self.cfg.get(side)).partition("::")
        key, _, mode = rest.partition(" use ")
        return table, key, mode

    def body(self, output=False, input=True):
        out = {k: v for k, v in self.cfg.items() if k not in ("name", "dependencys", "output", "input", "extends", "databases")
               and v not in (None, [], {}, False)}
        out["databases"] = sorted(map(repr, self.cfg.get("databases") or []))
        if input:
            out["input"] = self.io("input")[0]
            out["input key"] = self.io("input")[1]
        if output:
            out["output"] = self.cfg["output"]
        out["output key"] = self.io("output")[1]
        out["arguments"] = self.own()
        out["dependencys"] = [dict(d.body(), to=d.io("output")[0], mode=d.io("output")[2]) for d in self.deps]
        return out

    def canon(self, **kw):
        return alpha(dump(self.body(**kw)))

    def plain(self):
        """nothing happens to the rows but the choice of columns"""
        return not any(self.cfg.get(k) for k in PROCESSING) and not self.args.get("@limit")

    def columns(self):
        return list(self.cfg["schema"]) if isinstance(self.cfg.get("schema"), dict) else None


def dump(x):
    if isinstance(x, dict):
        items = [(k if isinstance(k, str) else repr(k), dump(v)) for k, v in x.items()]
        return "{" + ", ".join("%s: %s" % kv for kv in sorted(items)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(dump(y) for y in x) + "]"
    if isinstance(x, Inst):
        return text(x)
    return repr(x)


def alpha(s):
    seen = {}

    def sub(m):
        return seen.setdefault(m.group(0), "#%d" % len(seen))
    return re.sub(r"\b9\d{5}\b|(?<=_)9\d{5}(?=_|\b)", sub, s)


def diff(a, b):
    """first difference of two canonical texts, in context"""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "%s<>%s" % (a[max(0, i - 30):i + 50], b[max(0, i - 10):i + 50])
