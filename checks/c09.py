"""C09: the conditions handed to the loader and the condition evaluated on each row are together the WHERE (or ON)
condition.

`Compiler.compile_select` is interpreted abstractly on statements whose WHERE condition ranges over every comparison, every
kind of operand and trees of AND/OR/parentheses/NOT.  The comparisons it puts in `querys` and the row condition it puts in
`predicate` must conjoin to exactly the condition written, every value handed to the loader must not depend on the row and
not be a NULL constant, and a column must not be given two conditions the loader would merge or overwrite.
`Compiler.parse_on_condition` is analysed the same way: join keys, loader conditions and row conditions of a join must
conjoin to exactly the ON condition."""
import itertools

from sa.interp import C, DictV, Inst, ListV, NONE, Term, TypeV, V, key_of
from sa.project import AnalysisBroken
from . import forms
from .c08 import Kit, strip, show
from .forms import call, conj, denote, freeze, ite, norm
from .sqlnodes import COMPILER, EXP, new_compiler

EXPLANATION = __doc__
OPS = {"EQ": "eq", "NEQ": "neq", "GT": "gt", "GTE": "gte", "LT": "lt", "LTE": "lte"}
QUERY_OPS = {"==": "eq", "!=": "neq", ">": "gt", ">=": "gte", "<": "lt", "<=": "lte", "in": "in"}


class Conditions(Kit):
    """statements over t (primary) and u (joined)"""

    def __init__(self, ctx):
        Kit.__init__(self, ctx)
        it = self.it
        real = it.get(COMPILER + ".compile_calculate")

        def calc(it, args, kwargs, node):
            e = args[1]
            if isinstance(e, Inst) and e.attrs.get("__m") is not None:
                return self.stub(it, args, kwargs, node)
            return it.call_func(real, args, kwargs, node)
        it.models[COMPILER + ".compile_calculate"] = calc
        it.models[COMPILER + ".compile_query_condition"] = self.query_condition
        it.models[COMPILER + ".compile_join_column_tables"] = lambda it, a, kw, n: NONE
        it.models[COMPILER + ".compile_join_column"] = lambda it, a, kw, n: a[5]
        it.models[COMPILER + ".parse_joins"] = lambda it, a, kw, n: self.joins
        it.models[COMPILER + ".compile_column"] = lambda it, a, kw, n: self.stub(it, a, kw, n) \
            if a[1].attrs.get("__m") else Term("compiled", ("column",))
        it.models[COMPILER + ".parse_table"] = lambda it, a, kw, n: DictV([
            (C("db"), C("--")), (C("name"), C("t")), (C("table_name"), C("t")), (C("table_alias"), C("t")),
            (C("typing_options"), ListV()), (C("origin_name"), C("t"))])
        it.models[COMPILER + ".parse_condition_typing_filter"] = lambda it, a, kw, n: NONE
        # the row condition of a compiled column reads the field
        self.correlated = False

    def query_condition(self, it, a, kw, n):
        e = a[1]
        m = e.attrs.get("__m")
        if self.correlated:
            return ListV([ListV([C("$.outer")]), ListV([C("&.:=@execute_query_tasker::k")]), C(":$.z")])
        return ListV([C("&.--." + (m[1] if m else "sub")), C(":$.z")])

    def operand(self, kind, tag):
        s = self.s
        if kind == "pcol":
            n, m = s.col(tag, "t"), ("X", tag)
        elif kind == "jcol":
            n, m = s.col(tag, "u"), ("X", "u." + tag)
        elif kind == "jexpr":
            n, m = s.b("Add", s.col(tag, "u"), s.num(1)), ("X", "u." + tag + "+")
        elif kind == "cexpr":
            n, m = s.b("Add", s.num(1), s.num(2)), ("X", "sum" + tag)
        elif kind == "param":
            n, m = s.node("Parameter", this=s.node("Var", this="V")), ("X", "Pvalue")
        elif kind == "sub":
            n, m = s.node("Subquery", this=s.select([s.col("z")], s.table("v"))), ("X", "sub" + tag)
        elif kind == "subexpr":
            inner = s.node("Subquery", this=s.select([s.col("z")], s.table("v")))
            inner.attrs["__m"] = ("X", "isub" + tag)
            n, m = s.b("Add", inner, s.num(1)), ("X", "subexpr" + tag)
        else:
            return Kit.operand(self, kind, tag)
        n.attrs["__m"] = m
        return n, m

    def world(self, it):
        self.comp = new_compiler(it)
        self.comp.attrs["env_variables"] = it.fresh("env_variables")
        it.method_models["get_value"] = lambda it, a, k, n: it.fresh("variable value", "str")
        self.cfg = DictV([(C(n), v) for n, v in (
            ("querys", DictV()), ("schema", C("$.*")), ("dependencys", ListV()), ("pipelines", ListV()), ("predicate", NONE),
            ("intercept", NONE), ("orders", ListV()), ("databases", ListV()), ("name", C("m")), ("input", C("&.-.&1::id")),
            ("output", C("&.-.&1::id")))])
        self.args = DictV()
        self.joins = DictV([(C("u"), self.join_table())])

    def join_table(self):
        return DictV([(C("db"), C("--")), (C("table"), C("u")), (C("name"), C("u")), (C("primary_keys"), ListV()),
                      (C("columns"), DictV()), (C("join_columns"), ListV()), (C("calculate_expressions"), ListV()),
                      (C("querys"), DictV()), (C("ref_count"), C(0)), (C("having_expressions"), ListV()), (C("subquery"), NONE)])

    def primary(self):
        return DictV([(C(n), v) for n, v in (
            ("db", C("--")), ("name", C("t")), ("table_name", C("t")), ("table_alias", C("t")), ("seted_primary_keys", C(False)),
            ("loader_primary_keys", ListV()), ("outputer_primary_keys", ListV()), ("columns", DictV()), ("subquery", NONE),
            ("select_columns", DictV()))])

    # ---------------------------------------------------------------- conditions
    def atom(self, a):
        """(class, left kind, left tag, right kind(s), right tag) -> node, meaning"""
        s = self.s
        cls, lk, lt, rk, rt = a
        x, mx = self.operand(lk, lt)
        if cls in OPS:
            y, my = self.operand(rk, rt)
            n, m = s.b(cls, x, y), call(OPS[cls], [mx, my])
        elif cls == "In":
            if rk == "sub":
                y, my = self.operand(rk, rt)
                n, m = s.node("In", this=x, query=y), call("in", [mx, call("convert_array", [my])])
            else:
                ys = [self.operand(k, rt + str(i) if k not in ("num", "str", "dec", "neg") else chr(ord(rt) + i))
                      for i, k in enumerate(rk)]
                n, m = s.node("In", this=x, expressions=[y for y, _ in ys]), call("in", [mx, ("list",) + tuple(v for _, v in ys)])
        elif cls == "Like":
            y, my = self.operand(rk, rt)
            n, m = s.b("Like", x, y), call("like", [mx, my])
        elif cls == "Is":
            n, m = s.b("Is", x, s.null()), call("is", [mx, ("const", None)])
            n.attrs["args"].cget("expression").attrs["__m"] = ("const", None)
        elif cls == "Not":
            y, my = self.operand(rk, rt)
            n, m = s.node("Not", this=s.b("EQ", x, y)), call("not", [call("eq", [mx, my])])
        elif cls == "Between":
            y, my = self.operand(rk, rt)
            z, mz = self.operand(rk, chr(ord(rt[0]) + 1))
            n, m = s.node("Between", this=x, low=y, high=z), ("and", call("gte", [mx, my]), call("lte", [mx, mz]))
        elif cls == "Func":
            n, m = x, mx
        else:
            raise ValueError(cls)
        n.attrs["__c"] = m
        return n, m

    def tree(self, t):
        """('and', l, r) | ('or', l, r) | ('paren', x) | atom"""
        s = self.s
        if t[0] in ("and", "or"):
            a, ma = self.tree(t[1])
            b, mb = self.tree(t[2])
            n = s.b("And" if t[0] == "and" else "Or", a, b)
            m = (t[0], ma, mb)
        elif t[0] == "paren":
            a, m = self.tree(t[1])
            n = s.paren(a)
        else:
            return self.atom(t)
        n.attrs["__c"] = m
        return n, m


def describe(t):
    if t[0] in ("and", "or"):
        return "(%s %s %s)" % (describe(t[1]), t[0].upper(), describe(t[2]))
    if t[0] == "paren":
        return "(%s)" % describe(t[1])
    rk = t[3] if isinstance(t[3], str) else ",".join(t[3])
    return "%s(%s %s, %s)" % (t[0], t[1], t[2], rk)


def simplify(d):
    """values of subqueries, however extracted, are the subquery"""
    if not isinstance(d, tuple):
        return d
    d = tuple(simplify(x) for x in d)
    if d[:1] == ("const",) and isinstance(d[1], V) or d == ("call", "current_env_variable::get_value", ("const", "@V")):
        return ("X", "Pvalue")
    if d[:1] == ("then",) and len(d) == 3 and d[1] == "$.z" and d[2][:1] == ("const",) and str(d[2][1]).startswith("&.--."):
        return ("X", d[2][1][5:])
    if d[:2] == ("call", "convert_array") and len(d) == 3 and isinstance(d[2], tuple) \
            and d[2][:2] == ("call", "convert_array"):
        return d[2]
    if d[:2] == ("then", "$.:0") and isinstance(d[2], tuple) and d[2][:2] == ("call", "convert_array"):
        return d[2][2]
    if d[:1] == ("call",) and len(d) == 4 and d[1] in ("eq", "neq", "gt", "gte", "lt", "lte"):
        return call(d[1], list(d[2:]))
    return d


def mentions_row(d):
    """does a value depend on the row?"""
    if not isinstance(d, tuple):
        return False
    if d[:1] == ("field",):
        return True
    if d[:1] == ("X",):
        return not str(d[1]).startswith(("sum", "sub", "P", "p"))
    return any(mentions_row(x) for x in d[1:])


def has_null(d):
    return d == ("const", None) or (isinstance(d, tuple) and d[:1] == ("list",) and any(has_null(x) for x in d[1:])) \
        or (isinstance(d, tuple) and d[:1] == ("const",) and isinstance(d[1], tuple) and None in d[1])


def pushed(frozen):
    """frozen querys -> [(column, op, value meaning)]"""
    out = []
    for key, ops in frozen.items():
        col = str(key).split("|")[0]
        for group in (ops if isinstance(ops, list) else [ops]):
            if not isinstance(group, dict):
                out.append((col, "eq", denote(group)))
                continue
            for op, v in group.items():
                out.append((col, QUERY_OPS.get(op, "?" + str(op)), denote(v)))
    return out


def loader_conflict(items):
    seen = {}
    for col, op, _ in items:
        kind = "eq/in" if op in ("eq", "in") else op
        if op == "neq":
            continue
        if (col, kind) in seen:
            return "the loader is given two %s conditions on %s and keeps or merges them" % (kind, col)
        seen[col, kind] = 1
    return None


def judge(querys, rest, want, prefix=""):
    items = pushed(querys)
    why = loader_conflict(items)
    if why:
        return why
    parts = []
    for col, op, val in items:
        val = strip(simplify(val))
        if mentions_row(val):
            return "the value compared with %s depends on the row but is handed to the loader: %s" % (col, show(val))
        if has_null(val):
            return "a comparison of %s with NULL is handed to the loader" % col
        parts.append(call(op, [("X", prefix + col), val]))
    parts += rest
    got = frozenset()
    for p in parts:
        got |= conj(simplify(strip(p)))
    got = frozenset(x for x in got if x != ("const", 1))
    exp = conj(simplify(strip(want)))
    if got != exp:
        missing, extra = sorted(exp - got, key=repr), sorted(got - exp, key=repr)
        return "condition %s is not applied%s" % (", ".join(show(x) for x in missing) or "none",
                                                  "; applied instead: " + ", ".join(show(x) for x in extra) if extra else "")
    return ""


def atoms(thorough):
    rights = ["num", "str", "neg", "dec", "null", "param", "cexpr", "sub", "col", "expr", "func", "jcol", "jexpr", "paren"]
    lefts = ["col", "pcol", "jcol", "expr", "func"]
    out = []
    for cls in OPS:
        for lk in lefts:
            for rk in rights:
                out.append((cls, lk, "a", rk, "b"))
        for lk in ("num", "str", "null", "param", "cexpr"):
            for rk in ("col", "pcol", "jcol", "expr"):
                out.append((cls, lk, "b", rk, "a"))
    for lk in lefts:
        for rk in (("num",), ("num", "num"), ("str", "neg"), ("num", "null"), ("null",), ("col",), ("num", "col"), ("cexpr", "num"),
                   ("expr", "num"), ("jcol", "num"), ("func",), ("param", "num"), ("num", "sub"), ("pcol", "str", "num")):
            out.append(("In", lk, "a", rk, "b"))
        out.append(("In", lk, "a", "sub", "b"))
        for cls in ("Like", "Is", "Not", "Between"):
            out.append((cls, lk, "a", "num" if cls != "Like" else "str", "b"))
    out.append(("Func", "func", "a", "num", "b"))
    return out


def trees(thorough):
    base = [("EQ", "col", "a", "num", "b"), ("EQ", "pcol", "a", "num", "c"), ("EQ", "col", "a", "str", "d"),
            ("NEQ", "col", "a", "num", "b"), ("NEQ", "col", "a", "num", "e"), ("GT", "col", "a", "num", "b"), ("GT", "col", "a", "num", "g"),
            ("LTE", "col", "a", "num", "h"), ("LT", "pcol", "a", "num", "i"), ("LT", "col", "a", "num", "j"),
            ("GTE", "col", "a", "num", "k"), ("GTE", "pcol", "a", "dec", "l"), ("LTE", "col", "a", "num", "m"),
            ("In", "col", "a", ("num", "num"), "n"), ("In", "col", "a", ("num", "num", "num"), "p"),
            ("EQ", "col", "q", "num", "b"), ("GT", "col", "q", "num", "b"), ("EQ", "jcol", "r", "num", "b"),
            ("GT", "jcol", "r", "num", "c"), ("EQ", "col", "a", "jcol", "r"), ("EQ", "col", "a", "expr", "s"),
            ("Like", "col", "a", "str", "t"), ("EQ", "num", "u", "col", "a"), ("GT", "num", "v", "col", "a"),
            ("Not", "col", "a", "num", "w"), ("EQ", "col", "a", "null", "x"), ("Between", "col", "a", "num", "y"),
            ("Is", "col", "a", "num", "z"), ("EQ", "col", "a", "sub", "b"), ("In", "col", "a", "sub", "c")]
    out = []
    for x, y in itertools.product(base, base):
        if x != y:
            out.append(("and", x, y))
            if thorough or base.index(x) < 3:
                out.append(("or", x, y))
    few = [base[0], base[5], base[13], base[17], base[21], base[20], base[3], base[15], base[2], base[24]]
    for x, y, z in itertools.permutations(few[:6] if not thorough else few, 3):
        out.append(("and", ("or", x, y), z))
        out.append(("and", x, ("or", y, z)))
        out.append(("or", ("and", x, y), z))
        out.append(("and", ("and", x, y), z))
        out.append(("and", x, ("and", y, z)))
        out.append(("and", ("paren", ("or", x, y)), z))
        out.append(("and", ("paren", ("and", x, y)), z))
        out.append(("or", ("paren", ("and", x, y)), z))
    out += [("paren", b) for b in base]
    return out


def check(ctx):
    ctx.rule("where", "loader conditions and row condition of a SELECT conjoin to its WHERE condition")
    ctx.rule("on", "join keys, loader conditions and row conditions of a join conjoin to its ON condition")
    k = Conditions(ctx)
    it, s = k.it, k.s
    forms.REGISTERED = {kk.v for kk, _ in it.get("syncanysql.calculaters.mysql_funcs.funcs").d.values()}
    f = it.get(COMPILER + ".compile_where_condition")
    w = "%s:%d" % (ctx.project.relpath(f.module.mod), f.node.lineno)
    g = it.get(COMPILER + ".parse_on_condition")
    wo = "%s:%d" % (ctx.project.relpath(g.module.mod), g.node.lineno)

    def where(t, correlated=False):
        def entry(it):
            k.world(it)
            k.correlated = correlated
            cond, want = k.tree(t)
            kw = {"joins": [s.join(s.table("u"), side="LEFT")]}
            node = s.select([s.col("zz")], s.table("t"), where=cond, **kw)
            it.call(it.getattr(k.comp, "compile_select"), [node, k.cfg, k.args], {})
            p = freeze(k.cfg.cget("predicate"))
            return judge(freeze(k.cfg.cget("querys")), [denote(p)] if p is not None else [], want)
        run(ctx, k, "where", describe(t) + (" correlated" if correlated else ""), entry, w)

    for t in atoms(ctx.thorough):
        where(t)
    for t in trees(ctx.thorough):
        where(t)
    for t in (("EQ", "col", "a", "sub", "b"), ("In", "col", "a", "sub", "b"), ("and", ("EQ", "col", "a", "sub", "b"), ("EQ", "col", "a", "num", "c"))):
        where(t, True)

    def on(t):
        def entry(it):
            k.world(it)
            k.correlated = False
            cond, want = k.tree(t)
            jt = k.join_table()
            it.call(it.getattr(k.comp, "parse_on_condition"), [cond, k.cfg, k.args, k.primary(), jt], {})
            rest = []
            keys, exprs = jt.cget("primary_keys").items, jt.cget("calculate_expressions").items
            if len(keys) != len(exprs):
                return "join keys and their values do not correspond"
            for c, e in zip(keys, exprs):
                m = e.attrs.get("__m")
                if m is None:
                    raise AnalysisBroken("join key value without meaning")
                rest.append(call("eq", [("X", "u." + c.v), m]))
            for e in jt.cget("having_expressions").items:
                m = e.attrs.get("__c") or e.attrs.get("__m")
                if m is None:
                    raise AnalysisBroken("ON condition without meaning")
                rest.append(m)
            # every column of the joined table a row condition reads is loaded
            return judge(freeze(jt.cget("querys")), rest, want, "u.")
        run(ctx, k, "on", describe(t), entry, wo, ("SyncanySqlCompileException",))

    key = ("EQ", "jcol", "kk", "pcol", "id")
    lefts = ["jcol", "pcol", "expr", "jexpr", "func"]
    rights = ["num", "str", "null", "param", "cexpr", "sub", "pcol", "expr", "func", "jcol", "jexpr", "paren"]
    al = []
    for cls in OPS:
        for lk in lefts:
            for rk in rights:
                al.append((cls, lk, "a", rk, "b"))
        for lk in ("num", "str", "cexpr"):
            for rk in ("pcol", "jcol", "expr"):
                al.append((cls, lk, "b", rk, "a"))
    for lk in ("jcol", "pcol", "jexpr"):
        for rk in (("num",), ("num", "num"), ("str", "num"), ("num", "null"), ("pcol",), ("num", "pcol"), ("cexpr", "num"), ("expr", "num"),
                   ("jcol", "num"), ("func",)):
            al.append(("In", lk, "a", rk, "b"))
        al.append(("In", lk, "a", "sub", "b"))
        for cls in ("Like", "Is", "Not", "Between"):
            al.append((cls, lk, "a", "num" if cls != "Like" else "str", "b"))
    for a in al:
        on(("and", key, a))
        if ctx.thorough:
            on(("and", a, key))
            on(a)
    base = [("EQ", "jcol", "a", "num", "b"), ("EQ", "jcol", "a", "str", "d"), ("NEQ", "jcol", "a", "num", "b"),
            ("NEQ", "jcol", "a", "num", "e"), ("GT", "jcol", "a", "num", "b"), ("GT", "jcol", "a", "num", "g"),
            ("LT", "jcol", "a", "num", "h"), ("LT", "jcol", "a", "num", "i"), ("GTE", "jcol", "a", "num", "b"), ("GTE", "jcol", "a", "num", "j"),
            ("LTE", "jcol", "a", "num", "b"), ("LTE", "jcol", "a", "num", "l"),
            ("In", "jcol", "a", ("num", "num"), "n"), ("In", "jcol", "a", ("num", "num", "num"), "p"), ("EQ", "jcol", "q", "num", "b"),
            ("EQ", "pcol", "q", "num", "b"), ("GT", "pcol", "q", "num", "b"), ("EQ", "jcol", "m", "expr", "n"),
            ("EQ", "jcol", "a", "null", "b"), ("Like", "jcol", "a", "str", "t"), ("Between", "jcol", "a", "num", "y")]
    for x, y in itertools.permutations(base, 2):
        on(("and", key, ("and", x, y)))
        if base.index(x) < 2:
            on(("and", key, ("or", x, y)))
            on(("and", ("or", x, y), key))
            on(("and", key, ("paren", ("or", x, y))))
            on(("and", key, ("paren", ("and", x, y))))
    ctx.require("where", 900)
    ctx.require("on", 600)


def run(ctx, k, rule, construct, entry, w, may_reject=()):
    bad, n = None, 0
    for r in k.it.explore(entry):
        n += 1
        if r.kind == "raise":
            if r.exc_name().split(".")[-1] in may_reject:
                continue
            bad = bad or "raises %s" % r.exc_name()
        elif r.value:
            bad = bad or r.value
    if not n:
        bad = "no path"
    ctx.ob(rule, construct, not bad, bad or "", w)
