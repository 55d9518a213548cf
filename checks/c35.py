"""C35: aggregates and window functions are computed over the rows, groups and order written.

SELECT statements with aggregates, expressions over aggregates, GROUP BY, DISTINCT and window functions are compiled
abstractly.  In the task, every aggregate must be the aggregator of that function fed with its own operands, grouped by exactly
the GROUP BY items (a name of an output column meaning that column wherever it stands), and an expression over aggregates or
window functions must be that expression over their finished values and the columns of the group or row.  The form of an
operand or key is the one the same expression has as a plain output column of the same FROM."""
import itertools

from sa.interp import C, ListV, NONE, TupleV
from sa.project import AnalysisBroken
from . import agg
from .c26 import REJECT
from .c27 import Nest, sub
from .stmt import at, dump, run, text

EXPLANATION = __doc__
# aggregates: sqlglot node or function name -> calculater
NODES = {"Sum": "aggregate_sum", "Max": "aggregate_max", "Min": "aggregate_min", "Avg": "aggregate_avg", "Count": "aggregate_count",
         "GroupConcat": "group_concat", "GroupUniqArray": "group_uniq_array"}
NAMES = {"group_array": "group_array", "grouparray": "group_array", "groupuniqarray": "group_uniq_array", "group_uniq_array": "group_uniq_array",
         "group_bit_and": "group_bit_and", "groupbitand": "group_bit_and", "group_bit_or": "group_bit_or", "groupbitor": "group_bit_or",
         "group_bit_xor": "group_bit_xor", "groupbitxor": "group_bit_xor", "json_arrayagg": "json_arrayagg", "json_objectagg": "json_objectagg",
         "GROUP_ARRAY": "group_array"}
POSITIONAL = ("row_number", "rank", "dense_rank", "percent_rank", "cume_dist", "first_value", "last_value", "nth_value", "ntile", "lag", "lead")


class Call:
    """an aggregate call: calculater, operand builders, node builder"""

    def __init__(self, s, fn, ops, distinct=False):
        self.s, self.fn, self.ops, self.distinct = s, fn, ops, distinct
        self.calc = "aggregate_distinct_count" if distinct else NODES.get(fn) or NAMES.get(fn) or fn

    def node(self):
        s = self.s
        if self.fn == "RowNumber":
            return s.node("RowNumber")
        if self.fn in NODES:
            if self.distinct:
                return s.node("Count", this=s.node("Distinct", expressions=[o() for o in self.ops]))
            return s.node(self.fn, this=self.ops[0]() if self.ops else s.node("Star"))
        return s.func(self.fn, *[o() for o in self.ops])


class Win:
    def __init__(self, s, call, partition=(), order=(), named=None):
        self.s, self.call, self.partition, self.order, self.named = s, call, list(partition), list(order), named

    def spec(self, name=None):
        s = self.s
        kw = {}
        if self.partition:
            kw["partition_by"] = [p() for p in self.partition]
        if self.order:
            kw["order"] = s.node("Order", expressions=[s.ordered(o(), d) for o, d in self.order])
        return kw

    def node(self):
        s = self.s
        if self.named:
            return s.node("Window", this=self.call.node(), alias=s.ident(self.named), over="OVER", spec=None)
        return s.node("Window", this=self.call.node(), alias=None, over="OVER", spec=None, **self.spec())

    def definition(self):
        return self.s.node("Window", this=self.s.ident(self.named), over=None, **self.spec())


def rewrite(x, table, path=()):
    """x with every form / string replaced by table(x) when that is not None"""
    y = table(x)
    if y is not None:
        return y
    if isinstance(x, list):
        return [rewrite(v, table) for v in x]
    if isinstance(x, dict):
        return {k: rewrite(v, table) for k, v in x.items()}
    return x


def stand(table):
    """replacement of columns by what they stand for; a filtered column is the filter over the value"""
    def f(x):
        if not isinstance(x, str):
            return None
        name, _, flt = x.lstrip(":").partition("|")
        if name not in table:
            return None
        v = (":" if x.startswith(":") else "") + table[name]
        return ["#if", ["#const", 1], v, None, ":$.*|" + flt] if flt else v
    return f


def keyed(forms):
    """comparable form of a group or partition key"""
    return sorted("any constant" if constant(f) and f is not None and f[1] is not None else dump(f) for f in forms)


def key_forms(k):
    if isinstance(k, list) and len(k) == 3 and k[0] == "#make" and isinstance(k[1], list) and k[2] == [":@aggregate_key", "$.*"]:
        return k[1]
    return [k]


def value_forms(v, n):
    if n > 1 and isinstance(v, list) and len(v) == 2 and v[0] == "#make" and isinstance(v[1], list):
        return v[1]
    return [v]


class Judge:
    def __init__(self, k, finals):
        self.k, self.finals, self.known = k, finals, {}

    def forms(self, it, frm, builders):
        """compiled forms of expressions as plain output columns"""
        s = self.k.s
        out = []
        for b in builders:
            key = (frm, text(b()))
            if key not in self.known:
                p = self.k.compile(it, s.select([s.alias(b(), "x")], **frm()))
                self.known[key] = p.cfg["schema"]["x"]
            out.append(self.known[key])
        return out

    def call_token(self, calc, value, final):
        return "<%s%s %s>" % (calc, " final" if final else "", dump(value))

    def want_value(self, it, frm, call):
        if call.fn == "Count" and not call.ops:
            return "row"
        fs = self.forms(it, frm, call.ops)
        return self.norm_value(call.calc, fs[0] if len(fs) == 1 else ["#make", fs])

    def norm_value(self, calc, value):
        """COUNT(*) counts any constant"""
        if calc == "aggregate_count" and isinstance(value, list) and len(value) == 2 and value[0] == "#const" and value[1] is not None:
            return "row"
        return value

    # ---- aggregates
    def aggregate(self, it, p, name, frm, calls, expr, carried, key):
        """the output column `name`: expr(list of nodes for calls, list of nodes for carried columns)"""
        cfg = p.cfg
        col = (cfg.get("aggregate") or {}).get("schema", {}).get(name)
        if not isinstance(col, dict):
            return "%s is not aggregated" % name
        sch = cfg["schema"].get(name)
        if not (isinstance(sch, list) and len(sch) == 3 and sch[0] == "#make" and isinstance(sch[1], dict) and set(sch[1]) == {"key", "value"}):
            return "%s is not a grouped column: %s" % (name, dump(sch))
        for what, k in (("group key", col["key"]), ("group key of the task", cfg["aggregate"]["key"]), ("grouping", sch[1]["key"])):
            if keyed(key_forms(k)) != keyed(key):
                return "%s of %s is %s, written %s" % (what, name, dump(k), dump(key))
        if dump(sch[1]["value"]) != dump(col["value"]):
            return "%s is fed %s here and %s there" % (name, dump(sch[1]["value"]), dump(col["value"]))
        if dump(sch[2]) != dump(col["aggregate"]):
            return "%s is aggregated in two ways" % name
        step = col["aggregate"]
        if not (isinstance(step, list) and len(step) == 3 and step[0] == ":#aggregate" and step[1] == "$.key"):
            return "%s is not aggregated by its key: %s" % (name, dump(step))
        single = expr is None
        want_calls = [(c.calc, self.want_value(it, frm, c), self.finals[c.calc]) for c in calls]
        if single:
            calc, value, final = want_calls[0]
            if step[2] != ["@%s::aggregate" % calc, "$." + name, "$$.value"]:
                return "%s adds a row by %s, expected %s" % (name, dump(step[2]), calc)
            if col["reduce"] != ["@%s::reduce" % calc, "$." + name, "$$." + name]:
                return "%s is merged by %s, expected %s" % (name, dump(col["reduce"]), calc)
            if dump(self.norm_value(calc, col["value"])) != dump(value):
                return "%s aggregates %s, written %s" % (name, dump(col["value"]), dump(value))
            if (col["final_value"] or None) != (["@%s::final_value" % calc, "$." + name] if final else None):
                return "%s is finished by %s" % (name, dump(col["final_value"]))
            return ""
        v, st, rd = col["value"], step[2], col["reduce"]
        for what, x in (("values", v), ("steps", st), ("merges", rd)):
            if not (isinstance(x, list) and len(x) == 2 and x[0] == "#make" and isinstance(x[1], dict)):
                return "%s of %s are %s" % (what, name, dump(x))
        if not set(v[1]) == set(st[1]) == set(rd[1]):
            return "%s keeps different partial results" % name
        tokens = {}
        for h in v[1]:
            f = st[1][h]
            if not (isinstance(f, list) and len(f) == 3 and isinstance(f[0], str) and f[0].startswith("@") and f[0].endswith("::aggregate")):
                return "%s adds a row by %s" % (name, dump(f))
            calc = f[0][1:-len("::aggregate")]
            if f[1:] != ["$.%s.%s" % (name, h), "$$.value." + h]:
                return "%s adds %s to another partial result: %s" % (name, h, dump(f))
            if rd[1][h] != ["@%s::reduce" % calc, "$.%s.%s" % (name, h), "$$.%s.%s" % (name, h)]:
                return "%s merges a partial %s by %s" % (name, calc, dump(rd[1][h]))
            tokens["$.%s.%s" % (name, h)] = (calc, self.norm_value(calc, v[1][h]))

        def got(x):
            if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and x[0].endswith("::final_value") and x[1] in tokens \
                    and x[0] == "@%s::final_value" % tokens[x[1]][0]:
                return self.call_token(tokens[x[1]][0], tokens[x[1]][1], True)
            if isinstance(x, str) and x.lstrip(":") in tokens:
                calc, val = tokens[x.lstrip(":")]
                return (":" if x.startswith(":") else "") + self.call_token("carry" if calc in carriers else calc, val, False)
            return None
        err = ""
        for carriers in (("aggregate_any_value",), CARRY) if carried else ((),):
            err = self.same_expr(it, frm, rewrite(col["final_value"], got), expr, want_calls, carried, name)
            if not err:
                break
        return err

    def same_expr(self, it, frm, fv, expr, want_calls, carried, name):
        s = self.k.s
        dummies = ["agg_%d" % i for i in range(len(want_calls))]
        cd = ["own_%d" % i for i in range(len(carried))]
        p = self.k.compile(it, s.select([s.alias(expr([s.col(d) for d in dummies], [s.col(d) for d in cd]), "x")], s.table("t")))
        table = {"$." + d: self.call_token(*c) for d, c in zip(dummies, want_calls)}
        for d, f in zip(cd, self.forms(it, frm, carried)):
            table["$." + d] = self.call_token("carry", f, False)
        want = rewrite(p.cfg["schema"]["x"], stand(table))
        if dump(fv) != dump(want):
            return "%s is finished as %s, written %s" % (name, dump(fv), dump(want))
        return ""

    # ---- windows
    def window_form(self, it, frm, form, win, name):
        """'' or what is wrong with the helper column of one window function; the partial form must be #partition"""
        if not (isinstance(form, list) and len(form) == 3 and form[0] == "#make" and isinstance(form[1], dict) and isinstance(form[2], list)
                and len(form[2]) in (5, 6) and form[2][0] == ":#partition"):
            return "%s is not a window function: %s" % (name, dump(form))
        fields, (_, part, order, value, step) = form[1], form[2][:5]
        deref = lambda x: fields.get(x[2:]) if isinstance(x, str) and x.startswith("$.") else x
        want = self.forms(it, frm, win.partition)
        if not want:
            if part is not None and not constant(deref(part)):
                return "%s is partitioned by %s" % (name, dump(deref(part)))
        elif keyed(key_forms(deref(part))) != keyed(want):
            return "%s is partitioned by %s, written %s" % (name, dump(deref(part)), dump(want))
        want = self.forms(it, frm, [o for o, _ in win.order])
        descs = [d for _, d in win.order]
        if not isinstance(order, dict):
            if want:
                return "%s is not ordered" % name
        else:
            ov, os = deref(order["valuer"]), [(x, False) if isinstance(x, str) else x for x in order["orders"]]
            if not want:
                if os and not constant(ov):
                    return "%s is ordered by %s" % (name, dump(ov))
            elif len(want) == 1:
                if dump(ov) != dump(want[0]) or len(os) != 1 or bool(os[0][1]) != descs[0]:
                    return "%s is ordered by %s %s" % (name, dump(ov), dump(os))
            else:
                if not (isinstance(ov, list) and len(ov) == 3 and ov[0] == "#make" and isinstance(ov[2], list) and len(ov[2]) == 3
                        and ov[2][:2] == [":@window_order_key", "$.*"] and len(os) == 1 and not os[0][1]):
                    return "%s is ordered by one of its keys, or all in one direction: %s %s" % (name, dump(ov), dump(os))
                if [dump(x) for x in ov[1]] != [dump(x) for x in want] or [bool(x) for x in ov[2][2][1]] != descs:
                    return "%s is ordered by %s" % (name, dump(ov))
        calc = win.call.calc
        positional = calc in POSITIONAL
        want = None if not win.call.ops and not win.call.fn == "Count" else self.want_value(it, frm, win.call)
        got = self.norm_value(calc, deref(value))
        if dump(got) != dump(want) and not (want is None and constant(got)):
            return "%s is computed from %s, written %s" % (name, dump(got), dump(want))
        if step != ["@%s::%s" % (calc, "order_aggregate" if positional else "aggregate"), "$.state", "$.value"] + (["$.context"] if positional else []):
            return "%s is computed by %s, expected %s" % (name, dump(step), calc)
        last = form[2][5] if len(form[2]) == 6 else None
        if last != ([":@%s::final_value" % calc, "$.*"] if self.finals[calc] else None):
            return "%s is finished by %s" % (name, dump(last))
        return ""

    def window(self, it, p, name, frm, wins, expr, carried):
        col = (p.cfg.get("aggregate") or {}).get("window_schema", {}).get(name)
        if not isinstance(col, dict):
            return "%s is not a window column" % name
        if expr is None:
            if col["final_value"]:
                return "%s is calculated once more: %s" % (name, dump(col["final_value"]))
            if dump(col["aggregate"]) != dump(p.cfg["schema"].get(name)):
                return "%s is computed in two ways" % name
            return self.window_form(it, frm, col["aggregate"], wins[0], name)
        helpers = col["aggregate"]
        if not isinstance(helpers, dict):
            return "%s is not calculated from window functions" % name
        # which helper is which window function: by trying
        tokens, rest = {}, list(range(len(wins)))
        err = ""
        for h, form in helpers.items():
            if isinstance(form, list) and len(form) == 3 and isinstance(form[2], list) and form[2][:1] == [":#partition"]:
                for i in rest:
                    e = self.window_form(it, frm, form, wins[i], name)
                    if not e:
                        tokens["$." + h] = "<window %d>" % i
                        break
                    err = err or e
                else:
                    return err or "%s has a window function more" % name
            else:
                tokens["$." + h] = self.call_token("carry", form, False)
        fv = rewrite(col["final_value"], stand(tokens))
        s = self.k.s
        q = self.k.compile(it, s.select([s.alias(expr([s.col("agg_%d" % i) for i in range(len(wins))], [s.col("own_%d" % i) for i in range(len(carried))]), "x")], s.table("t")))
        # equal window functions are interchangeable
        table = {}
        for i, w in enumerate(wins):
            first = next(j for j, v in enumerate(wins) if v is w)
            table["$.agg_%d" % i] = "<window %d>" % first
        for i, f in enumerate(self.forms(it, frm, carried)):
            table["$.own_%d" % i] = self.call_token("carry", f, False)
        want = rewrite(q.cfg["schema"]["x"], stand(table))
        return "" if dump(fv) == dump(want) else "%s is finished as %s, written %s" % (name, dump(fv), dump(want))


CARRY = ("aggregate_any_value", "aggregate_max", "aggregate_min")


def constant(x):
    return x is None or isinstance(x, list) and x[:1] == ["#const"]


def check(ctx):
    ctx.rule("aggregate", "an aggregate is the aggregator of its function over its operands and the groups written")
    ctx.rule("expression", "an expression over aggregates is that expression over their finished values and the group's columns")
    ctx.rule("key", "groups are made by exactly the GROUP BY items, whichever output columns they name")
    ctx.rule("distinct", "DISTINCT keeps one row per combination of all output columns")
    ctx.rule("window", "a window function has the partition, order, directions and operands written")
    ctx.rule("window expression", "an expression over window functions is that expression over their values and the row's columns")
    ctx.rule("reject", "an aggregate where none can be computed is rejected")
    ctx.rule("group key", "rows with several group keys are in one group exactly when every key is equal")
    ctx.rule("order key", "rows of a window with several order keys compare as the keys do, each in its direction")
    ctx.rule("carry", "a column beside an aggregate is the value of the group's rows")
    k = Nest(ctx)
    it, s = k.it, k.s
    it.concrete_ids = {}
    ai = agg.agg_interp(ctx)
    cs = agg.calculaters(ai)
    finals = {}
    for name in sorted(set(NODES.values()) | set(NAMES.values()) | {"aggregate_distinct_count"} | set(POSITIONAL) | set(CARRY)):
        if name not in cs:
            raise AnalysisBroken("%s is not registered" % name)
        finals[name] = ai.class_lookup(cs[name], "final_value") is not None
    carry(ctx, ai, cs)
    group_key(ctx, ai, cs)
    order_key(ctx, ai, cs)
    j = Judge(k, finals)
    where = at(ctx, it, "compile_aggregate_column")
    where_w = at(ctx, it, "compile_window_column")
    n, b = s.num, s.b

    def frames():
        yield "t", None, lambda: dict(frm=s.table("t")), False
        yield "t tt, u uu", "tt", lambda: dict(frm=s.table("t", alias="tt"), joins=[
            s.join(s.table("u", alias="uu"), on=b("EQ", s.col("k", "uu"), s.col("k", "tt")), side="LEFT")]), True
        yield "t tt", "tt", lambda: dict(frm=s.table("t", alias="tt")), False
        yield "(q) tt", "tt", lambda: dict(frm=sub(s, s.select([s.col(x) for x in "abck"], s.table("t")), "tt")), False

    for fname, tab, frm, joined in frames():
        col = lambda x, t=tab: (lambda: s.col(x, t))
        a, bb, c = col("a"), col("b"), col("c")
        add = lambda: b("Add", a(), n(1))
        up = lambda: s.func("upper", bb())
        case = lambda: s.node("If", this=b("GT", a(), n(1)), true=bb(), false=n(0))
        const = lambda: n(1)
        ops = {"a": a, "a+1": add, "upper(b)": up, "if(a>1,b,0)": case, "1": const}
        if joined:
            v = lambda: s.col("v", "uu")
            ops.update({"uu.v": v, "uu.v+a": lambda: b("Add", v(), a()), "upper(uu.v)": lambda: s.func("upper", v())})
        groups = {"": [], "a": [a], "a,b": [a, bb], "a+1": [add], "upper(b)": [up]}
        if joined:
            groups.update({"uu.v": [v], "uu.v,a": [v, a], "uu.v+a": [lambda: b("Add", v(), a())]})

        def build(cols, group, **kw):
            return s.select([s.alias(x(), nm) if nm else x() for nm, x in cols], **dict(frm(), **dict({"group": [g() for g in group]} if group else {}, **kw)))

        def keys(it, group):
            return j.forms(it, frm, group) or [["#const", "__k_g__"]]

        def plain(it, p, name, build):
            w = j.forms(it, frm, [build])[0]
            return "" if dump(p.cfg["schema"][name]) == dump(w) else "%s is %s, written %s" % (name, dump(p.cfg["schema"][name]), dump(w))

        def one(rule, name, cols, group, judge, place=where, **kw):
            def entry(it):
                kk = {x: (y() if callable(y) else y) for x, y in kw.items()}
                p = k.compile(it, build(cols, group, **kk))
                if p.columns() is None or [x for x in p.columns()] != [nm for nm, _ in cols if nm]:
                    return "the output columns are %s" % p.columns()
                return judge(it, p)
            run(ctx, it, rule, name, entry, place)

        # every aggregate over every operand, with and without groups
        calls = [Call(s, f, [o]) for f in list(NODES) + list(NAMES) if f != "json_objectagg" for o in (a,)] + \
                [Call(s, "Count", [])] + [Call(s, "Count", [o], True) for o in (a, add)] + [Call(s, "Count", [a, bb], True)] + \
                [Call(s, "json_objectagg", [a, bb]), Call(s, "json_objectagg", [bb, add])] + \
                [Call(s, f, [o]) for f in ("Sum", "Max", "Count", "group_array") for on, o in ops.items() if on != "a"]
        for i, cl in enumerate(calls):
            for gi, (gname, group) in enumerate(groups.items()):
                if not ctx.thorough and (i + gi) % 3 and not (fname == "t" and gi < 2):
                    continue
                one("aggregate", "%s/%d FROM %s GROUP BY %s" % (cl.calc, i, fname, gname or "-"), [("x", cl.node)], group,
                    lambda it, p: j.aggregate(it, p, "x", frm, [cl], None, [], keys(it, group)))
        # several aggregates, mixed with plain columns
        two = [Call(s, "Avg", [a]), Call(s, "Count", [bb], True)]
        for gname, group in groups.items():
            one("aggregate", "two aggregates and a column FROM %s GROUP BY %s" % (fname, gname or "-"),
                [("x", two[0].node), ("c1", c), ("y", two[1].node)], group,
                lambda it, p: j.aggregate(it, p, "x", frm, [two[0]], None, [], keys(it, group)) or j.aggregate(it, p, "y", frm, [two[1]], None, [], keys(it, group))
                or plain(it, p, "c1", c))

        # expressions over aggregates
        S, M, A, D, G = Call(s, "Sum", [a]), Call(s, "Max", [bb]), Call(s, "Avg", [a]), Call(s, "Count", [a], True), Call(s, "group_array", [add])
        CS = Call(s, "Count", [])
        exprs = {
            "sum+1": ([S], [], lambda g, o: b("Add", g[0], n(1))),
            "1-avg": ([A], [], lambda g, o: b("Sub", n(1), g[0])),
            "sum/max": ([S, M], [], lambda g, o: b("Div", g[0], g[1])),
            "max/sum": ([M, S], [], lambda g, o: b("Div", g[0], g[1])),
            "avg-avg": ([A, A], [], lambda g, o: b("Sub", g[0], g[1])),
            "sum-count*": ([S, CS], [], lambda g, o: b("Sub", g[0], g[1])),
            "(avg+sum)*count distinct": ([A, S, D], [], lambda g, o: b("Mul", s.paren(b("Add", g[0], g[1])), g[2])),
            "concat(max,avg)": ([M, A], [], lambda g, o: s.func("concat", g[0], s.str("-"), g[1])),
            "json_length(group_array)": ([G], [], lambda g, o: s.func("json_length", g[0])),
            "-sum": ([S], [], lambda g, o: s.node("Neg", this=g[0])),
            "~sum": ([S], [], lambda g, o: s.node("BitwiseNot", this=g[0])),
            "not sum": ([S], [], lambda g, o: s.node("Not", this=g[0])),
            "(avg)": ([A], [], lambda g, o: s.paren(g[0])),
            "if(sum>1,max,avg)": ([S, M, A], [], lambda g, o: s.node("If", this=b("GT", g[0], n(1)), true=g[1], false=g[2])),
            "case": ([S, M, A], [], lambda g, o: s.node("Case", ifs=[s.node("If", this=b("GT", g[0], n(1)), true=g[1])], default=g[2])),
            "case value": ([S, M, A], [], lambda g, o: s.node("Case", this=g[0], ifs=[s.node("If", this=n(1), true=g[1])], default=g[2])),
            "sum>avg": ([S, A], [], lambda g, o: b("GT", g[0], g[1])),
            "sum between": ([S, A, M], [], lambda g, o: s.node("Between", this=g[0], low=g[1], high=g[2])),
            "sum in": ([S, M], [], lambda g, o: s.node("In", this=g[0], expressions=[n(1), g[1]])),
            "sum is null": ([S], [], lambda g, o: b("Is", g[0], s.null())),
            "and": ([S, A], [], lambda g, o: b("And", b("GT", g[0], n(1)), b("LT", g[1], n(2)))),
            "cast": ([A], [], lambda g, o: s.node("Cast", this=g[0], to=s.node("DataType", this=it.getattr(it.getattr(s.cls("DataType"), "Type"), "VARCHAR")))),
            "interval": ([S], [], lambda g, o: b("Add", s.str("2020-01-01"), s.node("Interval", this=g[0], unit=s.node("Var", this="DAY")))),
            "coalesce": ([S, M], [], lambda g, o: s.node("Coalesce", this=g[0], expressions=[g[1], n(3)])),
            "sum+c": ([S], [c], lambda g, o: b("Add", g[0], o[0])),
            "c-avg-a": ([A], [c, a], lambda g, o: b("Sub", b("Sub", o[0], g[0]), o[1])),
            "concat(c,max,a)": ([M], [c, a], lambda g, o: s.func("concat", o[0], g[0], o[1])),
        }
        if joined:
            V = Call(s, "Sum", [v])
            exprs.update({
                "sum(uu.v)/sum": ([V, S], [], lambda g, o: b("Div", g[0], g[1])),
                "avg+uu.v": ([A], [v], lambda g, o: b("Add", g[0], o[0])),
                "uu.v-sum(uu.v)*c": ([V], [v, c], lambda g, o: b("Sub", o[0], b("Mul", g[0], o[1]))),
            })
        for ei, (ename, (cl, own, ex)) in enumerate(exprs.items()):
            for gi, (gname, group) in enumerate(groups.items()):
                if not ctx.thorough and (ei + gi) % 4 and not (fname == "t" and gi < 1):
                    continue
                one("expression", "%s FROM %s GROUP BY %s" % (ename, fname, gname or "-"),
                    [("x", lambda: ex([q.node() for q in cl], [o() for o in own])), ("y", A.node)], group,
                    lambda it, p: j.aggregate(it, p, "x", frm, cl, ex, own, keys(it, group)) or j.aggregate(it, p, "y", frm, [A], None, [], keys(it, group)))
            # a column of the group is that column, also when an output column has its name
            for oname, first in (("itself", [("a", a), ("c", c)]), ("others", [("a", c), ("c", bb)]), ("aggregates'", [("a", M.node), ("c", S.node)])) if own else ():
                if not tab and oname == "aggregates'":
                    continue
                gname, group = list(groups.items())[ei % 2 if oname == "itself" else 0]
                one("expression", "%s beside output columns of %s names FROM %s GROUP BY %s" % (ename, oname, fname, gname or "-"),
                    first + [("x", lambda: ex([q.node() for q in cl], [o() for o in own]))], group,
                    lambda it, p: j.aggregate(it, p, "x", frm, cl, ex, own, keys(it, group)))
        # groups by name
        keyed_by = {
            "column": (lambda: s.col("a", tab), a), "alias of a column": (lambda: s.col("z"), c), "alias of an expression": (lambda: s.col("y"), add),
            "alias that hides a column": (lambda: s.col("b"), add),
        }
        outs = {"z": ("z", c), "y": ("y", add), "b": ("b", add), "a": (None, a)}
        if joined:
            keyed_by["joined column"] = (lambda: s.col("v", "uu"), v)
            keyed_by["alias of a joined column"] = (lambda: s.col("w"), v)
            keyed_by["alias of a joined expression"] = (lambda: s.col("q"), lambda: b("Add", v(), a()))
            outs["w"] = ("w", v)
            outs["q"] = ("q", lambda: b("Add", v(), a()))
        for kname, (g, meaning) in keyed_by.items():
            used = g().attrs["args"]
            gn = [x for kk, x in used.d.values() if kk.v == "this"][0]
            gn = [x.v for kk, x in gn.attrs["args"].d.values() if kk.v == "this"][0]
            for pos in range(3):
                for second in (False, True):
                    others = [("x", S.node), ("s", lambda: b("Add", A.node(), n(1)))]
                    cols = others[:pos] + ([outs[gn]] if gn in outs and outs[gn][0] else []) + others[pos:]
                    group, mean = ([g], [meaning]) if not second else ([g, bb if gn != "b" else c], [meaning, bb if gn != "b" else c])
                    one("key", "%s at %d%s FROM %s" % (kname, pos, " and another" if second else "", fname), cols, group,
                        lambda it, p: j.aggregate(it, p, "x", frm, [S], None, [], keys(it, mean)) or
                        j.aggregate(it, p, "s", frm, [A], lambda g, o: b("Add", g[0], n(1)), [], keys(it, mean)))
        # an aggregate of that name does not make groups: the column does
        one("key", "aggregate named like the column FROM %s" % fname, [("a", S.node), ("x", M.node)], [lambda: s.col("a")],
            lambda it, p: j.aggregate(it, p, "x", frm, [M], None, [], keys(it, [lambda: s.col("a")])) or
            j.aggregate(it, p, "a", frm, [S], None, [], keys(it, [lambda: s.col("a")])))

        # groups without aggregates, DISTINCT
        def one_row(it, p, cols, key):
            hit = [nm for nm in p.columns() if isinstance(p.cfg["schema"][nm], list) and p.cfg["schema"][nm][0] == "#make" and nm in p.cfg["aggregate"]["schema"]]
            if len(hit) != 1:
                return "grouped columns %s" % hit
            nm = hit[0]
            ag, sch = p.cfg["aggregate"]["schema"][nm], p.cfg["schema"][nm]
            want = dict(zip([c[0] for c in cols], j.forms(it, frm, [c[1] for c in cols])))
            for kk in (ag["key"], p.cfg["aggregate"]["key"], sch[1]["key"]):
                if keyed(key_forms(kk)) != keyed(key):
                    return "the group key is %s, written %s" % (dump(kk), dump(key))
            for x, w in want.items():
                got = p.cfg["schema"][x] if x != nm else sch[1]["value"]
                if dump(got) != dump(w):
                    return "%s is %s, written %s" % (x, dump(got), dump(w))
            if dump(sch[2]) != dump([":#aggregate", "$.key", "$$.value"]) or dump(ag["aggregate"]) != dump(sch[2]) or dump(ag["value"]) != dump(want[nm]) \
                    or ag["reduce"] != "$$." + nm or ag["final_value"]:
                return "%s is not the value of the group: %s" % (nm, dump(ag))
            return ""
        lists = [[("x", a), ("y", add)], [("x", up)], [("x", c), ("y", bb), ("z", a)]]
        if joined:
            lists += [[("x", v), ("y", a)], [("x", lambda: b("Add", v(), a())), ("y", v)]]
        vary = dict(ops, **{
            "case value": lambda: s.node("Case", this=bb(), ifs=[s.node("If", this=n(1), true=c())], default=n(2)),
            "case": lambda: s.node("Case", ifs=[s.node("If", this=b("GT", a(), n(1)), true=c())], default=n(2)),
            "b>1": lambda: b("GT", bb(), n(1)), "a and b": lambda: b("And", a(), bb()), "in": lambda: s.node("In", this=bb(), expressions=[n(1), n(2)]),
            "null": s.null, "'x'": lambda: s.str("x"), "neg": lambda: s.node("Neg", this=bb()), "is null": lambda: b("Is", bb(), s.null()),
            "concat": lambda: s.func("concat", a(), bb()), "between": lambda: s.node("Between", this=bb(), low=n(1), high=a()),
        })
        lists += [[("x", c), ("y", o)] for o in vary.values()] + [[("x", o), ("y", c)] for o in vary.values()]
        for li, cols in enumerate(lists):
            for gname, group in groups.items():
                if group:
                    one("key", "no aggregates/%d FROM %s GROUP BY %s" % (li, fname, gname), cols, group,
                        lambda it, p: one_row(it, p, cols, keys(it, group)))
            one("distinct", "DISTINCT/%d FROM %s" % (li, fname), cols, [], lambda it, p: one_row(it, p, cols, j.forms(it, frm, [c[1] for c in cols])),
                distinct=True)
            one("distinct", "DISTINCT/%d FROM %s WHERE ORDER" % (li, fname), cols, [], lambda it, p: one_row(it, p, cols, j.forms(it, frm, [c[1] for c in cols])),
                distinct=True, where=lambda: b("Or", b("EQ", a(), n(1)), b("GT", bb(), n(2))),
                order=lambda: [s.ordered(s.col("x"), True)])

        # window functions
        parts = {"-": [], "a": [a], "a,b": [a, bb], "a+1": [add]}
        orders = {"-": [], "b": [(bb, False)], "b desc": [(bb, True)], "b,c desc": [(bb, False), (c, True)], "b desc,c": [(bb, True), (c, False)],
                  "b desc,c desc": [(bb, True), (c, True)], "a+1 desc": [(add, True)], "c,a,b desc": [(c, False), (a, False), (bb, True)]}
        if joined:
            parts.update({"uu.v": [v], "uu.v+a,b": [lambda: b("Add", v(), a()), bb]})
            orders.update({"uu.v desc": [(v, True)], "a,uu.v desc": [(a, False), (v, True)]})
        wcalls = [Call(s, "RowNumber", [])] + [Call(s, f, []) for f in ("rank", "dense_rank", "percent_rank", "cume_dist")] + \
            [Call(s, f, [a]) for f in ("first_value", "last_value", "lag", "lead")] + \
            [Call(s, "lag", [bb, const]), Call(s, "lead", [a, const, bb]), Call(s, "nth_value", [a, const]), Call(s, "ntile", [lambda: n(4)])] + \
            [Call(s, f, [a]) for f in ("Sum", "Avg", "Max", "Min", "Count", "group_array")] + [Call(s, "Count", []), Call(s, "Count", [a], True), Call(s, "Sum", [add])]
        if joined:
            wcalls += [Call(s, "Sum", [v]), Call(s, "lag", [v])]
        wcalls[0].calc = "row_number"
        pairs = [(x, y) for x in parts for y in orders]
        for wi, wc in enumerate(wcalls):
            for pi, (pn, on) in enumerate(pairs):
                if not ctx.thorough and (wi * 5 + pi) % (11 if fname != "t" else 7):
                    continue
                for named in (None, "ww") if pi % 2 else (None,):
                    w = Win(s, wc, parts[pn], orders[on], named)
                    kw = {"windows": lambda: [w.definition()]} if named else {}
                    one("window", "%s/%d OVER (%s, %s)%s FROM %s" % (wc.calc, wi, pn, on, " named" if named else "", fname),
                        [("c1", c), ("x", w.node)], [], lambda it, p: j.window(it, p, "x", frm, [w], None, []) or plain(it, p, "c1", c), where_w, **kw)
        W1 = Win(s, wcalls[0], [a], [(bb, True)])
        W2 = Win(s, Call(s, "Sum", [a]), [a])
        W3 = Win(s, Call(s, "lag", [bb, const]), [], [(c, False), (bb, True)])
        W4 = Win(s, Call(s, "Avg", [add]), [bb], [(c, False)])
        wex = {
            "row_number+1": ([W1], [], lambda g, o: b("Add", g[0], n(1))),
            "sum/avg": ([W2, W4], [], lambda g, o: b("Div", g[0], g[1])),
            "avg/sum": ([W4, W2], [], lambda g, o: b("Div", g[0], g[1])),
            "a-lag": ([W3], [a], lambda g, o: b("Sub", o[0], g[0])),
            "-row_number": ([W1], [], lambda g, o: s.node("Neg", this=g[0])),
            "if(row_number=1,c,lag)": ([W1, W3], [c], lambda g, o: s.node("If", this=b("EQ", g[0], n(1)), true=o[0], false=g[1])),
            "case": ([W2, W3], [c], lambda g, o: s.node("Case", ifs=[s.node("If", this=b("GT", g[0], n(1)), true=g[1])], default=o[0])),
            "concat": ([W1, W2], [c, a], lambda g, o: s.func("concat", o[0], g[0], g[1], o[1])),
            "row_number>2": ([W1], [], lambda g, o: b("GT", g[0], n(2))),
            "(sum-avg)*row_number": ([W2, W4, W1], [], lambda g, o: b("Mul", s.paren(b("Sub", g[0], g[1])), g[2])),
        }
        if joined:
            W5 = Win(s, Call(s, "Sum", [v]), [v], [(a, True)])
            wex["sum(uu.v)-uu.v"] = ([W5], [v], lambda g, o: b("Sub", g[0], o[0]))
            wex["avg+uu.v*a"] = ([W4], [v, a], lambda g, o: b("Add", g[0], b("Mul", o[0], o[1])))
        for wn, (ws, own, ex) in wex.items():
            one("window expression", "%s FROM %s" % (wn, fname), [("x", lambda: ex([w.node() for w in ws], [o() for o in own])), ("y", W3.node)], [],
                lambda it, p: j.window(it, p, "x", frm, ws, ex, own) or j.window(it, p, "y", frm, [W3], None, []), where_w)
            if own and tab:
                one("window expression", "%s beside output columns of other names FROM %s" % (wn, fname),
                    [("a", c), ("x", lambda: ex([w.node() for w in ws], [o() for o in own])), ("c", bb)], [],
                    lambda it, p: j.window(it, p, "x", frm, ws, ex, own), where_w)
        # keys of windows by output name
        for kname, (g, meaning) in keyed_by.items():
            used = g().attrs["args"]
            gn = [x for kk, x in used.d.values() if kk.v == "this"][0]
            gn = [x.v for kk, x in gn.attrs["args"].d.values() if kk.v == "this"][0]
            for pos in range(2):
                w, wm = Win(s, Call(s, "Sum", [a]), [g], [(g, True), (c, False)]), Win(s, Call(s, "Sum", [a]), [meaning], [(meaning, True), (c, False)])
                others = [("x", w.node)]
                cols = others[:pos] + ([outs[gn]] if gn in outs and outs[gn][0] else []) + others[pos:]
                one("window", "keys by %s at %d FROM %s" % (kname, pos, fname), cols, [], lambda it, p: j.window(it, p, "x", frm, [wm], None, []), where_w)

        # rejected
        def rejected(name, build):
            def entry(it):
                k.compile(it, build())
                return ""
            run(ctx, it, "reject", "%s FROM %s" % (name, fname), entry, where, raises=REJECT)
        for cl in (S, D, CS, G):
            nm = cl.calc
            rejected("WHERE %s" % nm, lambda: s.select([s.alias(a(), "x")], where=b("GT", cl.node(), n(1)), **frm()))
            rejected("GROUP BY %s" % nm, lambda: s.select([s.alias(a(), "x")], group=[cl.node()], **frm()))
            rejected("sum(%s)" % nm, lambda: s.select([s.alias(s.node("Sum", this=cl.node()), "x")], **frm()))
            rejected("sum(%s + 1) + 1" % nm, lambda: s.select([s.alias(b("Add", s.node("Sum", this=b("Add", cl.node(), n(1))), n(1)), "x")], **frm()))
            rejected("%s OVER () + %s" % (nm, nm), lambda: s.select([s.alias(b("Add", Win(s, W2.call, [a]).node(), cl.node()), "x")], **frm()))
            rejected("OVER (ORDER BY %s)" % nm, lambda: s.select([s.alias(Win(s, W2.call, [], [(cl.node, False)]).node(), "x")], **frm()))
            rejected("HAVING %s" % nm, lambda: s.select([s.alias(a(), "x")], group=[a()], having=b("GT", cl.node(), n(1)), **frm()))
        rejected("sum(DISTINCT a)", lambda: s.select([s.alias(s.node("Sum", this=s.node("Distinct", expressions=[a()])), "x")], **frm()))
        rejected("max(a, b)", lambda: s.select([s.alias(s.node("Max", this=a(), expressions=[bb()]), "x")], **frm()))
        rejected("group_concat(a, '-')", lambda: s.select([s.alias(s.node("GroupConcat", this=a(), separator=s.str("-")), "x")], **frm()))
    ctx.require("aggregate", 150)
    ctx.require("expression", 50)
    ctx.require("key", 60)
    ctx.require("window", 100)
    ctx.require("window expression", 30)
    ctx.require("reject", 60)


def carry(ctx, it, cs):
    """the aggregates that carry a column's value give the value all rows of the group have"""
    name = "aggregate_any_value"
    cls = cs[name]
    where = ctx.where(cls.node, cls.module.mod)
    for kind in ("int", "str", None, "null"):
        for n in (1, 2, 3):
            def entry(it):
                a = agg.Agg(it, cls, name)
                x = NONE if kind == "null" else agg.row(it, 0, kind)
                parts = [a.fold([x] * n), a.reduce(a.fold([x]), a.fold([x] * n)), a.reduce(NONE, a.fold([x])), a.reduce(a.fold([x]), NONE)]
                bad = [p for p in parts if agg.norm(it, a.final(p)) != agg.norm(it, x)]
                return "" if not bad else "gives %r of a group of %r" % (bad[0], x)
            run(ctx, it, "carry", "%s(%s) x %d" % (name, kind, n), entry, where)


def group_key(ctx, it, cs):
    cls = cs["aggregate_key"]
    where = ctx.where(cls.node, cls.module.mod)
    for kinds in (("int", "str"), ("str", "str", "str"), ("str", None), (None, None), ("int",) * 4):
        def entry(it):
            xs = [NONE if kd is None and i % 2 else agg.row(it, i, kd) for i, kd in enumerate(kinds)]
            r = it.call(it.getattr(it.call(cls, [C("aggregate_key")], {}), "calculate"), [ListV(list(xs))], {})
            if not isinstance(r, TupleV) or [agg.norm(it, x) for x in r.items] != [agg.norm(it, x) for x in xs]:
                return "the key of the values %s is %r" % (xs, r)
            return ""
        run(ctx, it, "group key", "keys %s" % (kinds,), entry, where)


def order_key(ctx, it, cs):
    """all orderings of two values (and NULL) per key, with every choice of directions"""
    cls = cs["window_order_key"]
    where = ctx.where(cls.node, cls.module.mod)
    it.inline_lib = tuple(it.inline_lib) + ("syncany.utils.CmpValue",)

    def less(it, a, b):
        if isinstance(a, (TupleV, ListV)):
            for x, y in zip(a.items, b.items):
                if not equal(it, x, y):
                    return less(it, x, y)
            return len(a.items) < len(b.items)
        if isinstance(a, C):
            return a.v < b.v
        return truth(it, it.call(it.getattr(a, "__lt__"), [b], {}))

    def equal(it, a, b):
        if isinstance(a, (TupleV, ListV)):
            return len(a.items) == len(b.items) and all(equal(it, x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, C):
            return a.v == b.v
        return truth(it, it.call(it.getattr(a, "__eq__"), [b], {}))

    def truth(it, v):
        if not isinstance(v, C):
            raise AnalysisBroken("comparison is not decided: %r" % (v,))
        return bool(v.v)

    rank = lambda v: (v is not None, v)
    for n in (2, 3):
        vals = list(itertools.product((0, 1, None) if n == 2 else (0, 1), repeat=n))
        for descs in itertools.product((False, True), repeat=n):
            def entry(it):
                f = it.getattr(it.call(cls, [C("window_order_key")], {}), "calculate")
                keys = [it.call(f, [ListV([C(x) for x in v]), ListV([C(d) for d in descs])], {}) for v in vals]
                for v, k in zip(vals, keys):
                    for w, m in zip(vals, keys):
                        want = False
                        for x, y, d in zip(v, w, descs):
                            if x != y:
                                want = (rank(x) < rank(y)) != d
                                break
                        if less(it, k, m) != want:
                            return "%s %s before %s" % (v, "is not" if want else "is", w)
                        if v == w and not equal(it, k, m):
                            return "%s is not its equal" % (v,)
                return ""
            run(ctx, it, "order key", "%d keys, descending %s" % (n, descs), entry, where)
