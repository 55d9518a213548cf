"""shared by the aggregate checks: symbolic rows, normal forms, reference values"""
from sa.interp import C, DictV, FuncV, GenV, Inst, ListV, NONE, Opaque, SetV, Term, TupleV, V, ClassV, BoundV, PyV, key_of
from sa.project import AnalysisBroken
from .scalar import nonnull, scalar_interp

REG = "syncanysql.calculaters.SQL_CALCULATERS"
AC = {"+", "&", "|", "^", "*"}
# function -> element kinds it is decided for
KINDS = {
    "aggregate_count": ["int", "str", None],
    "aggregate_distinct_count": ["int", "str"],
    "aggregate_sum": ["int", "float", "str"],
    "aggregate_max": ["int", "str", "datetime.date"],
    "aggregate_min": ["int", "str", "datetime.date"],
    "aggregate_avg": ["int", "float", "str"],
    "group_concat": ["int", "str", None],
    "group_array": ["int", None],
    "group_uniq_array": ["int", "str"],
    "group_bit_and": ["int", "str"],
    "group_bit_or": ["int", "str"],
    "group_bit_xor": ["int", "str"],
    "json_arrayagg": ["int", None],
    "json_objectagg": ["pair"],
}


def agg_interp(ctx, **kw):
    return scalar_interp(ctx, inline_lib=("syncany.calculaters.calculater",), **kw)


def calculaters(it):
    d = it.get(REG)
    if not isinstance(d, DictV):
        raise AnalysisBroken("calculater registry is not a static dict")
    return {k.v: v for k, v in d.d.values()}


def row(it, i, kind):
    if kind == "pair":
        return ListV([nonnull(it, "k%d" % i, "str"), nonnull(it, "v%d" % i, "int")])
    return nonnull(it, "x%d" % i, kind)


class Agg:
    """aggregate / reduce / final_value of one function, through the calculater's own dispatch"""

    def __init__(self, it, cls, name):
        self.it, self.cls, self.name = it, cls, name

    def part(self, part):
        inst = self.it.call(self.cls, [C(self.name + "::" + part)], {})
        return self.it.getattr(inst, "calculate")

    def fold(self, rows, state=NONE):
        f = self.part("aggregate")
        for r in rows:
            state = self.it.call(f, [state, r], {})
        return state

    def reduce(self, a, b):
        return self.it.call(self.part("reduce"), [a, b], {})

    def has_final(self):
        from sa.interp import type_name
        return self.it.class_lookup(self.cls, "final_value") is not None

    def final(self, state):
        if not self.has_final():
            return state
        return self.it.call(self.part("final_value"), [state], {})


def rep(it, v):
    """representative of an opaque value under the path's equality facts"""
    k = key_of(v)
    best = k
    seen, todo = {k}, [k]
    while todo:
        c = todo.pop()
        for (a, b), s in it.cmpf.items():
            if a == c and s == {"="} and b not in seen:
                seen.add(b)
                todo.append(b)
    return min(seen, key=repr)


def norm(it, v):
    if isinstance(v, SetV):
        return ("set", frozenset(norm(it, x) for x in v.items), v.open)
    if isinstance(v, ListV):
        return ("list", tuple(norm(it, x) for x in v.items), v.open)
    if isinstance(v, TupleV):
        return ("tuple", tuple(norm(it, x) for x in v.items))
    if isinstance(v, GenV):
        return ("list", tuple(norm(it, x) for x in v.items), False)
    if isinstance(v, DictV):
        return ("dict", frozenset((norm(it, k), norm(it, x)) for k, x in v.d.values()), v.open)
    if isinstance(v, C):
        return ("const", key_of(v))
    if isinstance(v, (Term, Opaque)):
        r = rep(it, v)
        if r[0] in ("n", "c"):
            return ("const", r)
    if isinstance(v, Term):
        if v.op.startswith("conv:") and v.args:
            return ("conv", v.op, norm(it, v.args[0]))
        if v.op in AC and len(v.args) == 2:
            flat, k = [], 0
            todo = list(v.args)
            while todo:
                x = todo.pop()
                if isinstance(x, Term) and x.op == v.op and len(x.args) == 2:
                    todo += list(x.args)
                elif isinstance(x, C) and v.op == "+" and isinstance(x.v, (int, float)):
                    k += x.v
                else:
                    n = norm(it, x)
                    if v.op == "+" and n[0] == "const" and n[1][0] == "n":
                        k += n[1][1]
                    else:
                        flat.append(n)
            if k or not flat:
                flat.append(("const", ("n", float(k))))
            if len(flat) == 1:
                return flat[0]
            return ("ac", v.op, tuple(sorted(flat, key=repr)))
        if v.op == "call" and v.args and v.args[0] == "json.dumps":
            return ("json", norm(it, v.args[1]))
        return ("term", v.op) + tuple(x if isinstance(x, str) else norm(it, x) for x in v.args)
    if isinstance(v, Opaque):
        return ("val", rep(it, v))
    return ("other", key_of(v))


def is_set_like(n):
    return n == "group_uniq_array"


def final_norm(it, name, v):
    n = norm(it, v)
    if is_set_like(name) and n[0] in ("list", "tuple"):
        return ("set", frozenset(n[1]), False)
    return n
