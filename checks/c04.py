"""C04: an aggregate is a function of the non-NULL values of its group.

Every aggregate of the registry is folded abstractly over every sequence of up to three rows (four in the thorough
tier), each NULL or a distinct symbolic value, for several kinds of values.  The finalised result, in a normal form
modulo associativity/commutativity of its operator and the orderings decided on the path, must be the aggregate's
definition over the non-NULL rows only; with no non-NULL row finalising must not fail and the result must not depend
on how many NULLs were seen.
"""
import itertools

from sa.interp import C, DictV, ListV, NONE, SetV, Term, key_of
from sa.project import AnalysisBroken
from .agg import Agg, KINDS, agg_interp, calculaters, final_norm, norm, rep, row

EXPLANATION = __doc__


def conv(kind, x, to="ensure_number"):
    return Term("conv:" + to, (x,), "float") if kind == "str" else x


def fold_term(op, xs):
    v = xs[0]
    for x in xs[1:]:
        v = Term(op, (v, x))
    return v


def reference(it, name, kind, xs):
    """normal form of the aggregate over the non-empty list of values xs"""
    if name == "aggregate_count":
        return norm(it, C(len(xs)))
    if name == "aggregate_distinct_count":
        return norm(it, C(len({norm(it, x) for x in xs})))
    if name == "aggregate_sum":
        return norm(it, fold_term("+", [conv(kind, x) for x in xs]))
    if name == "aggregate_avg":
        return norm(it, Term("/", (fold_term("+", [conv(kind, x) for x in xs]), C(len(xs)))))
    if name == "group_concat":
        return norm(it, Term("join", (C(","),) + tuple(x if kind == "str" else Term("str", (x,), "str") for x in xs), "str"))
    if name == "group_array":
        return norm(it, ListV(xs))
    if name == "group_uniq_array":
        return ("set", frozenset(norm(it, x) for x in xs), False)
    if name.startswith("group_bit_"):
        return norm(it, fold_term({"and": "&", "or": "|", "xor": "^"}[name[10:]], [conv(kind, x, "ensure_int") for x in xs]))
    if name == "json_arrayagg":
        return ("json", norm(it, ListV(xs)))
    if name == "json_objectagg":
        return None     # keys are formatted: compared with the fold over the non-NULL rows
    raise AnalysisBroken("no reference for %s" % name)


def bound_ok(it, name, v, xs):
    """v is one of xs and bounds the others on this path"""
    k = key_of(v)
    if k not in [key_of(x) for x in xs]:
        return False
    good = {">", "="} if name == "aggregate_max" else {"<", "="}
    return all(key_of(x) == k or it._allowed(v, x, k, key_of(x)) <= good for x in xs)


def single_concat(n):
    # ",".join of one element is that element
    if n[0] == "term" and n[1] == "join" and len(n) == 4:
        return n[3]
    return n


def check(ctx):
    ctx.rule("nulls-skipped", "finalised fold over rows = the aggregate of the non-NULL rows")
    ctx.rule("no-values", "finalising a group without non-NULL values does not fail and does not depend on the number of NULLs")
    ctx.rule("bound", "MAX / MIN is one of the non-NULL values and bounds them all")
    it = agg_interp(ctx)
    cs = calculaters(it)
    n = 4 if ctx.thorough else 3
    for name, kinds in KINDS.items():
        cls = cs.get(name)
        if cls is None:
            raise AnalysisBroken("aggregate %s is not registered" % name)
        w = ctx.where(cls.node, cls.module.mod)
        empties = {}
        for kind in kinds:
            for shape in [s for k in range(1, n + 1) for s in itertools.product("vn", repeat=k)]:
                def entry(it):
                    a = Agg(it, cls, name)
                    rows = [row(it, i, kind) if c == "v" else NONE for i, c in enumerate(shape)]
                    xs = [r for r in rows if r is not NONE]
                    v = a.final(a.fold(rows))
                    if not xs:
                        return final_norm(it, name, v), None, None, ()
                    if name in ("aggregate_max", "aggregate_min"):
                        return None, None, bound_ok(it, name, v, xs), v
                    ref = reference(it, name, kind, xs)
                    if ref is None:
                        ref = final_norm(it, name, a.final(a.fold(xs)))
                    return single_concat(final_norm(it, name, v)), single_concat(ref), None, xs
                cons = "%s(%s)/%s" % (name, kind, "".join(shape))
                bad = None
                for r in it.explore(entry):
                    if r.kind == "raise":
                        bad = "raises %s on path [%s]" % (r.exc_name(), r.describe())
                        break
                    got, ref, bound, xs = r.value
                    if xs == ():
                        if empties.setdefault(name, got) != got:
                            bad = "gives %s for this many NULLs and %s for another" % (got, empties[name])
                        elif name == "aggregate_count" and got != ("const", ("n", 0.0)):
                            bad = "COUNT of NULLs is %s" % (got,)
                    elif bound is not None:
                        if not bound:
                            bad = "gives %r which is not the %s of the values on path [%s]" % (xs, name[-3:], r.describe())
                    elif got != ref:
                        bad = "gives %s, expected %s on path [%s]" % (got, ref, r.describe())
                    if bad:
                        break
                rule = "no-values" if "v" not in shape else "bound" if name in ("aggregate_max", "aggregate_min") else "nulls-skipped"
                ctx.ob(rule, cons, bad is None, bad or "", w)
    ctx.require("nulls-skipped", 150)
    ctx.require("no-values", 30)
    ctx.assumptions.append("+, &, |, ^ on numbers are associative and commutative (floating point rounding is not modelled)")
