"""C02: comparison predicates follow three-valued logic and agree with one another.

The six comparison functions are interpreted abstractly for every pair of operand kinds (NULL, bool, int, float,
Decimal, str, bytes, date, datetime, time, an untyped value).  Values reach the result only through comparisons, so a
non-NULL pair is abstracted by its three possible orderings: on every path the result must be the truth-table entry of
the operator for exactly the orderings the path admits, for one compared pair whose left side derives from the left
operand and whose right side derives from the right operand; the six functions must compare the same pair for the same
kinds.  IS / IS NOT / IN / NOT are decided against their truth tables over {NULL, equal, different} abstract operands.
"""
from sa.interp import C, FuncV, ListV, NONE, Opaque, Term, TupleV, V, key_of
from sa.project import AnalysisBroken
from .scalar import nonnull, registry, scalar_interp, where

EXPLANATION = __doc__

KINDS = ["bool", "int", "float", "decimal.Decimal", "str", "bytes", "datetime.date", "datetime.datetime",
         "datetime.time", None]
OPS = {"eq": "=", "neq": "<>", "gt": ">", "gte": ">=", "lt": "<", "lte": "<="}
NEG = {"eq": "neq", "gt": "lte", "gte": "lt"}
ORDERED = {("int", "int"), ("float", "float"), ("str", "str"), ("int", "float"), ("float", "int"), ("int", "str"),
           ("str", "int"), ("float", "str"), ("str", "float"), ("datetime.date", "datetime.date"),
           ("datetime.datetime", "datetime.datetime"), ("datetime.time", "datetime.time"),
           ("str", "datetime.date"), ("str", "datetime.datetime"), ("bool", "int"), ("int", "bool"), ("bool", "bool"),
           ("decimal.Decimal", "decimal.Decimal"), ("decimal.Decimal", "int"), ("int", "decimal.Decimal"),
           ("decimal.Decimal", "str"), ("str", "decimal.Decimal")}


def derives(v, src):
    if v is src or key_of(v) == key_of(src):
        return True
    if isinstance(v, Term):
        return any(derives(a, src) for a in v.args if isinstance(a, V))
    return False


def spy(it):
    """record every undecided ordering comparison as an event ('cmp', left, right)"""
    old = it.decide

    def decide(op, a, b):
        if not (isinstance(a, C) and isinstance(b, C)) and not any(isinstance(x, Term) and x.op == "type" for x in (a, b)):
            it.event("cmp", a, b)
        return old(op, a, b)
    it.decide = decide


def num(v):
    return v.v if isinstance(v, C) and isinstance(v.v, (int, bool)) or isinstance(v, C) and v.v is None else "?"


def check(ctx):
    ctx.rule("null-operand", "a NULL operand of a comparison gives NULL")
    ctx.rule("ordering-table", "the result is the operator's truth-table entry for the ordering of the compared pair")
    ctx.rule("comparable", "operands of comparable kinds are compared (some path orders them and gives 1, another gives 0)")
    ctx.rule("same-pair", "the six operators compare the same pair for the same operand kinds")
    ctx.rule("is-null", "IS / IS NOT answer 1 or 0 for NULL operands, never NULL, and are complements")
    ctx.rule("in-list", "IN: NULL needle -> NULL, any equal element -> 1, else NULL if the list has a NULL, else 0")
    ctx.rule("not-table", "NOT: NULL -> NULL, false -> 1, true -> 0")
    it = scalar_interp(ctx)
    reg = registry(ctx, it)
    fs = {}
    for n in list(OPS) + ["is", "is_not", "in", "not", "exists"]:
        f = reg.get(n)
        if not isinstance(f, FuncV):
            raise AnalysisBroken("comparison function %s is not registered" % n)
        fs[n] = f
    spy(it)

    for n in OPS:
        f = fs[n]
        for ka in KINDS:
            for side in (0, 1, 2):
                if side == 2 and ka is not None:
                    continue

                def entry(it):
                    x = nonnull(it, "x", ka)
                    args = [NONE, x] if side == 0 else [x, NONE] if side == 1 else [NONE, NONE]
                    return it.call(f, args, {})
                bad = None
                for r in it.explore(entry):
                    if r.kind != "return" or num(r.value) is not None:
                        bad = r
                        break
                ctx.ob("null-operand", "%s/%s" % (n, ["NULL op " + str(ka), "%s op NULL" % ka, "NULL op NULL"][side]),
                       bad is None, bad and "gives %r on path [%s]" % (bad.value, bad.describe()), where(ctx, f))

    for ka in KINDS:
        for kb in KINDS:
            if ka is None or kb is None:
                if not (ka is None and kb is None):
                    continue
            pairs = {}
            for n in OPS:
                f = fs[n]
                hold = {}

                def entry(it):
                    a, b = nonnull(it, "a", ka), nonnull(it, "b", kb)
                    hold["a"], hold["b"] = a, b
                    v = it.call(f, [a, b], {})
                    out = []
                    for e in it.events:
                        if e[0] == "cmp":
                            l, r_ = e[1], e[2]
                            if derives(l, a) and derives(r_, b):
                                fl = False
                            elif derives(l, b) and derives(r_, a):
                                l, r_, fl = r_, l, True
                            else:
                                continue
                            out.append((l, r_, it.cmpf.get((key_of(l), key_of(r_)), {"<", "=", ">"})))
                    return TupleV([v]), out
                rs = [r for r in it.explore(entry)]
                bad, seen = None, set()
                for r in rs:
                    if r.kind == "raise":
                        continue
                    tv, cm = r.value
                    v = num(tv.items[0])
                    if v not in (0, 1) or v is None:
                        bad = (r, "returns %r for non-NULL operands" % (tv.items[0],))
                        break
                    keys = {(key_of(l), key_of(q)) for l, q, _ in cm}
                    if not cm:
                        # never comparable: only = / <> have an answer
                        if n == "eq" and v == 0 or n == "neq" and v == 1:
                            continue
                        bad = (r, "answers %r without comparing the operands" % v)
                        break
                    if len(keys) > 1:
                        bad = (r, "compares different pairs on one path")
                        break
                    l, q, al = cm[-1]
                    pairs.setdefault(n, set()).add((key_of(l), key_of(q)))
                    ok = (al <= it.ORD[{"=": "==", "<>": "!="}.get(OPS[n], OPS[n])]) if v else \
                        not (al & it.ORD[{"=": "==", "<>": "!="}.get(OPS[n], OPS[n])])
                    seen.add(v)
                    if not ok:
                        bad = (r, "answers %d although the compared pair may be %s" % (v, "/".join(sorted(al))))
                        break
                cons = "%s/%s,%s" % (n, ka, kb)
                ctx.ob("ordering-table", cons, bad is None, bad and "%s on path [%s]" % (bad[1], bad[0].describe()), where(ctx, f))
                if (ka, kb) in ORDERED:
                    ctx.ob("comparable", cons, bad is not None or seen == {0, 1},
                           "no path gives both answers (seen %s)" % sorted(seen), where(ctx, f))
            if (ka, kb) in ORDERED:
                ref = pairs.get("eq")
                for n in OPS:
                    ctx.ob("same-pair", "%s/%s,%s" % (n, ka, kb), pairs.get(n) == ref,
                           "compares %s while = compares %s" % (sorted(map(str, pairs.get(n) or [])), sorted(map(str, ref or []))),
                           where(ctx, fs[n]))

    # IS / IS NOT
    for ka in KINDS:
        for args_of, want, tag in ((lambda a: [a, NONE], 0, "%s IS NULL"), (lambda a: [NONE, a], 0, "NULL IS %s")):
            for n in ("is", "is_not"):
                w = want if n == "is" else 1 - want
                rs = it.explore(lambda it: it.call(fs[n], args_of(nonnull(it, "a", ka)), {}))
                bad = [r for r in rs if r.kind != "return" or num(r.value) != w]
                ctx.ob("is-null", n + ":" + tag % ka, not bad, bad and "gives %r, expected %d" % (bad[0].value, w), where(ctx, fs[n]))
    for n, w in (("is", 1), ("is_not", 0)):
        rs = it.explore(lambda it: it.call(fs[n], [NONE, NONE], {}))
        bad = [r for r in rs if r.kind != "return" or num(r.value) != w]
        ctx.ob("is-null", n + ":NULL IS NULL", not bad, bad and "gives %r" % (bad[0].value,), where(ctx, fs[n]))
    for ka in ("int", "bool", "str", "float"):
        for lit in (True, False):
            def entry(it):
                x = nonnull(it, "a", ka)
                return TupleV([it.call(fs["is"], [x, C(lit)], {}), it.call(fs["is_not"], [x, C(lit)], {})])
            bad = [r for r in it.explore(entry) if r.kind != "return" or
                   sorted(str(num(x)) for x in r.value.items) != ["0", "1"]]
            ctx.ob("is-null", "%s IS [NOT] %s" % (ka, lit), not bad,
                   bad and "IS and IS NOT are not complementary: %r" % (bad[0].value,), where(ctx, fs["is"]))

    # IN over lists of up to two elements, each NULL or a non-NULL value
    f = fs["in"]
    for shape in ((), ("v",), ("n",), ("v", "n"), ("n", "v"), ("v", "v"), ("n", "n"), ("v", "n", "v")):
        for needle in ("v", "n"):
            def entry(it):
                a = NONE if needle == "n" else nonnull(it, "a", "int")
                xs = [NONE if k == "n" else nonnull(it, "e%d" % i, "int") for i, k in enumerate(shape)]
                v = it.call(f, [a, ListV(xs)], {})
                if needle == "n":
                    return TupleV([v]), "null"
                eqs = [it.cmpf.get((key_of(a), key_of(x))) for x in xs if x is not NONE]
                if any(e == {"="} for e in eqs):
                    w = 1
                elif all(e is not None and "=" not in e for e in eqs):
                    w = "null" if "n" in shape else 0
                else:
                    w = "undecided"
                return TupleV([v]), w
            bad = None
            for r in it.explore(entry):
                if r.kind != "return":
                    bad = (r, "raises %s" % r.exc_name())
                    break
                tv, w = r.value
                v = num(tv.items[0])
                if (w == "null" and v is not None) or (w != "null" and v != w) or v == "?":
                    if w == "null" and needle == "n" and not shape and v in (0, None):
                        continue
                    bad = (r, "gives %r, expected %s" % (tv.items[0], w))
                    break
            ctx.ob("in-list", "%s IN (%s)" % (needle, ",".join(shape)), bad is None,
                   bad and "%s on path [%s]" % (bad[1], bad[0].describe()), where(ctx, f))

    # NOT
    f = fs["not"]
    for k, w in ((NONE, None), (C(0), 1), (C(1), 0), (C(False), 1), (C(True), 0), (C(0.0), 1)):
        rs = it.explore(lambda it: it.call(f, [k], {}))
        bad = [r for r in rs if r.kind != "return" or num(r.value) != w or (num(r.value) is None) != (w is None)]
        ctx.ob("not-table", "NOT %r" % (k.v,), not bad, bad and "gives %r" % (bad[0].value,), where(ctx, f))

    def entry(it):
        a = nonnull(it, "a", "int")
        v = it.call(f, [a], {})
        return TupleV([v]), it.cmpf.get((key_of(a), key_of(C(0))))
    bad = [r for r in it.explore(entry) if r.kind != "return" or num(r.value[0].items[0]) != (1 if r.value[1] == {"="} else 0)]
    ctx.ob("not-table", "NOT int", not bad, "wrong truth value", where(ctx, f))
    ctx.require("ordering-table", 400)
    ctx.require("comparable", 100)
