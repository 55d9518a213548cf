"""C07: positional window functions answer from the right row of the partition, and never outside it.

ROW_NUMBER, LAG, LEAD, FIRST_VALUE, LAST_VALUE and NTH_VALUE are interpreted abstractly for a partition of unknown
length N, an unknown current index 0 <= i < N and an unknown integer offset.  On every path the returned value is
either the value computed for this very window expression in row R of the partition, where R is a linear form over
{i, offset, N}, or the default / NULL.  With the path's comparisons as linear inequalities the check decides that
R is the definition's row, that 0 <= R < N is implied wherever a row is read, and that the default is given only where
the definition's row lies outside the partition.
"""
from sa.interp import C, Inst, ListV, NONE, Opaque, Term, TypeV, key_of
from sa.linear import add, const, consistent, entails, facts, form, same
from sa.project import AnalysisBroken
from .agg import agg_interp, calculaters

EXPLANATION = __doc__

# function -> row as a function of (i, off, N); None: no offset operand
ROW = {
    "lag": lambda i, o, n: add(i, o, -1),
    "lead": lambda i, o, n: add(i, o),
    "first_value": lambda i, o, n: const(0),
    "last_value": lambda i, o, n: add(n, const(-1)),
    "nth_value": lambda i, o, n: add(o, const(-1)),
}
ARITY = {"lag": (1, 2, 3), "lead": (1, 2, 3), "first_value": (1,), "last_value": (1,), "nth_value": (2, 3)}


def items_in(v):
    """(container, index) of every element access inside v"""
    if isinstance(v, Term):
        if v.op == "item" and len(v.args) == 2:
            yield v.args
        for a in v.args:
            if not isinstance(a, str):
                yield from items_in(a)


def check(ctx):
    ctx.rule("row", "an in-partition answer is the value of the definition's row")
    ctx.rule("bounds", "a row is read only where the path's conditions imply it exists")
    ctx.rule("default", "the default / NULL is given exactly when the definition's row is outside the partition")
    ctx.rule("own-value", "the value is the one computed for this window expression in that row")
    ctx.rule("row-number", "ROW_NUMBER of the row at index i is i + 1")
    it = agg_interp(ctx)
    cs = calculaters(it)
    for n in list(ROW) + ["row_number"]:
        if n not in cs:
            raise AnalysisBroken("window function %s is not registered" % n)

    def context(it):
        i = it.fresh("i", "int")
        ds = it.fresh("datas")
        ln = Term("len", (ds,), "int")
        if not it.decide(">=", i, C(0)) or not it.decide("<", i, ln):
            it.prune()
        pc = it.fresh("pc")
        c = Inst(TypeV("object"), {"current_index": i, "datas": ds, "partition_calculater": pc}, lazy=True, name="ctx")
        return i, ds, ln, pc, c

    def origin(it, v, ds):
        """value -> (row index key, element, list element?) when it is read from a row of the partition"""
        inner = v
        sub = None
        if isinstance(inner, Term) and inner.op == "item" and len(inner.args) == 2:
            sub, inner = inner.args[1], inner.args[0]
        if not (isinstance(inner, Term) and inner.op == "attr" and inner.args[1] == "value"):
            return None
        el = inner.args[0]
        src = None
        if isinstance(el, Opaque):
            for cont, members in iter_sources(it):
                if any(key_of(m) == key_of(el) for m in members):
                    src = cont
        if src is None and isinstance(el, Term) and el.op == "item":
            src = el.args[0]
        if src is None:
            return None
        k = key_of(src) if not isinstance(src, tuple) else src
        # item(item(datas, IDX), 2)
        if k[:2] == ("t", "item") and k[2][:2] == ("t", "item") and k[2][2] == key_of(ds):
            return k[2][3], el, sub
        return None

    def iter_sources(it):
        for k, v in it.inf.items():
            if isinstance(k, tuple) and k and k[0] == "iter":
                yield k[1], (v if isinstance(v, (list, tuple)) else getattr(v, "items", []))

    for name in ROW:
        w = ctx.where(cs[name].node, cs[name].module.mod)
        for nargs in ARITY[name]:
            for scalar in ((True,) if nargs == 1 else (False,)):     # one operand arrives bare, several as a list
                label = "%s/%d" % (name, nargs)
                res = {"row": None, "bounds": None, "default": None, "own-value": None}
                seen_row = [0]

                def entry(it):
                    i, ds, ln, pc, c = context(it)
                    v, off, dflt = it.fresh("v"), it.fresh("off", "int"), it.fresh("dflt")
                    if name == "nth_value" and not it.decide(">=", off, C(1)):
                        it.prune()
                    dv = v if scalar else ListV([v, off, dflt][:nargs])
                    if scalar:
                        it.set_type(v, "int")
                    inst = it.call(cs[name], [C(name + "::order_aggregate")], {})
                    got = it.call(it.getattr(inst, "calculate"), [NONE, dv, c], {})
                    fi, fn = form(key_of(i)), form(key_of(ln))
                    fo = form(key_of(off)) if nargs >= 2 else const(1)
                    want = ROW[name](fi, fo, fn)
                    fs, neq = facts(it.cmpf)
                    if not consistent(fs, neq):
                        it.prune()
                    inside = [want, add(add(fn, want, -1), const(-1))]
                    # every row read on the path is inside the partition
                    reads = set()
                    for k in list(it.inf) + [x for p in it.cmpf for x in p]:
                        collect_reads(k, key_of(ds), reads)
                    for r in reads:
                        f = form(r)
                        if f is not None and not f.get(None, 0) < 0 or f is not None and len(f) > 1:
                            if not (entails(fs, neq, f) and entails(fs, neq, add(add(fn, f, -1), const(-1)))):
                                it.event("bad", "bounds", "row %s may be read outside the partition" % show(r))
                    o = origin(it, got, ds)
                    if o is not None:
                        f = form(o[0])
                        if f is not None and set(f) == {None} and f[None] < 0:
                            f = add(f, fn)
                        if f is None or not (same(f, want) or all(
                                entails(fs, neq, add(x, y, -1)) for x, y in ((f, want), (want, f)))):
                            it.event("bad", "row", "answers from row %s" % show(o[0]))
                        ids = {key_of(Term("attr", (Term("attr", (e, "calculate_valuer")), "valuer_id"))) for e in (o[1], pc)}
                        if not any(s == {"="} and {a, b} == ids for (a, b), s in it.cmpf.items()):
                            it.event("bad", "own-value", "the value is not tied to this window expression")
                        if scalar == (o[2] is not None) or o[2] is not None and key_of(o[2]) != key_of(C(0)):
                            it.event("bad", "own-value", "the value is not the expression's own")
                        it.event("row")
                    else:
                        k = key_of(got)
                        is_d = nargs >= 3 and k == key_of(dflt) or nargs < 3 and k == key_of(NONE)
                        # in-range paths on which no element of the row belongs to this expression give NULL
                        ranged = all(entails(fs, neq, g) for g in inside)
                        if not is_d and not (ranged and k == key_of(NONE)):
                            it.event("bad", "row" if ranged else "default", "answers %r" % got)
                        if ranged and not has_probe(it, key_of(ds)):
                            it.event("bad", "default", "gives the default although the row exists")
                        elif not ranged and possible(fs, neq, inside):
                            it.event("bad", "default", "gives %r although row %s may exist" % (got, want))
                    return got
                for r in it.explore(entry):
                    if r.kind == "raise":
                        res["row"] = "raises %s on path [%s]" % (r.exc_name(), r.describe()[:200])
                        continue
                    for ev in r.events:
                        if ev[0] == "row":
                            seen_row[0] += 1
                        if ev[0] == "bad" and res[ev[1]] is None:
                            res[ev[1]] = "%s on path [%s]" % (ev[2], r.describe()[:300])
                if not seen_row[0]:
                    res["row"] = res["row"] or "no path answers from a row of the partition"
                for rule, bad in res.items():
                    ctx.ob(rule, label, bad is None, bad or "", w)

    def entry(it):
        i, ds, ln, pc, c = context(it)
        inst = it.call(cs["row_number"], [C("row_number::order_aggregate")], {})
        got = it.call(it.getattr(inst, "calculate"), [NONE, NONE, c], {})
        f = form(key_of(got))
        return f is not None and same(f, add(form(key_of(i)), const(1)))
    rs = it.explore(entry)
    ok = all(r.kind == "return" and r.value is True for r in rs) and rs
    ctx.ob("row-number", "row_number", bool(ok), "is not index + 1",
           ctx.where(cs["row_number"].node, cs["row_number"].module.mod))
    ctx.require("row", 9)
    ctx.assumptions.append("the partition holds the current row (0 <= i < N) and each row's third field lists the values "
                           "computed for the window expressions, identified by their valuer ids")


def possible(fs, neq, goals):
    return consistent(list(fs) + list(goals), neq)


def has_probe(it, ds):
    reads = set()
    for k in it.inf:
        collect_reads(k, ds, reads)
    return bool(reads)


def collect_reads(k, ds, out):
    if isinstance(k, tuple):
        if len(k) == 4 and k[:2] == ("t", "item") and k[2] == ds:
            out.add(k[3])
        for x in k:
            collect_reads(x, ds, out)


def show(k):
    if k[0] == "n":
        return "%g" % k[1]
    if k[0] == "t":
        return "%s(%s)" % (k[1], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in k[2:]))
    return "x%s" % k[-1]
