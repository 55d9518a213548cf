"""C05: splitting a group into parts and merging the partial states gives the aggregate of the whole group.

For every aggregate and every split of up to four rows (each NULL or a symbolic value) into two or three parts, the
partial states are folded abstractly, merged left to right starting from "no state", finalised, and compared in normal
form with the fold over all rows on the same path (both computations share the path's facts).  Merging must never lose
a state (merge of a state with "no state" is that state) and must not return "no state" when either side has one.
"""
import itertools

from sa.interp import C, NONE, TupleV
from sa.project import AnalysisBroken
from .agg import Agg, KINDS, agg_interp, calculaters, final_norm, norm, row

EXPLANATION = __doc__


def check(ctx):
    ctx.rule("merge-equals-whole", "final(merge(state(A), state(B))) = final(state(A ++ B))")
    ctx.rule("merge-unit", "merging with an absent state keeps the other state, on both sides")
    it = agg_interp(ctx)
    cs = calculaters(it)
    splits = [((1, 1)), (1, 2), (2, 1), (1, 1, 1)]
    if ctx.thorough:
        splits += [(2, 2), (1, 3), (3, 1), (2, 1, 1), (1, 1, 2)]
    for name, kinds in KINDS.items():
        cls = cs.get(name)
        if cls is None:
            raise AnalysisBroken("aggregate %s is not registered" % name)
        w = ctx.where(cls.node, cls.module.mod)
        for kind in kinds:
            for split in splits:
                n = sum(split)
                for shape in itertools.product("vn", repeat=n):
                    def entry(it):
                        a = Agg(it, cls, name)
                        rows = [row(it, i, kind) if c == "v" else NONE for i, c in enumerate(shape)]
                        whole = final_norm(it, name, a.final(a.fold(rows)))
                        st, off = NONE, 0
                        for k in split:
                            st = a.reduce(st, a.fold(rows[off:off + k]))
                            off += k
                        merged = final_norm(it, name, a.final(st))
                        return final_norm(it, name, a.final(a.fold(rows))), merged, whole
                    bad = None
                    for r in it.explore(entry):
                        if r.kind == "raise":
                            bad = "raises %s on path [%s]" % (r.exc_name(), r.describe())
                            break
                        whole, merged, _ = r.value
                        if whole != merged:
                            bad = "whole group gives %s, merged parts give %s on path [%s]" % (whole, merged, r.describe())
                            break
                    ctx.ob("merge-equals-whole", "%s(%s)/%s split %s" % (name, kind, "".join(shape), "+".join(map(str, split))),
                           bad is None, bad or "", w)
            for side in (0, 1):
                def entry(it):
                    a = Agg(it, cls, name)
                    rows = [row(it, i, kind) for i in range(2)]
                    st = a.fold(rows)
                    want = norm(it, st)
                    got = a.reduce(NONE, st) if side == 0 else a.reduce(st, NONE)
                    return want, norm(it, got)
                bad = None
                for r in it.explore(entry):
                    if r.kind == "raise":
                        bad = "raises %s" % r.exc_name()
                    elif r.value[0] != r.value[1]:
                        bad = "state %s becomes %s" % r.value
                ctx.ob("merge-unit", "%s(%s)/%s" % (name, kind, ["absent+state", "state+absent"][side]), bad is None, bad or "", w)
    ctx.require("merge-equals-whole", 400)
    ctx.assumptions.append("+, &, |, ^ on numbers are associative and commutative (floating point rounding is not modelled)")
