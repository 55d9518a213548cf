"""C24: DELETE removes rows by its whole WHERE condition or is rejected.

`Compiler.compile_delete` is interpreted abstractly on DELETE statements with the conditions of C09.  Each must either be
rejected with a compile error or hand the delete exactly the condition written; without WHERE there is no condition; and
conjunctions of comparisons of different columns with constants must be accepted."""
from sa.interp import C, DictV
from . import forms
from .c09 import Conditions, atoms, describe, judge, trees
from .forms import freeze
from .sqlnodes import COMPILER
from .stmt import at

EXPLANATION = __doc__


def simple(t):
    """must be accepted: a conjunction of comparisons of distinct columns with non-NULL constants"""
    cols = []

    def rec(t):
        if t[0] == "and":
            return rec(t[1]) and rec(t[2])
        if t[0] == "paren":
            return rec(t[1])
        if t[0] in ("EQ", "NEQ", "GT", "GTE", "LT", "LTE"):
            cols.append(t[2])
            return t[1] in ("col", "pcol") and t[3] in ("num", "str", "neg", "dec")
        if t[0] == "In":
            cols.append(t[2])
            return t[1] in ("col", "pcol") and isinstance(t[3], tuple) and set(t[3]) <= {"num", "str", "neg", "dec"}
        return False
    return rec(t) and len(cols) == len(set(cols))


def check(ctx):
    ctx.rule("delete", "the condition of the delete is exactly the WHERE condition, or the statement is rejected")
    ctx.rule("accepted", "comparisons of distinct columns with constants are accepted")
    ctx.rule("target", "the delete runs on the named table and loads no rows to write")
    k = Conditions(ctx)
    it, s = k.it, k.s
    forms.REGISTERED = {kk.v for kk, _ in it.get("syncanysql.calculaters.mysql_funcs.funcs").d.values()}
    where = at(ctx, it, "compile_delete")
    it.models["syncanysql.config.SessionConfig.create_tasker_config"] = lambda it, a, kw, n: DictV()

    def compiled(it, cond):
        k.world(it)
        from sa.interp import Inst
        k.comp.attrs["config"] = Inst(it.get("syncanysql.config.SessionConfig"), {}, name="session_config")
        kw = {"where": s.node("Where", this=cond)} if cond is not None else {}
        return it.call(it.getattr(k.comp, "compile_delete"), [s.node("Delete", this=s.table("t"), **kw), k.args], {})

    def one(t):
        rejected = []

        def entry(it):
            k.correlated = False
            cond, want = k.tree(t)
            cfg = compiled(it, cond)
            return judge(freeze(cfg.cget("querys")), [], want)
        bad, n = None, 0
        for r in it.explore(entry):
            n += 1
            if r.kind == "raise":
                if r.exc_name().split(".")[-1] != "SyncanySqlCompileException":
                    bad = bad or "raises %s" % r.exc_name()
                else:
                    rejected.append(1)
            elif r.value:
                bad = bad or r.value
        if not n:
            bad = "no path"
        ctx.ob("delete", describe(t), not bad, bad or "", where)
        if simple(t):
            ctx.ob("accepted", describe(t), not rejected, "rejected", where)

    jc = lambda a: "jcol" in (a[1], a[3]) or "jexpr" in (a[1], a[3]) or (isinstance(a[3], tuple) and "jcol" in a[3])
    for a in atoms(ctx.thorough):
        if not jc(a):
            one(a)
    for t in trees(ctx.thorough):
        if "jcol" not in describe(t):
            one(t)

    def plain(it):
        cfg = compiled(it, None)
        if freeze(cfg.cget("querys")):
            return "a DELETE without WHERE has conditions"
        return ""

    def target(it):
        cfg = compiled(it, s.b("EQ", s.col("k"), s.num(1)))
        f = freeze(cfg)
        if not str(f["output"]).startswith("&.--.t::") or not str(f["output"]).endswith(" use DI"):
            return "output is %s" % f["output"]
        if f.get("loader") != "const_loader" or f.get("loader_arguments", {}).get("datas") != []:
            return "rows would be written after the delete"
        return ""
    from .stmt import run
    run(ctx, it, "target", "DELETE FROM t", plain, where)
    run(ctx, it, "target", "DELETE FROM t WHERE", target, where)
    ctx.require("delete", 900)
    ctx.require("accepted", 100)
