"""C03: a failing scalar function gives NULL, and its operands reach it unchanged.

The scalar calculater is instantiated abstractly for every function of the registry and called once per legal argument
count with distinct symbolic operands; the implementation is replaced by a stand-in that records the operands it is
given and then either returns a symbolic result or raises one of the exception classes below.  On every path the
recorded operands must be exactly the given ones, in order, with omitted optional operands left to their defaults, the
result must be the implementation's result, and a raised exception must become NULL.
"""
from sa.interp import C, FuncV, NONE, PyV, key_of
from sa.project import AnalysisBroken
from .scalar import NAMES, PKG, arg_shapes, registry, scalar_interp, where

EXPLANATION = __doc__
ERRORS = ["ValueError", "KeyError", "TypeError", "ZeroDivisionError", "AttributeError", "IndexError", "OverflowError",
          "UnicodeDecodeError", "RuntimeError"]
CLS = "syncanysql.calculaters.mysql_calculater.MysqlCalculater"


def check(ctx):
    ctx.rule("operands", "the implementation receives exactly the given operands in order, defaults untouched")
    ctx.rule("result", "the implementation's result is returned unchanged")
    ctx.rule("contained", "an exception raised by the implementation becomes NULL")
    ctx.rule("dispatch", "the operator name resolves to the registered implementation")
    it = scalar_interp(ctx, inline_lib=("syncany.calculaters.calculater",))
    reg = registry(ctx, it)
    cls = it.get(CLS)
    for name in NAMES:
        f = reg.get(name)
        if not isinstance(f, FuncV):
            continue
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        nd = len(f.defaults)
        full = {}
        for i, n in enumerate(names):
            j = i - (len(names) - nd)
            if j >= 0:
                full[i] = f.defaults[j]

        for total in arg_shapes(f):
            state = {}

            def model(it, args, kwargs, node):
                # bind like the implementation would
                got = list(args)
                if kwargs:
                    for i, n in enumerate(names):
                        if n in kwargs and i == len(got):
                            got.append(kwargs[n])
                it.event("impl", got)
                k = it.choose(len(ERRORS) + 1, "implementation raises")
                if k:
                    it.raise_(ERRORS[k - 1], "from the implementation", node)
                state["ret"] = it.fresh("result")
                return state["ret"]

            def entry(it):
                args = [it.fresh("arg%d" % i) for i in range(total)]
                state["args"] = args
                inst = it.call(cls, [C("mysql::" + name)], {})
                it.models[f.qual] = model
                try:
                    v = it.call(it.getattr(inst, "calculate"), args, {})
                finally:
                    del it.models[f.qual]
                return v, args, state.get("ret")
            w = where(ctx, f)
            bad_ops = bad_res = bad_exc = bad_disp = None
            for r in it.explore(entry):
                calls = [e for e in r.events if e[0] == "impl"]
                raised = any(t[2] == "implementation raises" and t[0] for t in r.trail)
                if r.kind == "raise":
                    if raised:
                        bad_exc = bad_exc or "escapes as %s" % r.exc_name()
                    else:
                        bad_disp = bad_disp or "calling it with %d operands raises %s" % (total, r.exc_name())
                    continue
                v, args, ret = r.value
                if len(calls) != 1:
                    bad_disp = bad_disp or "the implementation is called %d times" % len(calls)
                    continue
                got = calls[0][1]
                want = list(args)
                ok = len(got) >= len(want) and all(key_of(a) == key_of(b) for a, b in zip(got, want))
                if ok:
                    for i in range(len(want), len(got)):
                        if i not in full or key_of(full[i]) != key_of(got[i]):
                            ok = False
                if not ok:
                    bad_ops = bad_ops or "given %r, receives %r" % (want, got)
                if raised:
                    if not (isinstance(v, C) and v.v is None):
                        bad_exc = bad_exc or "gives %r" % (v,)
                elif v is not ret:
                    bad_res = bad_res or "result %r, returned %r" % (ret, v)
            c = "%s/%d" % (name, total)
            ctx.ob("dispatch", c, not bad_disp, bad_disp or "", w)
            ctx.ob("operands", c, not bad_ops, bad_ops or "", w)
            ctx.ob("result", c, not bad_res, bad_res or "", w)
            ctx.ob("contained", c, not bad_exc, bad_exc or "", w)
    ctx.require("operands", 150)
