"""C08: an SQL expression is compiled to the calculation it means.

`Compiler.compile_calculate` is analysed by structural induction.  For every kind of expression node it is interpreted
abstractly on one node of that kind whose operands range over columns, constants, calculated expressions and function
calls; a nested call of `compile_calculate` is replaced by the induction hypothesis "the operand's own calculation".
The meaning of the compiled form (AND/OR/CASE/IF/COALESCE/BETWEEN unfolded to conditionals, mirrored comparisons and
one-element IN identified) must equal the meaning of the SQL node.  HAVING conditions are analysed the same way."""
import itertools

from sa.interp import C, DictV, Inst, ListV, NONE, Term, TypeV, key_of
from sa.project import AnalysisBroken
from . import forms
from .forms import call, denote, freeze, ite, norm, post, hashable
from .scalar import NAMES
from .sqlnodes import COMPILER, compiler_interp, new_compiler, once

EXPLANATION = __doc__
BINARY = {"EQ": "eq", "NEQ": "neq", "GT": "gt", "GTE": "gte", "LT": "lt", "LTE": "lte", "Is": "is", "Like": "like",
          "Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Mod": "mod", "BitwiseAnd": "bitwiseand",
          "BitwiseOr": "bitwiseor", "BitwiseXor": "bitwisexor", "BitwiseLeftShift": "bitwiseleftshift",
          "BitwiseRightShift": "bitwiserightshift", "RegexpLike": "regexplike"}
KINDS = ("col", "num", "str", "null", "expr", "func", "paren", "param")
# casts: SQL type -> the conversion its value goes through
CASTS = {"INT": "int", "BIGINT": "int", "SMALLINT": "int", "TINYINT": "int", "FLOAT": "float", "DOUBLE": "float",
         "DATE": "date", "DATETIME": "datetime", "TIMESTAMP": "datetime", "CHAR": "str", "VARCHAR": "str", "TEXT": "str",
         "NCHAR": "str", "BOOLEAN": "bool", "DECIMAL": "decimal", "UUID": "uuid", "BINARY": "bytes", "VARBINARY": "bytes",
         "TIME": "time"}


class Kit:
    def __init__(self, ctx):
        self.ctx = ctx
        self.it, self.s = compiler_interp(ctx)
        # every atomic operand an expression node can have
        once(self.it, COMPILER + ".compile_calculate", self.stub)

    def operand(self, kind, tag):
        s = self.s
        if kind == "col":
            n, m = s.col(tag), ("X", tag)
        elif kind == "num":
            v = 7000 + ord(tag[0])
            n, m = s.num(v), ("const", v)
        elif kind == "dec":
            v = 0.5 + ord(tag[0])
            n, m = s.num(v), ("const", v)
        elif kind == "neg":
            v = -ord(tag[0])
            n, m = s.node("Neg", this=s.num(-v)), ("const", v)
        elif kind == "colon":
            v = ":%d" % ord(tag[0])
            n, m = s.str(v), ("const", v)
        elif kind == "str":
            n, m = s.str("s_" + tag), ("const", "s_" + tag)
        elif kind == "null":
            n, m = s.null(), ("const", None)
        elif kind == "expr":
            n, m = s.b("Add", s.col(tag + "1"), s.col(tag + "2")), ("X", tag)
        elif kind == "func":
            n, m = s.func("f_" + tag, s.col(tag)), ("X", tag)
        elif kind == "param":
            n, m = s.node("Parameter", this=s.node("Var", this="P" + tag)), ("X", tag)
        else:
            inner = s.col(tag)
            n, m = s.paren(inner), ("X", tag)
            inner.attrs["__m"] = m
        n.attrs["__m"] = m
        return n, m

    def stub(self, it, args, kwargs, node):
        e = args[1]
        m = e.attrs.get("__m") if isinstance(e, Inst) else None
        if m is None:
            r = self.fallback(it, e)
            if r is not None:
                return r
            return Term("compiled", ("unknown operand", repr(e)))
        if m[0] == "const":
            return ListV([C("#const"), C(m[1])])
        t = Term("compiled", m[1:])
        it.notty.setdefault(key_of(t), []).append(TypeV("NoneType"))
        return t

    def fallback(self, it, e):
        """an operand node the analysed code built itself: look at it structurally"""
        if isinstance(e, Inst) and "args" in e.attrs:
            it.depth_ok = True
            return it.call_func(it.get(COMPILER + ".compile_calculate"), self.call_args(e), {})
        return None

    def call_args(self, e):
        return [self.comp, e, self.cfg, self.args, self.pt, ListV()]


def param_value(it, a, k, n):
    return it.fresh("variable value", "str")


def check(ctx):
    ctx.rule("operator", "the node's compiled meaning is its SQL meaning, operands in order")
    ctx.rule("function", "a function call compiles to the calculater of that function with its operands in order")
    ctx.rule("cast", "CAST applies the conversion of its type")
    ctx.rule("having", "a HAVING condition compiles to its SQL meaning")
    k = Kit(ctx)
    it, s = k.it, k.s
    f = it.get(COMPILER + ".compile_calculate")
    w = "%s:%d" % (ctx.project.relpath(f.module.mod), f.node.lineno)
    funcs = it.get("syncanysql.calculaters.mysql_funcs.funcs")
    registered = {kk.v for kk, _ in funcs.d.values()}
    forms.REGISTERED = registered
    mark = lambda name: Term("compiled", (name,))
    it.models[COMPILER + ".compile_query_condition"] = lambda it, a, kw, n: Term("compiled", ("subquery",))
    it.models[COMPILER + ".compile_join_column_field"] = lambda it, a, kw, n: Term("compiled", (column_tag(it, k, a),))
    it.models[COMPILER + ".parse_calculate"] = lambda it, a, kw, n: NONE

    def column_tag(it, k, a):
        c = a[6]
        v = it.getitem(c, C("column_name"))
        return v.v if isinstance(v, C) else repr(v)

    def having_column(it, a, kw, n):
        return Term("compiled", (it.getitem(a[4], C("column_name")).v,))

    def fresh_world(it):
        k.comp = new_compiler(it)
        k.comp.attrs["env_variables"] = it.fresh("env_variables")
        it.method_models["get_value"] = param_value
        k.cfg = DictV([(C("querys"), DictV()), (C("schema"), DictV([(C(n), C("$." + n)) for n in "abcdefgh"]))])
        k.args = DictV()
        k.pt = DictV([(C("name"), C("t")), (C("table_name"), C("t"))])

    def run(rule, construct, build, accept=None, qual="compile_calculate"):
        """build() -> (node, meaning)"""
        bad = None

        def entry(it):
            fresh_world(it)
            node, want = build()
            args = [node, k.cfg, k.args, k.pt] + ([ListV()] if qual == "compile_calculate" else [])
            v = it.call(it.getattr(k.comp, qual), args, {})
            fr = freeze(v)
            return denote(fr), want, freeze(k.cfg.cget("defines")) if k.cfg.cget("defines") else None
        n = 0
        for r in it.explore(entry):
            n += 1
            if r.kind == "raise":
                bad = bad or "raises %s" % r.exc_name()
                continue
            got, want, defines = r.value
            if isinstance(got, tuple) and got[:1] == ("usercall",) and defines and got[1][1] in defines:
                got = denote(defines[got[1][1]])
            if norm(strip(got)) != norm(strip(want)):
                bad = bad or "means %s, expected %s" % (show(got), show(want))
        if not n:
            bad = "no path"
        ctx.ob(rule, construct, not bad, bad or "", w)

    kinds2 = list(itertools.product(KINDS, KINDS)) if ctx.thorough else \
        [(a, b) for a in KINDS for b in KINDS if a == "col" or b == "col" or a == b]
    # ------------------------------------------------------------ operators
    for cls, op in BINARY.items():
        for ka, kb in kinds2:
            def build(cls=cls, op=op, ka=ka, kb=kb):
                a, ma = k.operand(ka, "a")
                b, mb = k.operand(kb, "b")
                return s.b(cls, a, b), call(op, [ma, mb])
            run("operator", "%s(%s,%s)" % (cls, ka, kb), build)
    for ka, kb in kinds2:
        def bands(ka=ka, kb=kb):
            a, ma = k.operand(ka, "a")
            b, mb = k.operand(kb, "b")
            return s.b("And", a, b), ite(ma, mb, ("const", 0))

        def bors(ka=ka, kb=kb):
            a, ma = k.operand(ka, "a")
            b, mb = k.operand(kb, "b")
            return s.b("Or", a, b), ite(ma, ("const", 1), mb)

        def bnotis(ka=ka, kb=kb):
            a, ma = k.operand(ka, "a")
            b, mb = k.operand(kb, "b")
            return s.node("Not", this=s.b("Is", a, b)), ("call", "is_not", ma, mb)
        run("operator", "And(%s,%s)" % (ka, kb), bands)
        run("operator", "Or(%s,%s)" % (ka, kb), bors)
        run("operator", "Not(Is(%s,%s))" % (ka, kb), bnotis)
    for ka in KINDS:
        def mk(wrap, mean, ka=ka):
            def build():
                a, ma = k.operand(ka, "a")
                return wrap(a), mean(ma)
            return build
        run("operator", "Not(%s)" % ka, mk(lambda a: s.node("Not", this=a), lambda m: call("not", [m])))
        run("operator", "BitwiseNot(%s)" % ka, mk(lambda a: s.node("BitwiseNot", this=a), lambda m: call("bitwisenot", [m])))
        run("operator", "Paren(%s)" % ka, mk(lambda a: s.node("Paren", this=a), lambda m: m))
        if ka not in ("num",):
            run("operator", "Neg(%s)" % ka, mk(lambda a: s.node("Neg", this=a), lambda m: call("neg", [m])))
        for kb in KINDS:
            def between(ka=ka, kb=kb):
                a, ma = k.operand(ka, "a")
                b, mb = k.operand(kb, "b")
                c, mc = k.operand("col" if kb != "col" else "num", "c")
                return s.node("Between", this=a, low=b, high=c), ("and", call("gte", [ma, mb]), call("lte", [ma, mc]))
            run("operator", "Between(%s,%s)" % (ka, kb), between)
        for n in (1, 2, 3):
            for kb in KINDS:
                def inlist(ka=ka, kb=kb, n=n):
                    a, ma = k.operand(ka, "a")
                    xs = [k.operand(kb if i == n - 1 else "num", "bcd"[i]) for i in range(n)]
                    return s.node("In", this=a, expressions=[x for x, _ in xs]), \
                        call("in", [ma, ("list",) + tuple(m for _, m in xs)])
                run("operator", "In(%s,%d x %s)" % (ka, n, kb), inlist)

        def insub(ka=ka):
            a, ma = k.operand(ka, "a")
            q = s.node("Subquery", this=s.select([s.col("z")], s.table("u")))
            q.attrs["__m"] = ("X", "subquery")
            return s.node("In", this=a, query=q), ("call", "in", ma, call("convert_array", [("X", "subquery")]))
        run("operator", "In(%s, subquery)" % ka, insub)
    # ------------------------------------------------------------ conditionals
    for ka in KINDS:
        for kb in KINDS:
            for has_else in (False, True):
                def bif(ka=ka, kb=kb, has_else=has_else):
                    a, ma = k.operand("expr" if ka == "null" else ka, "a")
                    b, mb = k.operand(kb, "b")
                    kw = {"this": a, "true": b}
                    mc = ("const", 0)
                    if has_else:
                        kw["false"], mc = k.operand(ka, "c")
                    return s.node("If", **kw), ite(ma, mb, mc)
                if has_else:
                    run("operator", "If(%s,%s,else)" % (ka, kb), bif)
            def bifnull(ka=ka, kb=kb):
                a, ma = k.operand(ka, "a")
                b, mb = k.operand(kb, "b")
                return s.node("IfNull", this=a, expression=b), ite(call("is", [ma, ("const", None)]), mb, ma)
            run("operator", "IfNull(%s,%s)" % (ka, kb), bifnull)
        for n in (1, 2, 3, 4):
            def bcoal(ka=ka, n=n):
                xs = [k.operand(ka if i == n - 1 else "col", "abcd"[i]) for i in range(n)]
                m = xs[-1][1]
                for x, mx in reversed(xs[:-1]):
                    m = ite(call("is", [mx, ("const", None)]), m, mx)
                return s.node("Coalesce", this=xs[0][0], expressions=[x for x, _ in xs[1:]]), m
            run("operator", "Coalesce(%d, last %s)" % (n, ka), bcoal)
        for simple in (False, True):
            for n in (1, 2, 3):
                for has_else in (False, True):
                    for kw_ in (("num", "col", "dec", "neg", "str", "colon", "null") if simple else ("expr",)):
                        def bcase(ka=ka, simple=simple, n=n, has_else=has_else, kw_=kw_):
                            kw = {}
                            mk_ = None
                            if simple:
                                kw["this"], mk_ = k.operand("col" if ka == "null" else ka, "x")
                            ifs, arms = [], []
                            for i in range(n):
                                c, mc = k.operand(kw_, "abc"[i])
                                v, mv = k.operand(ka if i == 0 else "col", "def"[i])
                                ifs.append(s.node("If", this=c, true=v))
                                arms.append((mc, mv))
                            out = ("const", None)
                            if has_else:
                                kw["default"], out = k.operand(ka, "g")
                            for mc, mv in reversed(arms):
                                out = ite(call("eq", [mk_, mc]) if simple else mc, mv, out)
                            return s.node("Case", ifs=ifs, **kw), out
                        run("operator", "Case(%s, %d WHEN %s%s, %s)" % ("value" if simple else "searched", n, kw_,
                                                                     " ELSE" if has_else else "", ka), bcase)
    # ------------------------------------------------------------ leaves
    def leaf(construct, node, want):
        run("operator", construct, lambda: (node(), want))
    leaf("string literal", lambda: s.str("xyz"), ("const", "xyz"))
    leaf("integer literal", lambda: s.num(42), ("const", 42))
    leaf("decimal literal", lambda: s.num("1.5"), ("const", 1.5))
    leaf("negative literal", lambda: s.node("Neg", this=s.num(42)), call("neg", [("const", 42)]))
    leaf("NULL", lambda: s.null(), ("const", None))
    leaf("TRUE", lambda: s.node("Boolean", this=True), ("const", True))
    leaf("FALSE", lambda: s.node("Boolean", this=False), ("const", False))
    leaf("column", lambda: s.col("q"), ("X", "q"))
    leaf("*", lambda: s.node("Star"), ("field", "*"))
    leaf("@variable", lambda: s.node("Parameter", this=s.node("Var", this="Vv")),
         ("call", "current_env_variable::get_value", ("const", "@Vv")))

    def assign():
        b, mb = k.operand("expr", "b")
        return s.node("AssignParameter", this=s.node("Var", this="Vv"), expression=b), \
            ("call", "current_env_variable::set_value", ("const", "@Vv"), mb)
    run("operator", "@variable := expr", assign)
    for d in ("Add", "Sub"):
        def interval(d=d):
            a, ma = k.operand("col", "a")
            iv = s.node("Interval", this=s.str("3"), unit=s.node("Var", this="DAY"))
            iv.attrs["__m"] = ("X", "interval")
            return s.b(d, a, iv), ("call", "date" + d.lower(), ma, ("X", "interval"))
        run("operator", "%s interval" % d, interval)

    def ivalue():
        return s.node("Interval", this=s.str("3"), unit=s.node("Var", this="DAY")), \
            ("const", hashable({"value": "3", "unit": "DAY"}))
    run("operator", "INTERVAL 3 DAY", lambda: (ivalue()[0], norm(("dict", (("unit", ("const", "DAY")), ("value", ("const", "3")))))))
    for kv in ("neg", "col", "expr", "func", "null", "param", "paren"):
        for unit in ("DAY", "MINUTE"):
            def interval_of(kv=kv, unit=unit):
                v, mv = k.operand(kv, "a")
                return s.node("Interval", this=v, unit=s.node("Var", this=unit)), ("dict", (("unit", ("const", unit)), ("value", mv)))
            run("operator", "INTERVAL %s %s" % (kv, unit), interval_of)
    for n in (1, 2, 3):
        for kb in ("num", "col", "str"):
            def tup(n=n, kb=kb):
                xs = [k.operand(kb, "abc"[i]) for i in range(n)]
                return s.node("Tuple", expressions=[x for x, _ in xs]), \
                    (("list",) + tuple(m for _, m in xs) if n > 1 or kb != "col" else ("single", xs[0][1]))
            run("operator", "Tuple(%d %s)" % (n, kb), tup)

    def jx():
        a, ma = k.operand("col", "a")
        b, mb = k.operand("str", "b")
        return s.b("JSONExtract", a, b), ("call", "json_extract", ma, mb)
    run("operator", "JSONExtract", jx)
    # ------------------------------------------------------------ functions
    # functions sqlglot knows: every registered calculater named like a library function class
    classes = {}
    exp = s.exp.mod.top()
    for name in exp:
        low = name.lower()
        if low in registered and low in NAMES:
            try:
                c = s.cls(name)
            except Exception:
                continue
            if getattr(c, "mro", None) and any(getattr(b, "name", None) == "Func" for b in c.mro()):
                classes[name] = c
    for name, c in sorted(classes.items()):
        if name in ("If", "Case", "Coalesce", "JSONExtract", "Cast", "RegexpLike", "IfNull"):
            continue
        at = it.getattr(c, "arg_types")
        names = [kk.v for kk, _ in at.d.values()]
        if name == "Substring":
            names = ["this", "start", "length"]
        is_var = it.getattr(c, "is_var_len_args")
        var = getattr(is_var, "v", False)
        for total in range(1, len(names) + 1):
            for kind in ("col", "expr"):
                def bfunc(name=name, names=names, total=total, kind=kind, var=var):
                    kw, ms = {}, []
                    for i, an in enumerate(names[:total]):
                        if an == "expressions":
                            xs = [k.operand(kind, t) for t in ("e", "f")]
                            kw[an] = [x for x, _ in xs]
                            ms += [m for _, m in xs]
                        else:
                            kw[an], m = k.operand(kind, "abcd"[i])
                            ms.append(m)
                    return s.node(name, **kw), ("call", name.lower()) + tuple(ms)
                run("function", "%s/%d %s" % (name, total, kind), bfunc)
    for name in NAMES:
        if name in ("add", "sub", "mul", "div", "mod", "in", "is"):
            continue
        for upper in (False, True):
            for kinds in ((), ("col",), ("num", "col"), ("expr", "str", "col"), ("null", "func", "num", "col")):
                def banon(name=name, upper=upper, kinds=kinds):
                    xs = [k.operand(kd, "abcd"[i]) for i, kd in enumerate(kinds)]
                    return s.func(name.upper() if upper else name, *[x for x, _ in xs]), call(name, [m for _, m in xs])
                if not upper or len(kinds) == 2:
                    run("function", "%s(%s)" % (name.upper() if upper else name, ",".join(kinds)), banon)
    for ty, filt in (("int", "int"), ("float", "float"), ("string", "str"), ("bool", "bool"), ("datetime", "datetime"),
                     ("date", "date"), ("varchar", "str"), ("bigint", "int")):
        for kb in ("num", "expr"):
            def bconv(ty=ty, filt=filt, kb=kb):
                a, ma = k.operand(kb, "a")
                name = "convert_" + ("string" if filt == "str" else filt)
                return s.func("convert_" + ty, a), ("filter", filt, call(name, [ma]))
            run("function", "convert_%s(%s)" % (ty, kb), bconv)
    for name, target in (("pkg$mod$fn", "pkg::mod.fn"), ("plain_fn", "plain_fn"), ("hash$md5", "hash::md5")):
        def bmod(name=name, target=target):
            a, ma = k.operand("col", "a")
            b, mb = k.operand("str", "b")
            return s.func(name, a, b), call(target, [ma, mb])
        run("function", name, bmod)

    def bgen():
        a, ma = k.operand("col", "a")
        return s.func("yield_array", a), ("yield", call("yield_array", [ma]))
    run("function", "yield_array", bgen)

    def bjit():
        a, ma = k.operand("expr", "a")
        return s.func("jit", a), ma
    run("function", "jit(expr)", bjit)

    def bdef():
        a, ma = k.operand("str", "a")
        b, mb = k.operand("col", "b")
        return s.func("call_define", a, b), ("usercall", ma, mb)
    run("function", "call_define", bdef)
    for keys, want in ((("str",), ["$.s_b"]), (("num",), ["$.:7098"]), (("str", "num"), ["$.s_b", "$.:7099"]),
                       (("str", "num", "str"), ["$.s_b", "$.:7099", "$.s_d"])):
        def bget(keys=keys, want=want):
            a, ma = k.operand("col", "a")
            m = ma
            for x in want:
                m = ("then", x, m)
            return s.func("get_value", a, *[k.operand(x, "bcd"[i])[0] for i, x in enumerate(keys)]), m
        run("function", "get_value(%s)" % ",".join(keys), bget)
    # ------------------------------------------------------------ casts
    for ty, filt in CASTS.items():
        def bcast(ty=ty, filt=filt):
            a, ma = k.operand("col", "a")
            dt = it.getattr(s.cls("DataType"), "Type")
            node = s.node("Cast", this=s.b("Add", a, a), to=s.node("DataType", this=it.getattr(dt, ty)))
            inner = node.attrs["args"].cget("this")
            inner.attrs["__m"] = ("X", "a")
            return node, ("filter", filt, ("X", "a"))
        run("cast", "CAST(x AS %s)" % ty, bcast)
    ctx.require("operator", 300)
    ctx.require("function", 300)
    ctx.require("cast", 15)
    having(ctx, k, run, w)


def having(ctx, k, run, w):
    it, s = k.it, k.s
    once_calc = it.models.pop(COMPILER + ".compile_calculate")
    it.models[COMPILER + ".compile_calculate"] = k.stub
    it.models[COMPILER + ".compile_column"] = lambda it, a, kw, n: Term("compiled", (it.getitem(a[4], C("column_name")).v,))
    from .sqlnodes import once

    def hstub(it, args, kwargs, node):
        e = args[1]
        m = e.attrs.get("__m") if isinstance(e, Inst) else None
        if m is None:
            return it.call_func(it.get(COMPILER + ".compile_having_condition"), args, kwargs, node)
        return k.stub(it, args, kwargs, node)
    once(it, COMPILER + ".compile_having_condition", hstub)
    q = "compile_having_condition"
    cmp_ = {c: o for c, o in BINARY.items() if c in ("EQ", "NEQ", "GT", "GTE", "LT", "LTE")}
    for cls, op in cmp_.items():
        for ka in ("col", "expr", "func", "num"):
            for kb in ("num", "str", "col", "expr", "func"):
                def build(cls=cls, op=op, ka=ka, kb=kb):
                    a, ma = k.operand(ka, "a")
                    b, mb = k.operand(kb, "b")
                    return s.b(cls, a, b), call(op, [ma, mb])
                run("having", "%s(%s,%s)" % (cls, ka, kb), build, qual=q)

    def sub(tag):
        n = s.b("EQ", s.col(tag), s.num(1))
        n.attrs["__m"] = ("X", tag)
        return n, ("X", tag)
    for cls in ("And", "Or"):
        def build(cls=cls):
            a, ma = sub("a")
            b, mb = sub("b")
            return s.b(cls, a, b), (cls.lower(), ma, mb)
        run("having", cls, build, qual=q)

        def build2(cls=cls):
            a, ma = sub("a")
            b, mb = sub("b")
            return s.paren(s.b(cls, a, b)), (cls.lower(), ma, mb)
        run("having", "(%s)" % cls, build2, qual=q)
    for ka in ("col", "expr"):
        def between(ka=ka):
            a, ma = k.operand(ka, "a")
            return s.node("Between", this=a, low=s.num(1), high=s.num(2)), \
                ("and", call("gte", [ma, ("const", 1)]), call("lte", [ma, ("const", 2)]))
        # operands built here have no registered meaning: literals compile to themselves, a copied operand to its original
        def between_l(ka=ka):
            a, ma = k.operand(ka, "a")
            lo, mlo = k.operand("num", "b")
            hi, mhi = k.operand("num", "c")
            return s.node("Between", this=a, low=lo, high=hi), ("and", call("gte", [ma, mlo]), call("lte", [ma, mhi]))
        run("having", "Between(%s)" % ka, between_l, qual=q)
        for n in (1, 2, 3):
            for kb in ("num", "str", "expr"):
                def inlist(ka=ka, n=n, kb=kb):
                    a, ma = k.operand(ka, "a")
                    xs = [k.operand(kb, "bcd"[i]) for i in range(n)]
                    return s.node("In", this=a, expressions=[x for x, _ in xs]), \
                        call("in", [ma, ("list",) + tuple(m for _, m in xs)])
                run("having", "In(%s,%d %s)" % (ka, n, kb), inlist, qual=q)

        def like(ka=ka):
            a, ma = k.operand(ka, "a")
            b, mb = k.operand("str", "b")
            return s.b("Like", a, b), call("like", [ma, mb])
        run("having", "Like(%s)" % ka, like, qual=q)
    ctx.require("having", 80)


def strip(d):
    """operands compiled through an environment variable read are the operand; list constants are lists"""
    if not isinstance(d, tuple):
        return d
    if d[:1] == ("call",) and len(d) == 3 and d[1] == "current_env_variable::get_value" and d[2][0] == "const" \
            and str(d[2][1]).startswith("@P"):
        return ("X", d[2][1][2:])
    if len(d) == 2 and d[0] == "const" and isinstance(d[1], tuple):
        return ("list",) + tuple(strip(("const", x)) for x in d[1])
    if len(d) == 2 and d[0] == "const" and isinstance(d[1], dict):
        return ("dict", tuple(sorted((k_, ("const", v)) for k_, v in d[1].items())))
    if d[:1] == ("call",) and d[1:2] == ("in",):
        return call("in", [strip(x) for x in d[2:]])
    return tuple(strip(x) if isinstance(x, tuple) else x for x in d)


def show(d):
    return repr(d)[:160]
