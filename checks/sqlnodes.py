"""Abstract SQL syntax trees for the checks on the compiler.

A statement is described as a tree of sqlglot node classes (read from the library's source) whose leaves carry
representative identifiers; nothing is parsed or executed.  `text(node)` stands for the SQL text of a node: the
functions of the compiler that generate or parse text (`generate_sql`, `to_sql`, `maybe_parse`) are modelled on it."""
from sa.interp import C, ClassV, DictV, Inst, ListV, NONE, TRUE, FALSE, PyV, Raised, Term, TupleV, V, key_of
from sa.project import AnalysisBroken

EXP = "sqlglot.expressions"
COMPILER = "syncanysql.compiler.Compiler"


class Sql:
    def __init__(self, it):
        self.it = it
        it.inline_lib = tuple(it.inline_lib) + (EXP,)
        self.exp = it.load(EXP)
        if self.exp is None:
            raise AnalysisBroken("sqlglot.expressions not found")
        old = it.module_attr

        def module_attr(mv, name, node=None):
            v = old(mv, name, node)
            if mv is self.exp and isinstance(v, ClassV) and "key" not in v.attrs:
                v.attrs["key"] = C(name.lower())      # set by sqlglot's metaclass
            return v
        it.module_attr = module_attr
        self.n = 0
        # class objects the library defines through helpers are forced now, so no path has to
        it.models[EXP + ".Expression.copy"] = lambda it, a, k, n: self.copy(a[0])
        it.models[EXP + ".Expression.sql"] = lambda it, a, k, n: Term("sqltext", (a[0],), "str")
        it.models[EXP + ".Expression.__deepcopy__"] = lambda it, a, k, n: self.copy(a[0])
        it.inline_lib += ("syncany.calculaters.find_calculater",)


    def cls(self, name):
        if name == "AssignParameter":
            return self.it.get("syncanysql.compiler.AssignParameter")
        return self.it.module_attr(self.exp, name)

    def node(self, cls, **args):
        c = self.cls(cls)
        pairs = []
        inst = Inst(c, {}, name=cls)
        for k, v in args.items():
            pairs.append((C(k), self._val(v, inst)))
        inst.attrs.update({"args": DictV(pairs), "parent": NONE, "arg_key": NONE, "comments": NONE, "_type": NONE,
                           "_meta": NONE, "_hash": NONE})
        if cls == "AssignParameter":
            inst.attrs["key"] = C("assignparameter")
        return inst

    def _val(self, v, parent):
        if isinstance(v, Inst):
            v.attrs["parent"] = parent
            return v
        if isinstance(v, V):
            return v
        if isinstance(v, (list, tuple)):
            return ListV([self._val(x, parent) for x in v])
        return C(v)

    def copy(self, n):
        if isinstance(n, ListV):
            return ListV([self.copy(x) for x in n.items])
        if not isinstance(n, Inst) or "args" not in n.attrs:
            return n
        out = Inst(n.cls, dict(n.attrs), name=n.name)
        d = DictV()
        for k, v in n.attrs["args"].d.values():
            w = self.copy(v)
            for x in (w.items if isinstance(w, ListV) else [w]):
                if isinstance(x, Inst) and "args" in x.attrs:
                    x.attrs["parent"] = out
            d.d[key_of(k)] = (k, w)
        out.attrs["args"] = d
        return out

    # ---- leaves
    def ident(self, name, quoted=False):
        return self.node("Identifier", this=name, quoted=quoted)

    def col(self, name, table=None, db=None):
        kw = {"this": self.ident(name)}
        if table:
            kw["table"] = self.ident(table)
        if db:
            kw["db"] = self.ident(db)
        return self.node("Column", **kw)

    def num(self, n):
        return self.node("Literal", this=str(n), is_string=False)

    def str(self, s):
        return self.node("Literal", this=s, is_string=True)

    def null(self):
        return self.node("Null")

    def true(self):
        return self.node("Boolean", this=True)

    def func(self, name, *args):
        return self.node("Anonymous", this=name, expressions=list(args))

    def b(self, cls, l, r):
        return self.node(cls, this=l, expression=r)

    def paren(self, x):
        return self.node("Paren", this=x)

    def table(self, name, db=None, alias=None):
        kw = {"this": self.ident(name)}
        if db:
            kw["db"] = self.ident(db)
        if alias:
            kw["alias"] = self.node("TableAlias", this=self.ident(alias))
        return self.node("Table", **kw)

    def alias(self, x, name):
        return self.node("Alias", this=x, alias=self.ident(name))

    def select(self, exprs, frm=None, joins=None, where=None, group=None, having=None, order=None, limit=None, offset=None,
               distinct=False, **kw):
        args = {"expressions": exprs, "hint": None, "distinct": self.node("Distinct") if distinct else None, "limit": None}
        if frm is not None:
            args["from"] = self.node("From", expressions=frm if isinstance(frm, list) else [frm])
        if joins:
            args["joins"] = joins
        if where is not None:
            args["where"] = self.node("Where", this=where)
        if group:
            args["group"] = self.node("Group", expressions=group)
        if having is not None:
            args["having"] = self.node("Having", this=having)
        if order:
            args["order"] = self.node("Order", expressions=order)
        if limit is not None:
            args["limit"] = self.node("Limit", expression=limit)
        if offset is not None:
            args["offset"] = self.node("Offset", expression=offset)
        args.update(kw)
        return self.node("Select", **args)

    def join(self, table, on=None, side=None, kind=None, using=None):
        kw = {"this": table}
        if side:
            kw["side"] = self.tok(side)
        if kind:
            kw["kind"] = self.tok(kind)
        if on is not None:
            kw["on"] = on
        if using is not None:
            kw["using"] = using
        return self.node("Join", **kw)

    def tok(self, s):
        # sqlglot keeps the keyword's text here (Parser._parse_join_side_and_kind gives tokens, .text)
        return C(s)

    def ordered(self, x, desc=False):
        return self.node("Ordered", this=x, desc=desc, nulls_first=False)


def compiler_interp(ctx, models=(), **kw):
    members = []

    def auto(it, a, k, n):
        members.append(0)
        return C("enum member %d" % len(members))
    it = ctx.interp(models=dict(models, **{"enum.auto": auto}), **kw)
    s = Sql(it)
    it.models["os.environ.get"] = lambda it, a, k, n: a[1] if len(a) > 1 else NONE
    it.models[COMPILER + ".to_sql"] = lambda it, a, k, n: Term("sqltext", (a[1] if len(a) > 1 else NONE,), "str")
    it.models[COMPILER + ".generate_sql"] = lambda it, a, k, n: Term("sqltext", (a[1] if len(a) > 1 else NONE,), "str")
    return it, s


def new_compiler(it, name="m"):
    cls = it.get(COMPILER)
    inst = it.instantiate(cls, [it.fresh("session_config"), it.fresh("env_variables"), C(name)], {})
    return inst


def once(it, qual, stub):
    """model: the first (outermost) call of `qual` runs its body, nested calls run `stub` (the induction hypothesis)"""
    state = {"depth": 0}

    def model(it, args, kwargs, node):
        if state["depth"]:
            return stub(it, args, kwargs, node)
        state["depth"] = 1
        try:
            return it.call_func(it.get(qual), args, kwargs, node)
        finally:
            state["depth"] = 0
    it.models[qual] = model


def lst(v):
    return v.items if isinstance(v, (ListV, TupleV)) else None


def py(v):
    """python value of a fully known abstract value; unknown parts stay abstract"""
    if isinstance(v, C):
        return v.v
    if isinstance(v, ListV) and not v.open:
        return [py(x) for x in v.items]
    if isinstance(v, TupleV):
        return tuple(py(x) for x in v.items)
    if isinstance(v, DictV) and not v.open:
        return {(k.v if isinstance(k, C) else k): py(x) for k, x in v.d.values()}
    return v
