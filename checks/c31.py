"""C31: evaluating an expression does not change its operands or any shared state.

Every scalar function is interpreted abstractly with a JSON document (an object or an array of unknown content, nested)
at each operand position in turn and arbitrary values elsewhere; every store, deletion, in-place operator or mutating
method call is observed.  None may hit an object that belongs to an operand (the document, or anything inside it), nor an
object reachable from module globals, class attributes or default arguments.  Aggregates are folded over such rows:
they may change their own state value but neither the row value, nor the shared calculater instance, nor globals.
"""
from sa.interp import C, ClassV, DictV, Env, FuncV, BoundV, Inst, ListV, ModuleV, NONE, PropV, ClsMethV, StaticV, SetV, TupleV, TypeV, V, key_of
from sa.project import AnalysisBroken
from .agg import KINDS, REG
from .scalar import NAMES, PKG, arg_shapes, registry, scalar_interp, where

EXPLANATION = __doc__
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard", "__setitem__", "__delitem__", "intersection_update", "difference_update",
            "symmetric_difference_update", "appendleft", "popleft"}


def leaf(it, name):
    """an arbitrary value that is not a container"""
    v = it.fresh(name, None)
    it.notty.setdefault(key_of(v), []).extend([TypeV("dict"), TypeV("list"), TypeV("set"), TypeV("tuple")])
    return v


class Watch:
    """owned: objects belonging to operands; shared: objects reachable from globals"""

    def __init__(self, it):
        self.it = it
        self.owned, self.shared, self.hits = {}, {}, []
        self.armed = False
        self.reach()
        self.wrap()

    def reach(self):
        todo = []
        for m in self.it.mods.values():
            if isinstance(m, ModuleV) and not m.lazy and isinstance(m.env, Env):
                todo.append((m.env, m.name))
        while todo:
            v, name = todo.pop()
            if id(v) in self.shared or not isinstance(v, (V, Env)):
                continue
            if isinstance(v, C):
                continue
            self.shared[id(v)] = (v, name)
            kids = []
            if isinstance(v, Env):
                kids = [(x, "%s.%s" % (name, k)) for k, x in v.vars.items()]
            elif isinstance(v, DictV):
                kids = [(x, name + "[...]") for _, x in v.d.values()]
            elif isinstance(v, (ListV, TupleV)):
                kids = [(x, name + "[...]") for x in v.items]
            elif isinstance(v, ClassV):
                kids = [(x, "%s.%s" % (v.name, k)) for k, x in v.attrs.items()]
            elif isinstance(v, Inst):
                kids = [(x, name + "." + k) for k, x in v.attrs.items()]
            elif isinstance(v, FuncV):
                kids = [(x, "default argument of " + v.qual) for x in list(v.defaults) + list(
                    (v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or [])]
            elif isinstance(v, BoundV):
                kids = [(v.func, name), (v.self, name)]
            elif isinstance(v, (ClsMethV, StaticV)):
                kids = [(v.func, name)]
            todo += kids

    def hit(self, v, how):
        if not self.armed:
            return
        if id(v) in self.owned:
            self.hits.append("%s changes its operand (%s)" % (how, self.owned[id(v)][1]))
        elif id(v) in self.shared:
            self.hits.append("%s changes shared state %s" % (how, self.shared[id(v)][1]))

    def wrap(self):
        it, w = self.it, self
        o_set, o_del, o_call, o_inp, o_attr, o_deep = (it.setitem, it.delitem, it.call_method, it._inplace, it.setattr,
                                                       it.deepcopy)

        def target(v):
            t = it.tname(v)
            return v

        def setitem(v, i, val, node=None):
            w.hit(target(v), "an item assignment")
            return o_set(v, i, val, node)

        def delitem(v, i, node=None):
            w.hit(target(v), "an item deletion")
            return o_del(v, i, node)

        def call_method(v, n, args, kwargs, node=None):
            if n in MUTATORS:
                w.hit(target(v), "the call of .%s()" % n)
            return o_call(v, n, args, kwargs, node)

        def inplace(op, cur, v, node):
            if isinstance(cur, (ListV, DictV)):
                w.hit(cur, "an in-place operator")
            return o_inp(op, cur, v, node)

        def setattr_(v, name, val, node=None):
            w.hit(v, "the assignment of .%s" % name)
            return o_attr(v, name, val, node)

        def deepcopy(v, deep=True, memo=None):
            r = o_deep(v, deep, memo)
            if deep:
                strip(r)
            return r

        def strip(r):
            if isinstance(r, (ListV, DictV)) and r.elem is not None:
                r.elem = lambda it, *a: w.child(it, False, 1, "copy")
            if isinstance(r, ListV):
                for x in r.items:
                    strip(x)
            elif isinstance(r, DictV):
                for _, x in r.d.values():
                    strip(x)
        it.setitem, it.delitem, it.call_method, it._inplace, it.setattr, it.deepcopy = (setitem, delitem, call_method,
                                                                                       inplace, setattr_, deepcopy)

    def child(self, it, owned, depth, name):
        if depth <= 0:
            return leaf(it, name)
        k = it.choose(3, "kind of %s" % name)
        if k == 2:
            return leaf(it, name)
        return self.doc(it, "dict" if k == 0 else "list", owned, depth - 1, name)

    def doc(self, it, kind, owned=True, depth=1, name="document"):
        elem = (lambda it, *a: self.child(it, owned, depth, "element of the " + name)) if depth > 0 else None
        v = DictV((), True, name, elem) if kind == "dict" else ListV([], True, name, elem)
        if owned:
            self.owned[id(v)] = (v, name)
        return v


def check(ctx):
    ctx.rule("operands-unchanged", "no path of a scalar function stores into an operand or into shared state")
    ctx.rule("aggregate-rows-unchanged", "an aggregate step changes neither the row value nor the shared instance nor globals")
    it = scalar_interp(ctx, inline_lib=("syncany.calculaters.calculater",), max_paths=400 if not ctx.thorough else 4000)
    it.max_depth = 24
    it.models[PKG + ".json_funcs.parse_json_path"] = lambda it, a, k, n: ListV([], True, "path", lambda it, i: it.fresh("key%d" % i))
    reg = registry(ctx, it)
    w = Watch(it)

    def loads(args):
        k = it.choose(3, "kind of the parsed document")
        if k == 0:
            it.raise_("ValueError", "json.loads")
        return w.doc(it, "dict" if k == 1 else "list", False)
    o_ext = it.call_ext

    def call_ext(name, args, kwargs, node=None):
        return loads(args) if name == "json.loads" else o_ext(name, args, kwargs, node)
    it.call_ext = call_ext
    for name in NAMES:
        f = reg.get(name)
        if not isinstance(f, FuncV):
            continue
        for total in arg_shapes(f):
            for j in range(total):
                for kind in ("dict", "list"):
                    bad = []

                    def entry(it):
                        w.owned.clear()
                        args = [w.doc(it, kind) if i == j else leaf(it, "arg%d" % i) for i in range(total)]
                        w.hits, w.armed = [], True
                        try:
                            it.call(f, args, {})
                        finally:
                            w.armed = False
                            for h in w.hits:
                                bad.append(h)
                    for r in it.explore(entry):
                        if bad:
                            break
                    ctx.ob("operands-unchanged", "%s/%d operand %d %s" % (name, total, j, kind), not bad,
                           bad and bad[0], where(ctx, f))
                    for j2 in range(j + 1, total):
                        for kind2 in ("dict", "list"):
                            bad = []

                            def entry2(it):
                                w.owned.clear()
                                args = [w.doc(it, kind) if i == j else w.doc(it, kind2, depth=0) if i == j2 else
                                        leaf(it, "arg%d" % i) for i in range(total)]
                                w.hits, w.armed = [], True
                                try:
                                    it.call(f, args, {})
                                finally:
                                    w.armed = False
                                    bad.extend(w.hits)
                            for r in it.explore(entry2):
                                if bad:
                                    break
                            ctx.ob("operands-unchanged", "%s/%d operands %d %s and %d %s" % (
                                name, total, j, kind, j2, kind2), not bad, bad and bad[0], where(ctx, f))
    d = it.get(REG)
    cs = {k.v: v for k, v in d.d.values()}
    for name in KINDS:
        cls = cs.get(name)
        if cls is None:
            continue
        for kind in ("dict", "list", "pair"):
            bad = []

            def entry(it):
                w.owned.clear()
                w.hits = []
                rows = []
                for i in range(2):
                    d = w.doc(it, "list" if kind == "list" else "dict", depth=0)
                    if kind == "pair":
                        d = ListV([it.fresh("key%d" % i, "str"), d])
                        w.owned[id(d)] = (d, "row")
                    rows.append(d)
                inst = it.call(cls, [C(name + "::aggregate")], {})
                w.owned[id(inst)] = (inst, "shared calculater instance")
                f = it.getattr(inst, "calculate")
                w.armed = True
                try:
                    st = NONE
                    for r in rows:
                        st = it.call(f, [st, r], {})
                finally:
                    w.armed = False
                    bad.extend(w.hits)
            for r in it.explore(entry):
                if bad:
                    break
            ctx.ob("aggregate-rows-unchanged", "%s/%s" % (name, kind), not bad, bad and bad[0],
                   ctx.where(cls.node, cls.module.mod))
    ctx.require("operands-unchanged", 300)
    ctx.require("aggregate-rows-unchanged", 30)
    # the rule must fire on a positive example: storing into the watched document
    from sa.interp import PyV
    w.owned.clear()
    w.hits, w.armed = [], True
    it.setitem(w.doc(it, "dict"), C("k"), C(1))
    w.armed = False
    it._rollback()
    if not w.hits:
        raise AnalysisBroken("the store observer does not fire on its positive example")
