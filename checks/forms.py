"""Meaning of compiled calculations.

The compiler turns an SQL expression into nested lists the engine evaluates.  `freeze` copies an abstract form into
python tuples while its path is live; `denote` gives its meaning as a term, so that two forms that compute the same thing
(`["#if", c, t, ["#const", 0]]` for AND, a mirrored comparison, ...) compare equal."""
from sa.interp import C, DictV, Inst, ListV, Opaque, Term, TupleV, GenV


def freeze(v):
    if isinstance(v, C):
        return v.v if not isinstance(v.v, (list, dict)) else ("const?", repr(v.v))
    if isinstance(v, ListV) or isinstance(v, TupleV):
        return [freeze(x) for x in v.items] + (["..."] if getattr(v, "open", False) else [])
    if isinstance(v, GenV):
        return [freeze(x) for x in v.items]
    if isinstance(v, DictV):
        return {freeze(k) if isinstance(k, C) else repr(k): freeze(x) for k, x in v.d.values()}
    if isinstance(v, Term) and v.op == "compiled":
        return ("X",) + tuple(v.args)
    if isinstance(v, Inst):
        return v
    return v


REGISTERED = set()      # names of the SQL functions, set by the check
MIRROR = {"gt": "lt", "lt": "gt", "gte": "lte", "lte": "gte", "eq": "eq", "neq": "neq"}


def is_const(d):
    return isinstance(d, tuple) and d and d[0] == "const"


def denote(f, env=None):
    """frozen form -> meaning"""
    if isinstance(f, tuple):
        return f
    if f is None or isinstance(f, (int, float, bool)):
        return ("const", f)
    if isinstance(f, str):
        if f.startswith(":"):
            f = f[1:]
        if env is not None and f.startswith("$.") and f[2:] in env:
            return env[f[2:]]
        if f.startswith("$."):
            return ("field", f[2:])
        return ("const", f)
    if isinstance(f, dict):
        if "#case" in f:
            arms = []
            for k, v in f.items():
                if k in ("#case", "#end"):
                    continue
                if isinstance(k, str) and k.startswith(":") and k[1:].isdigit():
                    k = int(k[1:])
                arms.append((k, denote(v, env)))
            out = denote(f.get("#end"), env)
            key = denote(f["#case"], env)
            for k, v in reversed(arms):
                out = ite(call("eq", [key, ("const", k)]), v, out)
            return out
        return ("dict", tuple(sorted((k, denote(v, env)) for k, v in f.items())))
    if isinstance(f, list):
        if not f:
            return ("list",)
        head = f[0]
        if isinstance(head, str):
            h = head[1:] if head.startswith(":") else head
            if h == "#const":
                if isinstance(f[1], dict):
                    return ("dict", tuple(sorted((k, ("const", v)) for k, v in f[1].items())))
                return ("const", hashable(f[1]))
            if h == "#if":
                args = [denote(x, env) for x in f[1:4]]
                while len(args) < 3:
                    args.append(("const", None))
                out = ite(*args)
                return post(out, f[4:], env)
            if h == "#make":
                inner = f[1]
                rest = f[2:]
                if isinstance(inner, dict):
                    d = {k: denote(v, env) for k, v in inner.items()}
                    if rest:
                        e = dict(env or {})
                        e.update(d)
                        return denote(rest[0], e)
                    return ("dict", tuple(sorted(d.items())))
                if len(inner) == 1:
                    return post(("single", denote(inner[0], env)), rest, env)   # the engine makes the value, not a list of it
                return post(("list",) + tuple(denote(x, env) for x in inner), rest, env)
            if h == "#call":
                return ("usercall",) + tuple(denote(x, env) for x in f[1:])
            if h == "#yield":
                return ("yield", denote(f[1], env))
            if h.startswith("@"):
                name = h[1:]
                name, _, filters = name.partition("|")
                if name.startswith("mysql::"):
                    name = name[7:]
                elif name in REGISTERED:
                    name = "core::" + name      # the engine's own operator of that name, with other semantics
                args, rest = [], []
                for x in f[1:]:
                    (rest if isinstance(x, str) and x.startswith(":") else args).append(x)
                out = call(name, [denote(x, env) for x in args])
                if filters:
                    out = ("filter", filters, out)
                return post(out, rest, env)
        if len(f) == 2 and chain(f[1]) and not chain(f[0]):
            return post(denote(head, env), f[1:], env)
        return ("list",) + tuple(denote(x, env) for x in f)
    return ("?", repr(f))


def chain(x):
    """a continuation: ':$.key' applied to the value before it"""
    if isinstance(x, list):
        return bool(x) and chain(x[0])
    return isinstance(x, str) and x.startswith(":$")


def post(out, rest, env):
    for r in rest:
        if isinstance(r, list):
            out = post(out, r, env)
        elif isinstance(r, str) and r.startswith(":$.*|"):
            out = ("filter", r[5:], out)
        elif isinstance(r, str):
            out = ("then", r.lstrip(":"), out)
    return out


def hashable(x):
    if isinstance(x, list):
        return tuple(hashable(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, hashable(v)) for k, v in x.items()))
    return x


def ite(c, t, e):
    if is_const(c) and not isinstance(c[1], tuple):
        return t if c[1] else e
    if c[:2] == ("call", "is") and len(c) == 4 and c[3] == ("const", None) and t == ("const", None) and e == c[2]:
        return e
    if is_const(e) and e[1] in (0, False) and e[1] is not None:
        return ("and", c, t)
    if is_const(t) and t[1] in (1, True):
        return ("or", c, e)
    return ("if", c, t, e)


def call(name, args):
    if name == "convert_array" and len(args) == 1 and args[0][:1] == ("list",):
        return args[0]
    if name == "convert_array" and len(args) == 1 and args[0][:1] == ("single",):
        return ("list", args[0][1])
    if name == "convert_array" and len(args) == 1 and is_const(args[0]) and isinstance(args[0][1], tuple):
        return ("list",) + tuple(("const", x) for x in args[0][1])
    if name in MIRROR and len(args) == 2:
        a, b = args
        if repr(b) < repr(a):
            return ("call", MIRROR[name], b, a)
        return ("call", name, a, b)
    if name == "in" and len(args) == 2:
        vals = args[1]
        if is_const(vals) and isinstance(vals[1], tuple):
            vals = ("list",) + tuple(("const", x) for x in vals[1])
        if vals[:1] == ("list",):
            if len(vals) == 2:
                return call("eq", [args[0], vals[1]])
            vals = ("list",) + tuple(sorted(set(vals[1:]), key=repr))
        return ("call", "in", args[0], vals)
    if name == "is_null" and len(args) == 1:
        return call("is", [args[0], ("const", None)])
    if name == "is" and len(args) == 2 and is_const(args[0]) and args[1] == ("const", None):
        return ("const", args[0][1] is None)
    return ("call", name) + tuple(args)


def conj(d):
    """flattened conjunction, as a sorted set of conjuncts"""
    out = []

    def rec(x):
        if isinstance(x, tuple) and x and x[0] == "and":
            rec(x[1])
            rec(x[2])
        else:
            out.append(norm(x))
    rec(d)
    return frozenset(out)


def norm(d):
    """and/or up to associativity and commutativity (their operands have no effects)"""
    if not isinstance(d, tuple) or not d:
        return d
    if d[0] in ("and", "or"):
        op, items = d[0], []

        def rec(x):
            if isinstance(x, tuple) and x and x[0] == op:
                rec(x[1])
                rec(x[2])
            else:
                items.append(norm(x))
        rec(d)
        items = sorted(set(items), key=repr)
        return items[0] if len(items) == 1 else (op,) + tuple(items)
    return tuple(norm(x) if isinstance(x, tuple) else x for x in d)
