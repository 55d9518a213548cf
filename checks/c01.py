"""C01: a scalar function whose mandatory operand is NULL yields NULL.

For every function in the scalar registry, every legal argument count and every argument position, the function is
interpreted abstractly with NULL at that position and an arbitrary non-NULL value (no type fact) at the others; on
every feasible path it must return NULL or raise (the calculater turns the exception into NULL, decided by C03).
External calls that reject None (math, re, base64, ...) raise on a NULL argument; everything else external is an
uninterpreted non-NULL term.  Loops over unknown collections are unrolled twice.
"""
from sa.interp import C, FuncV, NONE, Term
from .scalar import NAMES, arg_shapes, nonnull, registry, scalar_interp, where, PKG

EXPLANATION = __doc__

# function -> positions for which NULL is a value or "not given" rather than an unknown operand (None = every position)
EXEMPT = {
    "is": None, "is_not": None, "exists": None,              # predicates on NULL itself
    "json_array": None, "json_object": None, "json_encode": None,   # NULL is a JSON value
    "json_depth": None, "json_keys": None, "json_length": None, "json_valid": None,  # defined on the JSON null document
    "unix_timestamp": [0],                                    # optional operand
    "elt": range(1, 99), "field": range(1, 99),               # list to select from / to search in
    "substr": [2], "substring": [2],                          # optional length
    "week": [1], "yearweek": [1],                             # optional mode
    "like": range(2, 99), "regexp": range(2, 99), "regexplike": range(2, 99), "regexp_instr": range(2, 99),
    "regexp_replace": range(3, 99), "regexp_substr": range(2, 99),      # optional position / flags
    "json_contains": range(1, 99), "json_contains_path": range(1, 99), "json_extract": range(1, 99),
    "json_remove": range(1, 99), "json_set": range(1, 99),    # the paths and values; the document is checked
    "round": [],
}
NEEDS_ARGS = {"json_contains_path": 3, "json_extract": 2, "json_remove": 2, "json_set": 3}


def json_value_model(qual):
    def m(it, args, kwargs, node):
        if it.is_none(args[0]):
            return it.call_func(it.get(qual), args, kwargs, node)
        return Term("jsonpath", tuple(args))
    return m


def check(ctx):
    ctx.rule("null-strict", "NULL at a mandatory operand position => every path returns NULL or raises")
    ctx.rule("registered", "the function is registered as a plain function definition")
    it = scalar_interp(ctx)
    for n in ("get_json_path_value", "set_json_path_value", "remove_json_path_value"):
        q = PKG + ".json_funcs." + n
        try:
            it.get(q)
        except Exception:
            continue
        it.models[q] = json_value_model(q)
    reg = registry(ctx, it)
    for name in NAMES:
        f = reg.get(name)
        if not isinstance(f, FuncV):
            continue        # C06 reports a missing function
        ctx.ob("registered", name, True)
        for total in arg_shapes(f):
            if total < NEEDS_ARGS.get(name, 0):
                continue
            for j in range(total):
                ex = EXEMPT.get(name, ())
                if ex is None or j in ex:
                    ctx.count("exempt_positions")
                    continue

                def entry(it):
                    args = [NONE if i == j else nonnull(it, "arg%d" % i) for i in range(total)]
                    return it.call(f, args, {})
                bad = None
                for r in it.explore(entry):
                    if r.kind == "return" and not (isinstance(r.value, C) and r.value.v is None):
                        if not (isinstance(r.value, Term) and it.tname(r.value) == "NoneType"):
                            bad = r
                            break
                ctx.ob("null-strict", "%s/arg%d" % (name, j), bad is None,
                       bad and "%s called with %d arguments, NULL at position %d, returns %r on path [%s]" % (
                           name, total, j, bad.value, bad.describe()[:300]), where(ctx, f))
    ctx.require("null-strict", 150)
    ctx.require("registered", 120)
    ctx.assumptions.append("standard library functions return a non-None value or raise; NULL passed to math/re/base64/"
                           "binascii/socket/zlib/json.loads raises")
