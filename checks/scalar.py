"""shared by the checks on scalar functions: registry access and value models"""
import ast
from sa.interp import C, Term, NONE, FuncV, TupleV, Inst, PyV, DictV, ListV, key_of

PKG = "syncanysql.calculaters.mysql_funcs"
NONE_REJECTING = ("math.", "re.", "zlib.", "base64.", "binascii.", "socket.", "json.loads",
                  "datetime.datetime.fromtimestamp", "time.mktime")


def conv_model(qual, ty):
    def m(it, args, kwargs, node):
        f = it.get(qual)
        if not args or it.tname(args[0]) == "NoneType" or isinstance(args[0], C):
            return it.call_func(f, args, kwargs, node)
        if it.is_none(args[0]):
            return it.call_func(f, [NONE] + list(args[1:]), kwargs, node)
        if it.tname(args[0]) == ty:
            return args[0]
        return Term("conv:" + qual.split(".")[-1], args, ty)
    return m


def reject_none_model(it, args, kwargs, node):
    recv, rest = args[0], args[1:]
    for a in rest:
        if it.tname(a) == "NoneType":
            it.raise_("TypeError", "None argument", node)
    return Term("mcall", tuple(args) + tuple(kwargs.values()))


def scalar_interp(ctx, **kw):
    it = ctx.interp(**kw)
    for n, ty in (("ensure_int", "int"), ("ensure_float", "float"), ("ensure_number", "float"), ("ensure_str", "str"),
                  ("parse_number", "float")):
        it.models["syncanysql.utils." + n] = conv_model("syncanysql.utils." + n, ty)

    def parse_dt(it, args, kwargs, node):
        if it.tname(args[0]) == "NoneType":
            it.raise_("TypeError", "None", node)
        return Term("parse_datetime", args, "datetime.datetime")
    it.models["syncany.utils.parse_datetime"] = parse_dt
    for n in ("match", "search", "fullmatch", "sub", "findall", "utctimetuple"):
        it.method_models[n] = reject_none_model
    it.models[PKG + ".json_funcs.parse_json_path"] = lambda it, a, k, n: ListV([], True, "path", lambda it, i: it.fresh("key%d" % i, "str"))
    old = it.call_ext

    def call_ext(name, args, kwargs, node=None):
        if name.startswith(NONE_REJECTING):
            for a in args:
                if it.tname(a) == "NoneType":
                    it.raise_("TypeError", name, node)
        return old(name, args, kwargs, node)
    it.call_ext = call_ext
    return it


def registry(ctx, it):
    """name -> FuncV of every scalar SQL function, evaluated from the registry the calculater looks names up in"""
    from sa.project import AnalysisBroken
    d = it.get(PKG + ".funcs")
    if not isinstance(d, DictV) or d.open:
        raise AnalysisBroken("scalar function registry %s.funcs is not a statically known dict: %r" % (PKG, d))
    out = {}
    for k, v in d.d.values():
        out[k.v] = v
    return out


def where(ctx, f):
    return "%s:%d" % (ctx.project.relpath(f.module.mod), f.node.lineno)


def nonnull(it, name, ty=None):
    v = it.fresh(name, ty)
    if ty is None:
        from sa.interp import TypeV
        it.notty.setdefault(key_of(v), []).append(TypeV("NoneType"))
    return v


# The scalar functions of the reference tree (frozen; a function added later is outside the claim,
# a function that disappears is reported by C06).
NAMES = """abs acos adddate add addtime ascii asin atan bin bit_and bit_length bit_or bit_xor bitwiseand
bitwiseleftshift bitwisenot bitwiseor bitwiserightshift bitwisexor ceil ceiling char char_length character_length
concat concat_ws contains cos crc32 curdate currentdate currenttime currenttimestamp curtime date date_format dateadd
datediff datesub datetime dayname dayofmonth dayofweek dayofyear div elt endswith eq exists exp field find_in_set floor
from_base64 from_unixtime greatest gt gte hex in inet4_aton inet4_ntoa inet6_aton inet6_ntoa insert is is_ipv4 is_ipv6
is_not json_array json_contains json_contains_path json_decode json_depth json_encode json_extract json_keys
json_length json_object json_remove json_set json_valid least left length like ln log lower lt lte mod month monthname
mul neq not oct ord pi pow power rand regexp regexp_instr regexp_replace regexp_substr regexplike repeat replace
reverse right round sec_to_time sign sin sqrt startswith strcmp sub subdate substr substring substring_index subtime
sysdate tan time time_format time_to_sec timestampdiff to_base64 trim ucase unhex unix_timestamp upper utc_date
utc_time utc_timestamp week weekday year yearweek""".split()


def arg_shapes(f):
    """(number of arguments) a caller may legally pass; varargs are sampled up to three extra"""
    a = f.node.args
    n, nd = len(a.posonlyargs) + len(a.args), len(f.defaults)
    out = list(range(n - nd, n + 1))
    if a.vararg:
        out += [n + 1, n + 2, n + 3]
    return out
