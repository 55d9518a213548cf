"""Path-sensitive abstract interpreter over the Python syntax tree.

The analysed program is never imported or executed.  Values are abstract:
constants, opaque symbols carrying a type fact, uninterpreted terms, abstract
containers and instances.  A condition the facts of the path do not decide
splits the path; the facts form a finite domain (type facts, None-ness,
truth values, the three orderings <,=,>), so no solver is involved.  Paths are
enumerated by replaying the analysis with a choice trail; loops over unknown
collections are unrolled up to a stated bound.
"""
import ast
import builtins
import copy as _copy
import datetime as _dt
import decimal as _decimal
import sys
import collections
import threading

from .project import AnalysisBroken, Project

sys.setrecursionlimit(60000)

LIB_ROOTS = ("syncany", "sqlglot")


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class C(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def cbool(x):
    return TRUE if x else FALSE


class Opaque(V):
    __slots__ = ("id", "name", "meta")

    def __init__(self, id, name, meta=None):
        self.id, self.name, self.meta = id, name, meta

    def __repr__(self):
        return "<%s>" % self.name


class Term(V):
    __slots__ = ("op", "args", "ty")

    def __init__(self, op, args, ty=None):
        self.op, self.args, self.ty = op, tuple(args), ty

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(a if isinstance(a, str) else repr(a) for a in self.args))


class TupleV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class ListV(V):
    __slots__ = ("items", "open", "name", "elem")

    def __init__(self, items=(), open=False, name="list", elem=None):
        self.items, self.open, self.name, self.elem = list(items), open, name, elem

    def snapshot(self):
        return (list(self.items), self.open)

    def restore(self, s):
        self.items, self.open = s

    def __repr__(self):
        return "[%s%s]" % (", ".join(map(repr, self.items)), ", ..." if self.open else "")


class SetV(ListV):
    __slots__ = ()

    def __repr__(self):
        return "{%s%s}" % (", ".join(map(repr, self.items)), ", ..." if self.open else "")


class DictV(V):
    __slots__ = ("d", "open", "absent", "name", "elem", "ver", "factory")

    def __init__(self, pairs=(), open=False, name="dict", elem=None):
        self.d = {}
        self.open, self.absent, self.name, self.elem = open, set(), name, elem
        self.ver, self.factory = 0, None
        for k, v in pairs:
            self.d[key_of(k)] = (k, v)

    def snapshot(self):
        return (dict(self.d), self.open, set(self.absent))

    def restore(self, s):
        self.d, self.open, self.absent = s

    def cget(self, k, default=None):
        r = self.d.get(key_of(C(k)))
        return r[1] if r else default

    def cset(self, k, v):
        self.d[key_of(C(k))] = (C(k), v)

    def keys_const(self):
        return [k.v for k, _ in self.d.values() if isinstance(k, C)]

    def __repr__(self):
        return "{%s%s}" % (", ".join("%r: %r" % kv for kv in self.d.values()), ", ..." if self.open else "")


class Inst(V):
    __slots__ = ("cls", "attrs", "lazy", "name", "id")

    def __init__(self, cls, attrs=None, lazy=False, name=None, id=0):
        self.cls, self.attrs, self.lazy, self.name, self.id = cls, dict(attrs or {}), lazy, name, id

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def __repr__(self):
        return "<%s %s>" % (type_name(self.cls), self.name or "")


class Env:
    __slots__ = ("vars", "parent", "module", "cls", "globals_", "nonlocals", "locals_", "func")

    def __init__(self, module, parent=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.cls = None
        self.globals_ = self.nonlocals = self.locals_ = ()
        self.func = None

    def snapshot(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class FuncV(V):
    __slots__ = ("node", "env", "qual", "module", "defaults", "kwdefaults", "owner", "attrs", "kind")

    def __init__(self, node, env, qual, module, defaults, kwdefaults, owner=None):
        self.node, self.env, self.qual, self.module = node, env, qual, module
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        self.attrs = {}
        self.kind = None

    def __repr__(self):
        return "<func %s>" % self.qual


class BoundV(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self)


class ClassV(V):
    __slots__ = ("name", "qual", "bases", "attrs", "module", "node", "_mro")

    def __init__(self, name, qual, bases, attrs, module, node):
        self.name, self.qual, self.bases, self.attrs, self.module, self.node = name, qual, bases, attrs, module, node
        self._mro = None

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def __repr__(self):
        return "<class %s>" % self.qual


def _c3(cls):
    def bases(c):
        return list(c.bases) if isinstance(c, ClassV) else []

    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(any(same_type(h, x) for x in t[1:]) for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if not same_type(x, h)] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lin(c):
        if not isinstance(c, ClassV):
            return [c]
        return [c] + merge([lin(b) for b in bases(c)] + [bases(c)])
    return lin(cls)


class TypeV(V):
    """a builtin or external type, by dotted name ('int', 'datetime.datetime')"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class ExtV(V):
    """an external object, by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class BuiltinV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<builtin %s>" % self.name


class BMethV(V):
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.recv)


class ModuleV(V):
    __slots__ = ("mod", "env", "lazy", "state")

    def __init__(self, mod, env, lazy):
        self.mod, self.env, self.lazy, self.state = mod, env, lazy, "new"

    @property
    def name(self):
        return self.mod.name

    def __repr__(self):
        return "<module %s>" % self.mod.name


class PyV(V):
    """host-level model of a callable: fn(interp, args, kwargs, node)"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="model"):
        self.fn, self.name = fn, name

    def __repr__(self):
        return "<model %s>" % self.name


class PropV(V):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV(V):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClsMethV(V):
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class GenV(V):
    __slots__ = ("items", "pos", "exc")

    def __init__(self, items, exc=None):
        self.items, self.pos, self.exc = list(items), 0, exc

    def step(self, it, node=None):
        """the next value; raises what ends the generator"""
        if self.pos < len(self.items):
            self.pos += 1
            return self.items[self.pos - 1]
        if self.exc is not None:
            exc, self.exc = self.exc, None
            raise exc
        it.raise_("StopIteration", "", node)


class _Kill(BaseException):
    pass


class LazyGen(GenV):
    """a generator whose body runs, in a thread of its own, up to each value when it is asked for"""
    __slots__ = ("it", "body", "thread", "wake", "back", "done", "value", "failure", "frames", "depth", "killed", "_items")

    def __init__(self, it, body):
        self.it, self.body, self.thread, self.done, self.killed = it, body, None, False, False
        self.wake, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.value = self.failure = self.exc = self._items = None
        self.pos, self.frames, self.depth = 0, list(it.frames), it.depth
        it.live.append(self)

    @property
    def items(self):
        """all values, for uses that take them at once"""
        if self._items is None:
            self._items = []
            while True:
                try:
                    self._items.append(self.resume())
                except Raised as r:
                    self.exc = r
                    break
                if self._items[-1] is None:
                    self._items.pop()
                    break
        return self._items

    def resume(self):
        """the next value, None at the end"""
        if self.done:
            return None
        it = self.it
        outer = it.frames, it.depth
        it.frames, it.depth = self.frames, self.depth
        self.value = self.failure = None
        if self.thread is None:
            if self.killed:
                self.done = True
                return None
            old = threading.stack_size(256 * 1024 * 1024)
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
            threading.stack_size(old)
        else:
            self.wake.release()
        self.back.acquire()
        self.frames, self.depth = it.frames, it.depth
        it.frames, it.depth = outer
        if self.failure is not None:
            raise self.failure
        return self.value

    def _run(self):
        try:
            self.body(self.give)
        except _Kill:
            pass
        except BaseException as e:
            self.failure = e
        self.done = True
        if self in self.it.live:
            self.it.live.remove(self)
        self.back.release()

    def give(self, v):
        self.value = v
        self.back.release()
        self.wake.acquire()
        if self.killed:
            raise _Kill()

    def step(self, it, node=None):
        if self._items is not None:
            return GenV.step(self, it, node)
        v = self.resume()
        if v is None:
            it.raise_("StopIteration", "", node)
        return v

    def kill(self):
        self.killed = True
        if self.thread is not None and not self.done:
            try:
                self.resume()
            except BaseException:
                pass
        self.done = True


class Raised(Exception):
    def __init__(self, exc, node=None):
        Exception.__init__(self)
        self.exc, self.node = exc, node

    def __str__(self):
        return type_name(self.exc.cls) if isinstance(self.exc, Inst) else repr(self.exc)


class Pruned(BaseException):
    pass


class Budget(BaseException):
    pass


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


_CONTROL = (Raised, _Return, _Break, _Continue)

PYTYPES = {"NoneType": type(None), "int": int, "float": float, "bool": bool, "str": str, "bytes": bytes,
           "list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset,
           "datetime.datetime": _dt.datetime, "datetime.date": _dt.date, "datetime.time": _dt.time,
           "datetime.timedelta": _dt.timedelta, "decimal.Decimal": _decimal.Decimal, "object": object,
           "function": type(lambda: 0), "complex": complex, "type": type}
NUMERIC = {"int", "float", "bool", "decimal.Decimal"}
DATES = {"datetime.datetime", "datetime.date"}
CONTAINERS = {"list", "tuple", "dict", "set", "frozenset", "bytes"}


def type_name(t):
    if isinstance(t, ClassV):
        return t.qual
    if isinstance(t, (TypeV, ExtV, BuiltinV)):
        return t.name
    return str(t)


def same_type(a, b):
    if isinstance(a, ClassV) or isinstance(b, ClassV):
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a is b or a.qual == b.qual
        return False
    return type_name(a) == type_name(b)


def py_type(t):
    n = type_name(t)
    if n in PYTYPES:
        return PYTYPES[n]
    o = getattr(builtins, n, None)
    return o if isinstance(o, type) else None


def is_subtype(a, b):
    """True / False / None (not known)"""
    if same_type(a, b):
        return True
    if isinstance(a, ClassV):
        unknown = False
        for m in a.mro()[1:]:
            if same_type(m, b):
                return True
            if not isinstance(m, ClassV):
                r = is_subtype(m, b)
                if r:
                    return True
                if r is None:
                    unknown = True
        if type_name(b) == "object":
            return True
        return None if unknown else False
    if isinstance(b, ClassV):
        return False if py_type(a) is not None else (False if isinstance(a, TypeV) else None)
    pa, pb = py_type(a), py_type(b)
    if pa is not None and pb is not None:
        return issubclass(pa, pb)
    if pa is not None or pb is not None:
        if pa in (type(None), int, float, bool, str, bytes, list, tuple, dict, set) or (
                pb in (type(None), int, float, bool, str, bytes, list, tuple, dict, set)):
            return False
        return None
    return None


def key_of(v):
    if isinstance(v, C):
        t = type(v.v).__name__
        if t in ("bool", "int", "float"):
            try:
                return ("n", float(v.v)) if abs(v.v) < 2 ** 52 else ("n", v.v)
            except OverflowError:
                return ("n", v.v)
        return ("c", t, v.v)
    if isinstance(v, Opaque):
        return ("o", v.id)
    if isinstance(v, Term):
        return ("t", v.op) + tuple(a if isinstance(a, str) else key_of(a) for a in v.args)
    if isinstance(v, TupleV):
        return ("tup",) + tuple(key_of(i) for i in v.items)
    if isinstance(v, (TypeV, ExtV)):
        return ("ty", v.name)
    if isinstance(v, BuiltinV):
        return ("b", v.name)
    if isinstance(v, ClassV):
        return ("cls", v.qual)
    if isinstance(v, BMethV):
        return ("bm", key_of(v.recv), v.name)
    if isinstance(v, BoundV):
        return ("bound", key_of(v.func), key_of(v.self))
    if isinstance(v, FuncV):
        return ("f", v.qual, id(v))
    return ("id", id(v))


STR_RET_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "format", "join", "title", "capitalize",
               "zfill", "ljust", "rjust", "center", "swapcase", "translate", "expandtabs", "casefold"}
STR_RET_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace",
                "isnumeric", "isdecimal", "isidentifier", "istitle"}

BUILTIN_FUNCS = {"isinstance", "issubclass", "len", "range", "enumerate", "zip", "sorted", "reversed", "min", "max",
                 "sum", "abs", "any", "all", "repr", "id", "print", "callable", "iter", "next", "map", "filter",
                 "hash", "open", "globals", "locals", "vars", "getattr", "setattr", "hasattr", "delattr", "round",
                 "ord", "chr", "bin", "hex", "oct", "pow", "divmod", "eval", "exec", "compile", "input", "format",
                 "dir", "exit", "quit", "__import__"}
BUILTIN_TYPES = {"int", "float", "bool", "str", "bytes", "list", "tuple", "dict", "set", "frozenset", "object",
                 "type", "complex", "bytearray", "memoryview", "slice"}


class PathResult:
    __slots__ = ("kind", "value", "events", "trail", "exc", "cut", "node")

    def __init__(self, kind, value, events, trail, exc=None, cut=False, node=None):
        self.kind, self.value, self.events, self.trail, self.exc, self.cut, self.node = \
            kind, value, events, trail, exc, cut, node

    def exc_name(self):
        return type_name(self.exc.cls) if isinstance(self.exc, Inst) else repr(self.exc)

    def describe(self):
        out = []
        for k, n, lab in self.trail:
            if lab:
                out.append("%s=%s" % (lab, k))
        return "; ".join(str(x) for x in out)


class Interp:
    def __init__(self, project=None, models=None, loop_bound=2, max_paths=20000, inline_lib=(), preload=True):
        self.project = project or Project()
        self.models = dict(models or {})
        self.method_models = {}      # method name on opaque/term/lazy receivers -> model
        self.attr_models = {}        # (class qual, attr) -> fn(interp, inst)
        self.loop_bound = loop_bound
        self.max_paths = max_paths
        self.inline_lib = tuple(inline_lib)
        self.mods = {}
        self.init_mode = False
        self.gen_lazy = False        # a generator's body runs as its values are asked for
        self.live = []               # lazy generators not used up
        self.gen_delay = False       # a generator's exception comes when its values are used up (False: when it is called)
        self.ext_may_raise = None
        self.stats = {"paths": 0, "pruned": 0, "functions": set(), "branches": 0, "calls": 0}
        self.depth = 0
        self.max_depth = 80
        self.truncated = False
        self._reset()
        if preload:
            for n in self.project.internal_names:
                self.load(n)
        self._reset()

    # ------------------------------------------------------------ paths
    def _reset(self):
        self.trail, self.pos = [], 0
        self._path_reset()

    def _path_reset(self):
        self.pos = 0
        self.next_id = 1000
        self.tyfact, self.notty, self.truthf, self.cmpf, self.inf = {}, {}, {}, {}, {}
        self.events = []
        self.undo = {}
        self.depth = 0
        self.cut = False
        self.memo_attr = {}
        self.frames = []

    def mut(self, obj):
        if self.init_mode:
            return
        if id(obj) not in self.undo:
            self.undo[id(obj)] = (obj, obj.snapshot())

    def _rollback(self):
        for obj, snap in self.undo.values():
            obj.restore(snap)
        self.undo = {}

    def choose(self, n, label=None, default=None):
        if n <= 1:
            return 0
        if self.init_mode:
            return n - 1 if default is None else default
        self.stats["branches"] += 1
        if self.pos < len(self.trail):
            k = self.trail[self.pos][0]
        else:
            k = 0
            self.trail.append([0, n, label])
        self.pos += 1
        return k

    def choose_from(self, options, label=None):
        return options[self.choose(len(options), label)]

    def prune(self, why=""):
        raise Pruned(why)

    def explore(self, entry, max_paths=None):
        """entry(interp) -> value ; yields a PathResult per feasible path"""
        limit = max_paths or self.max_paths
        self._reset()
        out = []
        n = 0
        while True:
            self._path_reset()
            kind, val, exc, node = None, None, None, None
            try:
                val = entry(self)
                kind = "return"
            except Raised as r:
                kind, exc, node = "raise", r.exc, r.node
            except Pruned:
                kind = None
            except _Return as r:
                kind, val = "return", r.v
            except (RecursionError,):
                kind = None
                self.stats["pruned"] += 1
            if self.live:
                end, events = self.pos, list(self.events)
                for g in list(self.live):
                    g.kill()
                self.pos, self.events, self.live = end, events, []
            n += 1
            self.stats["paths"] += 1
            if kind is None:
                self.stats["pruned"] += 1
            else:
                out.append(PathResult(kind, val, self.events, [tuple(t) for t in self.trail[:self.pos]], exc, self.cut, node))
            self._rollback()
            # backtrack
            del self.trail[self.pos:]
            while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                break
            self.trail[-1][0] += 1
            if n >= limit:
                self.truncated = True
                break
        self._reset()
        return out

    def event(self, kind, *data, node=None):
        if not self.init_mode:
            self.events.append((kind,) + data + ((node,) if node is not None else ()))

    def fresh(self, name, ty=None, meta=None):
        self.next_id += 1
        o = Opaque(self.next_id, name if len(name) < 160 else name[:157] + "...", meta)
        if ty is not None:
            self.set_type(o, ty)
        return o

    def set_type(self, v, ty):
        self.tyfact[key_of(v)] = TypeV(ty) if isinstance(ty, str) else ty

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        mod = self.project.module(name)
        if mod is None:
            return None
        lazy = not self.project.is_internal(name)
        env = Env(None)
        mv = ModuleV(mod, env, lazy)
        env.module = mv
        self.mods[name] = mv
        env.vars["__name__"] = C(name)
        env.vars["__file__"] = C(mod.path)
        if lazy:
            mv.state = "lazy"
            return mv
        mv.state = "loading"
        old = (self.init_mode, self.depth)
        self.init_mode = True
        try:
            for st in mod.tree.body:
                try:
                    self.exec(st, env)
                except Raised as r:
                    if isinstance(st, (ast.Import, ast.ImportFrom)):
                        continue
                    raise AnalysisBroken("module %s: initialiser at line %d raises %s" % (name, st.lineno, r))
        finally:
            self.init_mode, self.depth = old
        mv.state = "loaded"
        return mv

    def module_attr(self, mv, name, node=None):
        if name in mv.env.vars:
            return mv.env.vars[name]
        if mv.lazy:
            top = mv.mod.top().get(name)
            if top:
                old = self.init_mode
                self.init_mode = True
                mv.env.vars[name] = ExtV(mv.name + "." + name)   # recursion guard
                try:
                    st = top[-1]
                    # prefer a definition over a fallback assignment
                    for s in top:
                        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            st = s
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                        if isinstance(st, ast.ImportFrom):
                            st2 = ast.ImportFrom(module=st.module, names=[a for a in st.names if (a.asname or a.name) == name],
                                                 level=st.level)
                            ast.copy_location(st2, st)
                            self.exec(st2, mv.env)
                        else:
                            self.exec(st, mv.env)
                    elif isinstance(st, (ast.Assign, ast.AnnAssign)) and getattr(st, "value", None) is not None:
                        try:
                            self.exec(st, mv.env)
                        except Raised:
                            mv.env.vars[name] = ExtV(mv.name + "." + name)
                    else:
                        mv.env.vars[name] = ExtV(mv.name + "." + name)
                finally:
                    self.init_mode = old
                return mv.env.vars[name]
        sub = self.project.module(mv.name + "." + name) if mv.mod.is_pkg else None
        if sub is not None:
            return self.load(sub.name)
        if mv.lazy:
            # star imports of a library module
            m = self._star_source(mv, name, set())
            if m is not None:
                return self.module_attr(m, name, node)
        self.raise_("AttributeError", "module %s has no attribute %s" % (mv.name, name), node)

    def _star_source(self, mv, name, seen):
        """the module a name of a library module comes from through (nested) star imports"""
        seen.add(mv.name)
        for st in mv.mod.tree.body:
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                m = self.load(self.project.resolve_from(mv.mod, st))
                if m is None or m.name in seen:
                    continue
                if name in m.mod.top():
                    return m
                r = self._star_source(m, name, seen)
                if r is not None:
                    return r
        return None

    def import_module(self, name, node=None):
        root = name.split(".")[0]
        if self.project.is_internal(name) or root in LIB_ROOTS:
            m = self.load(name)
            if m is None:
                if self.project.is_internal(name):
                    self.raise_("ImportError", "no module %s" % name, node)
                return ExtV(name)
            return m
        return ExtV(name)

    ext_values = {}

    def ext(self, dotted):
        if dotted in self.ext_values:
            return self.ext_values[dotted]
        if dotted in PYTYPES:
            return TypeV(dotted)
        return ExtV(dotted)

    # ------------------------------------------------------------ exceptions
    def raise_(self, name, msg="", node=None):
        raise Raised(Inst(TypeV(name), {"args": TupleV([C(msg)])}, name=msg), node)

    def exc_matches(self, exc, t):
        if isinstance(t, TupleV):
            return any(self.exc_matches(exc, x) for x in t.items)
        r = is_subtype(exc.cls, t) if isinstance(exc, Inst) else None
        if r is None:
            return bool(self.choose(2, "exception %s is %s" % (exc, type_name(t))))
        return r

    # ------------------------------------------------------------ types and facts
    def type_of(self, v):
        if isinstance(v, C):
            return TypeV(type(v.v).__name__)
        if isinstance(v, (Opaque, Term)):
            t = self.tyfact.get(key_of(v))
            if t is None and isinstance(v, Term) and v.ty is not None:
                return TypeV(v.ty) if isinstance(v.ty, str) else v.ty
            return t
        if isinstance(v, TupleV):
            return TypeV("tuple")
        if isinstance(v, SetV):
            return TypeV("set")
        if isinstance(v, ListV):
            return TypeV("list")
        if isinstance(v, DictV):
            return TypeV("dict")
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, (FuncV, PyV)):
            return TypeV("function")
        if isinstance(v, BoundV):
            return TypeV("method")
        if isinstance(v, (ClassV, TypeV)):
            return TypeV("type")
        if isinstance(v, GenV):
            return TypeV("generator")
        return None

    def tname(self, v):
        t = self.type_of(v)
        return type_name(t) if t is not None else None

    def isinstance_(self, v, t, node=None):
        if isinstance(t, TupleV):
            # split over the individual classes so that the refinement is exact
            ty = self.type_of(v)
            if ty is not None:
                res = [is_subtype(ty, x) for x in t.items if not isinstance(x, TupleV)]
                if any(r is True for r in res):
                    return True
                if all(r is False for r in res) and len(res) == len(t.items):
                    return False
            for x in t.items:
                if self.isinstance_(v, x, node):
                    return True
            return False
        if isinstance(v, Inst) and "opaque" in v.attrs:
            return False
        ty = self.type_of(v)
        if isinstance(t, (ExtV, TypeV)) and t.name in ("types.FunctionType", "types.LambdaType") and ty is not None:
            return isinstance(v, FuncV)
        if isinstance(t, (ExtV, TypeV)) and t.name in ("types.MethodType",) and ty is not None:
            return isinstance(v, BoundV)
        if ty is not None:
            r = is_subtype(ty, t)
            if r is not None:
                return r
        if isinstance(t, ExtV) and t.name in PYTYPES:
            t = TypeV(t.name)
        if not isinstance(t, (ClassV, TypeV, ExtV)):
            k = ("isinst", key_of(v), key_of(t))
            return self._memo_choice(self.inf, k, "isinstance(%r, ?)" % (v,))
        k = key_of(v)
        if ty is not None:
            return self._memo_choice(self.inf, ("isinst", k, key_of(t)), "isinstance(%r, %s)" % (v, type_name(t)))
        for x in self.notty.get(k, ()):
            if is_subtype(t, x):
                return False
        if self.truthf.get(k) is True and type_name(t) == "NoneType":
            return False
        lab = "isinstance(%r, %s)" % (v, type_name(t))
        yes = self.choose(2, lab) == 1
        if yes:
            self.tyfact[k] = t
            return True
        self.notty.setdefault(k, []).append(t)
        return False

    def _memo_choice(self, store, k, label):
        if k in store:
            return store[k]
        r = self.choose(2, label) == 1
        store[k] = r
        return r

    def is_none(self, v):
        t = self.type_of(v)
        if t is not None:
            return type_name(t) == "NoneType"
        if not isinstance(v, (Opaque, Term)):
            return False
        return self.isinstance_(v, TypeV("NoneType"))

    def truth(self, v, node=None):
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, TupleV):
            return bool(v.items)
        if isinstance(v, ListV):
            if v.items:
                return True
            if not v.open:
                return False
            if self.choose(2, "%s non-empty" % v.name):
                self.mut(v)
                v.items.append(self._elem(v, 0))
                return True
            self.mut(v)
            v.open = False
            return False
        if isinstance(v, DictV):
            if v.d:
                return True
            if not v.open:
                return False
            k = ("truth", id(v))
            return self._memo_choice(self.truthf, k, "%s non-empty" % v.name)
        if isinstance(v, Inst):
            for nm in ("__bool__", "__len__"):
                f = self.class_lookup(v.cls, nm)
                if f is not None and isinstance(f, FuncV) and not f.module.lazy:
                    return self.truth(self.call(BoundV(f, v), [], {}, node), node)
            return True
        if isinstance(v, GenV):
            return True
        if not isinstance(v, (Opaque, Term)):
            return True
        t = self.type_of(v)
        n = type_name(t) if t is not None else None
        if n == "NoneType":
            return False
        if n in ("int", "float", "decimal.Decimal"):
            return not self.decide("==", v, C(0))
        if n == "str":
            return not self.decide("==", v, C(""))
        if n in ("datetime.datetime", "datetime.date", "datetime.time", "function", "method", "type"):
            return True
        if isinstance(t, ClassV):
            return True
        if isinstance(v, Term) and v.op == "not":
            return not self.truth(v.args[0])
        k = key_of(v)
        if k in self.truthf:
            return self.truthf[k]
        r = self._memo_choice(self.truthf, k, "truth(%r)" % (v,))
        if r and t is None:
            self.notty.setdefault(k, []).append(TypeV("NoneType"))
        return r

    ORD = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}, "==": {"="}, "!=": {"<", ">"}}
    FLIP = {"<": ">", ">": "<", "=": "="}

    def _const_facts(self, k):
        return [(o, s) for (a, o), s in self.cmpf.items() if a == k and o[0] in ("n", "c")]

    def decide(self, op, a, b):
        ka, kb = key_of(a), key_of(b)
        if ka == kb:
            return "=" in self.ORD[op]
        if isinstance(a, C) and isinstance(b, C):
            return {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y,
                    ">=": lambda x, y: x >= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[op](a.v, b.v)
        allowed = self._allowed(a, b, ka, kb)
        t, f = allowed & self.ORD[op], allowed - self.ORD[op]
        if not f:
            return True
        if not t:
            return False
        r = self.choose(2, "%r %s %r" % (a, op, b)) == 1
        s = t if r else f
        self.cmpf[(ka, kb)] = s
        self.cmpf[(kb, ka)] = {self.FLIP[x] for x in s}
        return r

    def _allowed(self, a, b, ka, kb):
        allowed = set(self.cmpf.get((ka, kb), {"<", "=", ">"}))
        if isinstance(b, C) and b.v == "" and isinstance(b.v, str):
            allowed.discard("<")
        if isinstance(a, C) and a.v == "" and isinstance(a.v, str):
            allowed.discard(">")
        if isinstance(a, Term) and a.op in ("len", "abs") and isinstance(b, C) and isinstance(b.v, (int, float)):
            if b.v <= 0:
                allowed.discard("<")
            if b.v < 0:
                allowed.discard("=")
        if len(self.cmpf) > 2 and not isinstance(a, C) and not isinstance(b, C):
            allowed &= self._transitive(ka, kb)
        # facts against other constants
        for x, y, kx, cy, flip in ((a, b, ka, b, False), (b, a, kb, a, True)):
            if not isinstance(cy, C) or isinstance(x, C):
                continue
            for (kk, o), s in list(self.cmpf.items()):
                if kk != kx or o[0] not in ("n", "c"):
                    continue
                other = o[-1]
                try:
                    rel = "<" if other < cy.v else (">" if other > cy.v else "=")
                except TypeError:
                    continue
                res = set()
                for q in s:           # x q other, other rel cy
                    if q == "=":
                        res.add(rel)
                    elif rel == "=":
                        res.add(q)
                    elif q == rel:
                        res.add(q)
                    else:
                        res |= {"<", "=", ">"}
                allowed &= {self.FLIP[z] for z in res} if flip else res
        return allowed

    @staticmethod
    def _compose(s, t):
        for lo in ("<", ">"):
            if (s | t) <= {lo, "="}:
                r = set()
                if "=" in s and "=" in t:
                    r.add("=")
                if lo in s or lo in t:
                    r.add(lo)
                return r
        return None

    def _transitive(self, ka, kb):
        """orderings of (ka, kb) compatible with the chains of recorded facts"""
        allowed = {"<", "=", ">"}
        best = {ka: [{"="}]}
        todo = [(ka, {"="})]
        steps = 0
        while todo and steps < 200:
            steps += 1
            k, s = todo.pop()
            for (x, y), t in self.cmpf.items():
                if x != k or y == ka:
                    continue
                r = self._compose(s, t)
                if not r:
                    continue
                if y == kb:
                    allowed &= r
                    continue
                if any(q <= r for q in best.get(y, ())):
                    continue
                best.setdefault(y, []).append(r)
                todo.append((y, r))
        return allowed

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b, node=None):
        if op in ("is", "is not"):
            r = self.identical(a, b)
            return cbool(r if op == "is" else not r)
        if op in ("in", "not in"):
            r = self.contains(b, a, node)
            return cbool(r if op == "in" else not r)
        if op in ("==", "!="):
            r = self.equal(a, b, node)
            return cbool(r if op == "==" else not r)
        ta, tb = self.tname(a), self.tname(b)
        if ta is not None and tb is not None:
            ok = (ta in NUMERIC and tb in NUMERIC) or (ta == tb and ta not in ("NoneType", "dict", "function", "type")) \
                and not isinstance(self.type_of(a), ClassV)
            if isinstance(self.type_of(a), ClassV):
                ok = True
            if not ok:
                self.raise_("TypeError", "'%s' not supported between %s and %s" % (op, ta, tb), node)
        elif "NoneType" in (ta, tb):
            self.raise_("TypeError", "'%s' with None" % op, node)
        if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)):
            if all(isinstance(x, C) for x in a.items + b.items) and not getattr(a, "open", 0) and not getattr(b, "open", 0):
                x, y = [i.v for i in a.items], [i.v for i in b.items]
                try:
                    return cbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
                except TypeError:
                    self.raise_("TypeError", "compare", node)
        try:
            return cbool(self.decide(op, a, b))
        except TypeError:
            self.raise_("TypeError", "compare", node)

    def identical(self, a, b):
        if isinstance(a, C) and a.v is None:
            return self.is_none(b)
        if isinstance(b, C) and b.v is None:
            return self.is_none(a)
        if isinstance(a, C) and isinstance(b, C):
            if isinstance(a.v, bool) or isinstance(b.v, bool) or type(a.v) != type(b.v):
                return a.v is b.v
            return a.v == b.v
        if isinstance(a, (TypeV, ClassV, ExtV)) and isinstance(b, (TypeV, ClassV, ExtV)):
            return same_type(a, b)
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == "type" and isinstance(y, (TypeV, ClassV)) and len(x.args) == 1:
                n = type_name(y)
                if not self.isinstance_(x.args[0], y):
                    return False
                if isinstance(y, TypeV) and n not in ("int", "object", "datetime.date", "dict", "list"):
                    return True
                if same_type(self.type_of(x.args[0]) or y, y):
                    return self._memo_choice(self.inf, ("exact", key_of(x), n), "type(%r) is %s" % (x.args[0], n))
                return False
        ka, kb = key_of(a), key_of(b)
        if ka == kb and isinstance(a, (Opaque, Term)):
            return True
        if not isinstance(a, (Opaque, Term)) and not isinstance(b, (Opaque, Term)):
            return ka == kb
        ta, tb = self.tname(a), self.tname(b)
        if ta is not None and tb is not None and ta != tb:
            return False
        if (isinstance(a, C) and isinstance(a.v, bool)) or (isinstance(b, C) and isinstance(b.v, bool)) \
                or ta == "bool":
            return self.equal(a, b)
        if ta is not None and ta == tb:
            if not self.equal(a, b):
                return False
            return self._memo_choice(self.inf, ("is",) + tuple(sorted((ka, kb), key=repr)), "%r is %r" % (a, b))
        return self._memo_choice(self.inf, ("is",) + tuple(sorted((ka, kb), key=repr)), "%r is %r" % (a, b))

    def equal(self, a, b, node=None):
        if isinstance(a, C) and isinstance(b, C):
            return a.v == b.v
        if isinstance(a, (TypeV, ClassV, ExtV)) and isinstance(b, (TypeV, ClassV, ExtV)):
            return same_type(a, b)
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == "type" and isinstance(y, (TypeV, ClassV)) and len(x.args) == 1:
                n = type_name(y)
                if not self.isinstance_(x.args[0], y):
                    return False
                if isinstance(y, TypeV) and n not in ("int", "object", "datetime.date", "dict", "list"):
                    return True
                if same_type(self.type_of(x.args[0]) or y, y):
                    return self._memo_choice(self.inf, ("exact", key_of(x), n), "type(%r) is %s" % (x.args[0], n))
                return False
        if isinstance(a, Inst) and isinstance(a.cls, ClassV):
            f = self.class_lookup(a.cls, "__eq__")
            if isinstance(f, FuncV) and not f.module.lazy:
                return self.truth(self.call(BoundV(f, a), [b], {}, node))
        if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)):
            if isinstance(a, TupleV) != isinstance(b, TupleV) or isinstance(a, SetV) != isinstance(b, SetV):
                return False
            if not getattr(a, "open", False) and not getattr(b, "open", False):
                if len(a.items) != len(b.items):
                    return False
                if isinstance(a, SetV):
                    return all(any(self.equal(x, y) for y in b.items) for x in a.items)
                return all(self.equal(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, DictV) and isinstance(b, DictV) and not a.open and not b.open:
            if set(a.d) != set(b.d):
                return False
            return all(self.equal(a.d[k][1], b.d[k][1]) for k in a.d)
        ta, tb = self.tname(a), self.tname(b)
        if ta is not None and tb is not None and ta != tb:
            if ta in NUMERIC and tb in NUMERIC:
                return self.decide("==", a, b)
            ca, cb = self.type_of(a), self.type_of(b)
            if is_subtype(ca, cb) is False and is_subtype(cb, ca) is False:
                return False
            if ta in DATES and tb in DATES:
                return False
        if isinstance(a, (Inst, FuncV, BoundV, ModuleV)) and isinstance(b, (Inst, FuncV, BoundV, ModuleV, C)):
            return key_of(a) == key_of(b)
        if ta == "NoneType" and tb is None:
            return self.is_none(b)
        if tb == "NoneType" and ta is None:
            return self.is_none(a)
        return self.decide("==", a, b)

    def contains(self, cont, x, node=None):
        if isinstance(cont, C):
            if isinstance(cont.v, str):
                if isinstance(x, C):
                    if not isinstance(x.v, str):
                        self.raise_("TypeError", "in <string>", node)
                    return x.v in cont.v
                return self._memo_choice(self.inf, ("in", key_of(x), key_of(cont)), "%r in %r" % (x, cont))
            self.raise_("TypeError", "argument of type %s is not iterable" % type(cont.v).__name__, node)
        if isinstance(cont, TupleV):
            return any(self.equal(x, i) for i in cont.items)
        if isinstance(cont, ListV):
            if any(self.equal(x, i) for i in cont.items):
                return True
            if cont.open:
                k = ("in", key_of(x), id(cont))
                return self._memo_choice(self.inf, k, "%r in %s" % (x, cont.name))
            return False
        if isinstance(cont, DictV):
            return self.dict_has(cont, x)
        if isinstance(cont, Inst) and isinstance(cont.cls, ClassV):
            f = self.class_lookup(cont.cls, "__contains__")
            if isinstance(f, FuncV) and (not f.module.lazy):
                return self.truth(self.call(BoundV(f, cont), [x], {}, node))
            for base in cont.cls.mro():
                if type_name(base) == "dict":
                    return self.dict_has(self._inst_dict(cont), x)
        if isinstance(cont, GenV):
            return any(self.equal(x, i) for i in cont.items)
        t = self.tname(cont)
        if t in ("int", "float", "NoneType", "bool"):
            self.raise_("TypeError", "argument of type %s is not iterable" % t, node)
        if t == "str" and self.tname(x) not in (None, "str"):
            self.raise_("TypeError", "in <string>", node)
        return self._memo_choice(self.inf, ("in", key_of(x), key_of(cont)), "%r in %r" % (x, cont))

    # ------------------------------------------------------------ containers
    def _elem(self, lst, i):
        if lst.elem is not None:
            return lst.elem(self, i)
        return self.fresh("%s[%d]" % (lst.name, i))

    def iterate(self, v, node=None):
        if isinstance(v, (TupleV,)):
            return list(v.items)
        if isinstance(v, ListV):
            if v.open:
                self.mut(v)
                n = self.choose(self.loop_bound + 1, "extra elements of %s" % v.name)
                if n == self.loop_bound:
                    self.cut = True
                base = len(v.items)
                for i in range(n):
                    v.items.append(self._elem(v, base + i))
                v.open = False
            return list(v.items)
        if isinstance(v, GenV):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, DictV):
            return [k for k, _ in self.dict_items(v)]
        if isinstance(v, C):
            if isinstance(v.v, str):
                return [C(c) for c in v.v]
            if isinstance(v.v, bytes):
                return [C(c) for c in v.v]
            self.raise_("TypeError", "%s is not iterable" % type(v.v).__name__, node)
        if isinstance(v, Inst) and isinstance(v.cls, ClassV):
            f = self.class_lookup(v.cls, "__iter__")
            if isinstance(f, FuncV) and not f.module.lazy:
                return self.iterate(self.call(BoundV(f, v), [], {}, node), node)
            if any(type_name(b) == "dict" for b in v.cls.mro()):
                return self.iterate(self._inst_dict(v))
        t = self.tname(v)
        if t in ("int", "float", "NoneType", "bool", "function", "decimal.Decimal") or t in DATES:
            self.raise_("TypeError", "%s is not iterable" % t, node)
        k = ("iter", key_of(v))
        if k not in self.inf:
            n = self.choose(self.loop_bound + 1, "elements of %r" % (v,))
            if n == self.loop_bound:
                self.cut = True
            self.inf[k] = [self.fresh("%r[%d]" % (v, i), "str" if t == "str" else None) for i in range(n)]
        return list(self.inf[k])

    def dict_items(self, d):
        if d.open:
            self.mut(d)
            n = self.choose(2, "extra entries of %s" % d.name)
            for i in range(n):
                k = self.fresh("%s.key%d" % (d.name, i), "str")
                d.d[key_of(k)] = (k, self._delem(d, k))
            d.open = False
        return list(d.d.values())

    def _delem(self, d, k):
        if d.elem is not None:
            return d.elem(self, k)
        return self.fresh("%s[%s]" % (d.name, k.v if isinstance(k, C) else repr(k)))

    def dict_has(self, d, k, node=None):
        if isinstance(k, (ListV, DictV)):
            self.raise_("TypeError", "unhashable type", node)
        kk = key_of(k)
        if kk in d.d:
            return True
        if not isinstance(k, C) or any(not isinstance(x, C) for x, _ in d.d.values()):
            for kx, (x, _) in list(d.d.items()):
                if isinstance(x, C) and isinstance(k, C):
                    continue
                if self.equal(x, k):
                    return True
        if not d.open or kk in d.absent:
            return False
        if self.choose(2, "%r in %s" % (k, d.name)):
            self.mut(d)
            d.d[kk] = (k, self._delem(d, k))
            return True
        self.mut(d)
        d.absent.add(kk)
        return False

    def dict_get(self, d, k, node=None):
        """value or None if absent"""
        if not self.dict_has(d, k, node):
            return None
        kk = key_of(k)
        if kk in d.d:
            return d.d[kk][1]
        for x, v in d.d.values():
            if self.cmpf.get((key_of(x), kk)) == {"="} or self.equal(x, k):
                return v
        return None

    def dict_set(self, d, k, v, node=None):
        if isinstance(k, (ListV, DictV)):
            self.raise_("TypeError", "unhashable type", node)
        self.mut(d)
        kk = key_of(k)
        d.absent.discard(kk)
        if kk not in d.d and (not isinstance(k, C) or any(not isinstance(x, C) for x, _ in d.d.values())):
            for kx, (x, _) in list(d.d.items()):
                if isinstance(x, C) and isinstance(k, C):
                    continue
                if self.equal(x, k):
                    d.d[kx] = (x, v)
                    return
        d.d[kk] = (d.d[kk][0] if kk in d.d else k, v)

    def _inst_dict(self, inst):
        if "__dict_data__" not in inst.attrs:
            self.mut(inst)
            inst.attrs["__dict_data__"] = DictV()
        return inst.attrs["__dict_data__"]

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        if not isinstance(cls, ClassV):
            return None
        for c in cls.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name]
        return None

    def class_has_unknown_base(self, cls):
        for c in cls.mro():
            if not isinstance(c, ClassV) and type_name(c) not in ("object", "dict", "Exception", "list"):
                return True
        return False

    def bind(self, f, inst, cls):
        if isinstance(f, PropV):
            if inst is None:
                return f
            return self.call(f.fget, [inst], {}, None)
        if isinstance(f, StaticV):
            return f.func
        if isinstance(f, ClsMethV):
            return BoundV(f.func, cls)
        if isinstance(f, (FuncV, PyV)) and inst is not None:
            return BoundV(f, inst)
        return f

    def getattr(self, v, name, node=None):
        if isinstance(v, ModuleV):
            return self.module_attr(v, name, node)
        if isinstance(v, ExtV):
            return self.ext(v.name + "." + name)
        if isinstance(v, Inst):
            if (type_name(v.cls), name) in self.attr_models:
                return self.attr_models[(type_name(v.cls), name)](self, v)
            if isinstance(v.cls, ClassV):
                f = self.class_lookup(v.cls, name)
                if isinstance(f, PropV):
                    return self.bind(f, v, v.cls)
            if name in v.attrs:
                return v.attrs[name]
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                return DictV([(C(k), x) for k, x in v.attrs.items()])
            if isinstance(v.cls, ClassV):
                if f is not None:
                    return self.bind(f, v, v.cls)
                for c in v.cls.mro():
                    if (type_name(c), name) in self.attr_models:
                        return self.attr_models[(type_name(c), name)](self, v)
                for c in v.cls.mro():
                    if type_name(c) == "dict" and hasattr(dict, name):
                        return BMethV(self._inst_dict(v), name)
                g = self.class_lookup(v.cls, "__getattr__")
                if isinstance(g, FuncV) and not g.module.lazy:
                    return self.call(BoundV(g, v), [C(name)], {}, node)
                if v.lazy or self.class_has_unknown_base(v.cls):
                    return self._lazy_attr(v, name)
            elif py_type(v.cls) is not None and issubclass(py_type(v.cls), BaseException):
                if name == "args":
                    return TupleV([])
                return Term("attr", (v, name))
            else:
                return self._lazy_attr(v, name)
            self.event("noattr", type_name(v.cls), name, node)
            self.raise_("AttributeError", "%s has no attribute %s" % (type_name(v.cls), name), node)
        if isinstance(v, ClassV):
            if name == "__name__":
                return C(v.name)
            if name == "__class__":
                return TypeV("type")
            f = self.class_lookup(v, name)
            if f is not None:
                return self.bind(f, None, v)
            if v.lazy if hasattr(v, "lazy") else False:
                return Term("attr", (v, name))
            if self.class_has_unknown_base(v) or name in ("__mro__", "__module__", "__bases__", "__dict__", "__init__"):
                return Term("attr", (v, name))
            self.event("noattr", v.qual, name, node)
            self.raise_("AttributeError", "class %s has no attribute %s" % (v.qual, name), node)
        if isinstance(v, SuperV):
            mro = (v.obj.cls if isinstance(v.obj, Inst) else v.obj).mro()
            i = [k for k, c in enumerate(mro) if same_type(c, v.cls)]
            for c in mro[(i[0] + 1 if i else 0):]:
                if isinstance(c, ClassV):
                    if name in c.attrs:
                        return self.bind(c.attrs[name], v.obj if isinstance(v.obj, Inst) else None, v.obj)
                elif type_name(c) == "dict":
                    return BMethV(self._inst_dict(v.obj), name)
            return PyV(lambda it, a, k, n: NONE, "object.%s" % name)
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name == "__name__":
                return C(v.node.name if hasattr(v.node, "name") else "<lambda>")
            if name == "__code__":
                return self._code(v)
            if name == "__defaults__":
                return TupleV(v.defaults) if v.defaults else NONE
            if name == "__kwdefaults__":
                return DictV([(C(k), x) for k, x in v.kwdefaults.items()]) if v.kwdefaults else NONE
            if name in ("__doc__", "__module__", "__dict__", "__wrapped__"):
                return Term("attr", (v, name))
            self.raise_("AttributeError", "function has no attribute %s" % name, node)
        if isinstance(v, BoundV):
            if name == "__self__":
                return v.self
            if name == "__func__":
                return v.func
            return self.getattr(v.func, name, node)
        if isinstance(v, TypeV):
            if name == "__name__":
                return C(v.name.split(".")[-1])
            return self.ext(v.name + "." + name) if v.name in PYTYPES else ExtV(v.name + "." + name)
        if name == "__class__":
            t = self.type_of(v)
            return t if t is not None else Term("type", (v,))
        t = self.type_of(v)
        if isinstance(t, ClassV) and isinstance(v, (Opaque, Term)):
            inst = self.as_inst(v, t)
            return self.getattr(inst, name, node)
        pt = py_type(t) if t is not None and not isinstance(t, ClassV) else None
        if pt is not None and type_name(t) in PYTYPES:
            if isinstance(v, ListV) and v.name == "deque" and hasattr(collections.deque, name):
                return BMethV(v, name)
            if not hasattr(pt, name):
                self.event("noattr", type_name(t), name, node)
                self.raise_("AttributeError", "%s object has no attribute %s" % (type_name(t), name), node)
            if isinstance(v, (Opaque, Term)) and not callable(getattr(pt, name)):
                return Term("attr", (v, name), "int" if type_name(t).startswith("datetime.") and name in (
                    "year", "month", "day", "hour", "minute", "second", "microsecond", "days", "seconds") else None)
            return BMethV(v, name)
        if isinstance(v, GenV):
            return BMethV(v, name)
        if isinstance(v, (Opaque, Term)):
            return Term("attr", (v, name))
        if isinstance(v, (BMethV, BuiltinV, PyV)):
            return Term("attr", (v, name))
        self.raise_("AttributeError", "%r has no attribute %s" % (v, name), node)

    def _code(self, f):
        a = f.node.args
        argc = len(a.posonlyargs) + len(a.args)
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        names += [x for x in sorted(local_names(f.node)) if x not in names]
        flags = 0
        if is_generator(f.node):
            flags |= 0x20
        if a.vararg:
            flags |= 4
        return Inst(TypeV("code"), {"co_argcount": C(argc), "co_varnames": TupleV([C(n) for n in names]),
                                    "co_flags": C(flags)})

    def as_inst(self, v, cls):
        k = ("inst", key_of(v))
        if k not in self.memo_attr:
            self.memo_attr[k] = Inst(cls, {}, lazy=True, name=repr(v), id=getattr(v, "id", 0))
        inst = self.memo_attr[k]
        if not same_type(inst.cls, cls):
            inst.cls = cls
        return inst

    def _lazy_attr(self, v, name):
        k = ("attr", id(v), name)
        if k not in self.memo_attr:
            self.memo_attr[k] = self.fresh("%s.%s" % (v.name or type_name(v.cls).split(".")[-1], name))
            self.memo_attr[("keep", id(v))] = v
        return self.memo_attr[k]

    def setattr(self, v, name, val, node=None):
        if isinstance(v, Inst):
            if isinstance(v.cls, ClassV):
                p = self.class_lookup(v.cls, name)
                if isinstance(p, PropV) and p.fset is not None:
                    self.call(p.fset, [v, val], {}, node)
                    return
            self.mut(v)
            v.attrs[name] = val
            self.event("setattr", v, name, val)
        elif isinstance(v, ClassV):
            self.mut(v)
            v.attrs[name] = val
            self.event("setattr", v, name, val)
        elif isinstance(v, ModuleV):
            self.mut(v.env)
            v.env.vars[name] = val
            self.event("setattr", v, name, val)
        elif isinstance(v, FuncV):
            v.attrs[name] = val
        elif isinstance(v, (Opaque, Term)):
            t = self.type_of(v)
            if isinstance(t, ClassV):
                return self.setattr(self.as_inst(v, t), name, val, node)
            if t is not None and type_name(t) in PYTYPES:
                self.raise_("AttributeError", "cannot set %s" % name, node)
            self.event("setattr", v, name, val)
        elif isinstance(v, (ExtV, TypeV)):
            self.event("setattr", v, name, val)
        else:
            self.raise_("AttributeError", "cannot set %s on %r" % (name, v), node)

    # ------------------------------------------------------------ subscripts
    def getitem(self, v, i, node=None):
        if isinstance(v, Inst):
            f = self.class_lookup(v.cls, "__getitem__")
            if isinstance(f, FuncV) and (not f.module.lazy or self._inlinable(f)):
                return self.call(BoundV(f, v), [i], {}, node)
            if isinstance(v.cls, ClassV) and any(type_name(b) == "dict" for b in v.cls.mro()):
                return self.getitem(self._inst_dict(v), i, node)
            if isinstance(v.cls, ClassV) and not v.lazy and not self.class_has_unknown_base(v.cls) and f is None:
                self.raise_("TypeError", "%s is not subscriptable" % type_name(v.cls), node)
            return self._lazy_attr(v, "[%r]" % (i,))
        if isinstance(v, DictV):
            r = self.dict_get(v, i, node)
            if r is None and v.factory is not None:
                r = self.call(v.factory, [], {}, node)
                self.setitem(v, i, r, node)
            if r is None:
                self.raise_("KeyError", repr(i), node)
            return r
        if isinstance(v, (TupleV, ListV)) and not isinstance(v, SetV):
            if isinstance(i, C):
                if isinstance(i.v, bool) or not isinstance(i.v, int):
                    if not isinstance(i.v, bool):
                        self.raise_("TypeError", "list indices must be integers", node)
                n = i.v
                if isinstance(v, ListV) and v.open:
                    if n < 0:
                        if len(v.items) == 0 and not self.truth(v):
                            self.raise_("IndexError", "", node)
                        return Term("item", (self._as_term(v), i))
                    while len(v.items) <= n:
                        if self.choose(2, "%s has element %d" % (v.name, len(v.items))):
                            self.mut(v)
                            v.items.append(self._elem(v, len(v.items)))
                        else:
                            self.mut(v)
                            v.open = False
                            self.raise_("IndexError", "", node)
                    return v.items[n]
                if -len(v.items) <= n < len(v.items):
                    return v.items[n]
                self.raise_("IndexError", "list index out of range", node)
            if isinstance(i, SliceV):
                if isinstance(v, TupleV) or not v.open:
                    if all(isinstance(x, C) for x in (i.lo, i.hi, i.step)):
                        try:
                            r = v.items[slice(i.lo.v, i.hi.v, i.step.v)]
                        except TypeError:
                            self.raise_("TypeError", "slice", node)
                        return TupleV(r) if isinstance(v, TupleV) else ListV(r)
                    r = ListV(open=True, name="slice")
                    return r
                if isinstance(i.lo, C) and isinstance(i.lo.v, int) and i.hi.v is None if isinstance(i.hi, C) else False:
                    while len(v.items) < i.lo.v and v.open:
                        if self.choose(2, "%s has element %d" % (v.name, len(v.items))):
                            self.mut(v)
                            v.items.append(self._elem(v, len(v.items)))
                        else:
                            self.mut(v)
                            v.open = False
                    return ListV(v.items[i.lo.v:], v.open, v.name + "[%d:]" % i.lo.v, v.elem)
                return ListV(open=True, name=v.name + "[:]")
            t = self.tname(i)
            if t is not None and t not in ("int", "bool"):
                self.raise_("TypeError", "list indices must be integers", node)
            if isinstance(v, TupleV) or not v.open:
                if not v.items:
                    self.raise_("IndexError", "", node)
                # in range or not?
                lo, hi = -len(v.items), len(v.items)
                if not self.decide("<", i, C(hi)) or not self.decide(">=", i, C(lo)):
                    self.raise_("IndexError", "", node)
                for n in range(lo, hi):
                    if self.decide("==", i, C(n)):
                        return v.items[n]
                return self.prune()
            return Term("item", (self._as_term(v), i))
        if isinstance(v, C):
            if isinstance(v.v, (str, bytes)):
                if isinstance(i, C):
                    try:
                        return C(v.v[i.v])
                    except IndexError:
                        self.raise_("IndexError", "", node)
                    except TypeError:
                        self.raise_("TypeError", "", node)
                if isinstance(i, SliceV):
                    if all(isinstance(x, C) for x in (i.lo, i.hi, i.step)):
                        try:
                            return C(v.v[slice(i.lo.v, i.hi.v, i.step.v)])
                        except TypeError:
                            self.raise_("TypeError", "", node)
                    return Term("slice", (v, i.lo, i.hi, i.step), "str")
                return Term("item", (v, i), "str")
            self.raise_("TypeError", "%s is not subscriptable" % type(v.v).__name__, node)
        t = self.tname(v)
        if t in ("NoneType", "int", "float", "bool", "decimal.Decimal", "function", "datetime.datetime", "datetime.date",
                 "datetime.time", "set"):
            self.raise_("TypeError", "%s is not subscriptable" % t, node)
        ty = self.type_of(v)
        if isinstance(ty, ClassV) and isinstance(v, (Opaque, Term)):
            return self.getitem(self.as_inst(v, ty), i, node)
        if isinstance(i, SliceV):
            for x in (i.lo, i.hi, i.step):
                xt = self.tname(x)
                if xt is not None and xt not in ("int", "NoneType", "bool"):
                    self.raise_("TypeError", "slice indices must be integers", node)
            return Term("slice", (v, i.lo, i.hi, i.step), t)
        if t == "str":
            it_ = self.tname(i)
            if it_ is not None and it_ not in ("int", "bool"):
                self.raise_("TypeError", "string indices must be integers", node)
            if isinstance(i, C) and isinstance(i.v, int):
                # s[i] exists iff long enough
                n = i.v + 1 if i.v >= 0 else -i.v
                if self.decide("<", Term("len", (v,), "int"), C(n)):
                    self.raise_("IndexError", "", node)
            elif self._memo_choice(self.inf, ("oob", key_of(v), key_of(i)), "%r out of range of %r" % (i, v)):
                self.raise_("IndexError", "", node)
            return Term("item", (v, i), "str")
        if t == "dict" and isinstance(v, (Opaque, Term)):
            return self.getitem(self.as_dict(v), i, node)
        if t == "list" and isinstance(v, (Opaque, Term)):
            return self.getitem(self.as_list(v), i, node)
        if isinstance(v, (TypeV, ClassV, ExtV)):
            return v
        return Term("item", (v, i))

    def _as_term(self, v):
        return Term("list", (str(id(v)),))

    def as_dict(self, v):
        k = ("asdict", key_of(v))
        if k not in self.memo_attr:
            self.memo_attr[k] = DictV(open=True, name=repr(v))
        return self.memo_attr[k]

    def as_list(self, v):
        k = ("aslist", key_of(v))
        if k not in self.memo_attr:
            self.memo_attr[k] = ListV(open=True, name=repr(v))
        return self.memo_attr[k]

    def setitem(self, v, i, val, node=None):
        if isinstance(v, Inst):
            f = self.class_lookup(v.cls, "__setitem__")
            if isinstance(f, FuncV) and not f.module.lazy:
                self.call(BoundV(f, v), [i, val], {}, node)
                return
            if isinstance(v.cls, ClassV) and any(type_name(b) == "dict" for b in v.cls.mro()):
                self.dict_set(self._inst_dict(v), i, val, node)
                self.event("setitem", v, i, val)
                return
            self.event("setitem", v, i, val)
            return
        if isinstance(v, DictV):
            self.dict_set(v, i, val, node)
            self.event("setitem", v, i, val)
            return
        if isinstance(v, ListV) and not isinstance(v, SetV):
            if isinstance(i, C) and isinstance(i.v, int):
                if -len(v.items) <= i.v < len(v.items):
                    self.mut(v)
                    v.items[i.v] = val
                    self.event("setitem", v, i, val)
                    return
                if v.open:
                    self.event("setitem", v, i, val)
                    return
                self.raise_("IndexError", "", node)
            self.event("setitem", v, i, val)
            return
        t = self.tname(v)
        if isinstance(v, TupleV) or isinstance(v, C) or t in ("NoneType", "int", "float", "str", "bool", "tuple"):
            self.raise_("TypeError", "%s does not support item assignment" % t, node)
        if t == "dict":
            return self.setitem(self.as_dict(v), i, val, node)
        if t == "list":
            return self.setitem(self.as_list(v), i, val, node)
        self.event("setitem", v, i, val)

    def delitem(self, v, i, node=None):
        if isinstance(v, Inst) and isinstance(v.cls, ClassV):
            f = self.class_lookup(v.cls, "__delitem__")
            if isinstance(f, FuncV) and not f.module.lazy:
                self.call(BoundV(f, v), [i], {}, node)
                return
            if any(type_name(b) == "dict" for b in v.cls.mro()):
                v = self._inst_dict(v)
        if isinstance(v, DictV):
            if not self.dict_has(v, i, node):
                self.raise_("KeyError", "", node)
            self.mut(v)
            kk = key_of(i)
            if kk in v.d:
                del v.d[kk]
            v.absent.add(kk)
            self.event("delitem", v, i)
            return
        if isinstance(v, ListV):
            if isinstance(i, C) and isinstance(i.v, int):
                if -len(v.items) <= i.v < len(v.items):
                    self.mut(v)
                    del v.items[i.v]
                elif not v.open:
                    self.raise_("IndexError", "", node)
            self.event("delitem", v, i)
            return
        t = self.tname(v)
        if t in ("NoneType", "int", "float", "str", "bool", "tuple"):
            self.raise_("TypeError", "no item deletion", node)
        self.event("delitem", v, i)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, node=None):
        if isinstance(a, C) and isinstance(b, C):
            try:
                return C(_BIN[op](a.v, b.v))
            except Exception as e:   # constant folding of a failing operation
                self.raise_(type(e).__name__, str(e), node)
        ta, tb = self.tname(a), self.tname(b)
        if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)) and op == "+":
            if isinstance(a, TupleV) != isinstance(b, TupleV) or isinstance(a, SetV) or isinstance(b, SetV):
                self.raise_("TypeError", "concatenate", node)
            if isinstance(a, TupleV):
                return TupleV(a.items + b.items)
            return ListV(a.items + b.items, a.open or b.open, "%s+%s" % (a.name, b.name))
        if isinstance(a, SetV) and isinstance(b, SetV) and op in ("|", "&", "-", "^"):
            if op == "|" and not a.open and not b.open:
                out = list(a.items)
                for x in b.items:
                    if not any(self.equal(x, y) for y in out):
                        out.append(x)
                return SetV(out)
            return SetV(open=True)
        if isinstance(a, ListV) and op == "*" and tb in ("int", None):
            if isinstance(b, C):
                return ListV(a.items * b.v, a.open)
            return ListV(open=True)
        if op == "%" and ta == "str":
            return Term("strfmt", (a, b), "str")
        if isinstance(a, Inst) and isinstance(a.cls, ClassV):
            nm = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "|": "__or__", "&": "__and__"}.get(op)
            f = self.class_lookup(a.cls, nm) if nm else None
            if isinstance(f, FuncV) and not f.module.lazy:
                return self.call(BoundV(f, a), [b], {}, node)
        res = None
        if ta is not None and tb is not None:
            if ta in NUMERIC and tb in NUMERIC:
                if op in ("&", "|", "^", "<<", ">>"):
                    if ta not in ("int", "bool") or tb not in ("int", "bool"):
                        self.raise_("TypeError", "unsupported operand", node)
                    res = "int"
                elif {ta, tb} == {"float", "decimal.Decimal"}:
                    self.raise_("TypeError", "unsupported operand types float and Decimal", node)
                elif "decimal.Decimal" in (ta, tb):
                    res = "decimal.Decimal"
                elif "float" in (ta, tb) or op == "/":
                    res = "float"
                else:
                    res = "int"
                if op in ("<<", ">>") and self.decide("<", b, C(0)):
                    self.raise_("ValueError", "negative shift count", node)
                if op in ("/", "%", "//") and self.decide("==", b, C(0)):
                    self.raise_("ZeroDivisionError", "division by zero", node)
            elif ta == "str" and tb == "str" and op == "+":
                res = "str"
            elif ta == "bytes" and tb == "bytes" and op == "+":
                res = "bytes"
            elif op == "*" and {ta, tb} & {"str", "bytes", "list", "tuple"} and {ta, tb} & {"int", "bool"}:
                res = ta if ta not in ("int", "bool") else tb
            elif ta in ("list", "tuple") and ta == tb and op == "+":
                res = ta
            elif ta == tb == "set" and op in ("|", "&", "-", "^"):
                res = "set"
            elif ta == tb == "dict" and op == "|":
                res = "dict"
            elif ta in DATES and tb == ta and op == "-":
                res = "datetime.timedelta"
            elif ta in DATES and tb == "datetime.timedelta" and op in ("+", "-"):
                res = ta
            elif ta == "datetime.timedelta" and tb in DATES and op == "+":
                res = tb
            elif ta == tb == "datetime.timedelta" and op in ("+", "-"):
                res = ta
            elif ta == "datetime.timedelta" and tb in ("int", "float") and op in ("*", "/"):
                res = ta
            elif isinstance(self.type_of(a), ClassV) or isinstance(self.type_of(b), ClassV) or \
                    ta not in PYTYPES or tb not in PYTYPES:
                res = None
            else:
                self.raise_("TypeError", "unsupported operand types for %s: %s and %s" % (op, ta, tb), node)
        elif "NoneType" in (ta, tb):
            self.raise_("TypeError", "unsupported operand None for %s" % op, node)
        elif op == "+" and "str" in (ta, tb):
            res = "str"
        elif op in ("+",) and isinstance(a, ListV) or isinstance(b, ListV) and op == "+":
            items = (a.items if isinstance(a, ListV) else []) + (b.items if isinstance(b, ListV) else [])
            return ListV(items, True, "concat")
        elif op == "/" and "float" in (ta, tb):
            res = "float"
        return Term(op, (a, b), res)

    def unop(self, op, a, node=None):
        if op == "not":
            return cbool(not self.truth(a, node))
        if isinstance(a, C):
            try:
                return C({"-": lambda x: -x, "+": lambda x: +x, "~": lambda x: ~x}[op](a.v))
            except TypeError as e:
                self.raise_("TypeError", str(e), node)
        t = self.tname(a)
        if t is not None and t not in NUMERIC and not (t == "datetime.timedelta" and op == "-"):
            self.raise_("TypeError", "bad operand for unary %s" % op, node)
        if op == "~" and t in ("float", "decimal.Decimal"):
            self.raise_("TypeError", "bad operand for unary ~", node)
        return Term("u" + op, (a,), "int" if t == "bool" else t)

    # ------------------------------------------------------------ calls
    def qual_of(self, f):
        if isinstance(f, FuncV):
            return f.qual
        if isinstance(f, (ExtV, TypeV, BuiltinV)):
            return f.name
        if isinstance(f, ClassV):
            return f.qual
        return None

    def _inlinable(self, f):
        return any(f.qual == p or f.qual.startswith(p + ".") for p in self.inline_lib)

    def call(self, f, args, kwargs, node=None):
        self.stats["calls"] += 1
        if isinstance(f, BoundV):
            if isinstance(f.func, (FuncV, PyV, BuiltinV, ExtV, TypeV, ClassV)):
                return self.call(f.func, [f.self] + list(args), kwargs, node)
            return self.call(f.func, args, kwargs, node)
        q = self.qual_of(f)
        if q is not None and q in self.models:
            return self.models[q](self, args, kwargs, node)
        if isinstance(f, PyV):
            return f.fn(self, args, kwargs, node)
        if isinstance(f, FuncV):
            if f.module.lazy and not self._inlinable(f):
                self.event("libcall", f.qual, args, kwargs)
                return Term("call", (f.qual,) + tuple(args) + tuple(kwargs.values()))
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, TypeV):
            return self.call_type(f, args, kwargs, node)
        if isinstance(f, BuiltinV):
            return self.call_builtin(f.name, args, kwargs, node)
        if isinstance(f, BMethV):
            return self.call_method(f.recv, f.name, args, kwargs, node)
        if isinstance(f, Inst):
            c = self.class_lookup(f.cls, "__call__")
            if c is not None:
                return self.call(BoundV(c, f), args, kwargs, node)
            if isinstance(f.cls, ClassV) and not f.lazy and not self.class_has_unknown_base(f.cls):
                self.raise_("TypeError", "not callable", node)
            return Term("call", (f,) + tuple(args))
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kwargs, node)
        if isinstance(f, Term) and f.op == "attr" and isinstance(f.args[1], str):
            m = self.method_models.get(f.args[1])
            if m is not None:
                return m(self, [f.args[0]] + list(args), kwargs, node)
            self.event("mcall", f.args[0], f.args[1], args, kwargs)
            self._maybe_raise("." + f.args[1], args, node)
            return Term("mcall", (f.args[0], f.args[1]) + tuple(args) + tuple(kwargs.values()))
        if isinstance(f, SuperV):
            return NONE
        if isinstance(f, C) or isinstance(f, (DictV, ListV, TupleV)):
            self.raise_("TypeError", "%r is not callable" % (f,), node)
        if self.tname(f) in ("NoneType", "int", "str", "float"):
            self.raise_("TypeError", "%s is not callable" % self.tname(f), node)
        m = self.method_models.get(f.name) if isinstance(f, Opaque) else None
        self.event("ucall", f, args, kwargs)
        return Term("call", (f,) + tuple(args) + tuple(kwargs.values()))

    def _maybe_raise(self, dotted, args, node):
        if self.ext_may_raise is not None:
            names = self.ext_may_raise(self, dotted, args)
            if names:
                k = self.choose(len(names) + 1, "%s raises" % dotted)
                if k:
                    self.raise_(names[k - 1], dotted, node)

    def call_func(self, f, args, kwargs, node=None):
        self.stats["functions"].add(f.qual)
        if self.depth > self.max_depth:
            self.cut = True
            raise Pruned("recursion bound")
        env = Env(f.module, f.env)
        env.func = f
        env.locals_ = local_names(f.node) if not isinstance(f.node, ast.Lambda) else ()
        self.bind_args(f, args, kwargs, env, node)
        self.depth += 1
        self.frames.append((f.qual, node))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                if self.gen_lazy:
                    return self.lazy_generator(f, env)
                out, exc = [], None
                env.vars["__yields__"] = out
                try:
                    self.exec_body(f.node.body, env)
                except _Return:
                    pass
                except Raised as r:
                    if not self.gen_delay:
                        raise
                    exc = r
                return GenV(out, exc)
            try:
                self.exec_body(f.node.body, env)
            except _Return as r:
                return r.v
            return NONE
        finally:
            self.depth -= 1
            self.frames.pop()

    def lazy_generator(self, f, env):
        def body(give):
            env.vars["__yields__"] = give
            try:
                self.exec_body(f.node.body, env)
            except _Return:
                pass
        return LazyGen(self, body)

    def bind_args(self, f, args, kwargs, env, node):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        args = list(args)
        kwargs = dict(kwargs)
        open_star = None
        if args and isinstance(args[-1], StarRest):
            open_star = args.pop()
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        extra = args[len(names):]
        if extra and not a.vararg:
            self.event("arity", f.qual, node)
            self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qual, len(names), len(args)), node)
        kwextra = {}
        rest = kwargs.pop("**", None)
        for k, v in kwargs.items():
            if k in [x.arg for x in a.args + a.kwonlyargs]:
                if k in vals:
                    self.event("arity", f.qual, node)
                    self.raise_("TypeError", "%s() got multiple values for %s" % (f.qual, k), node)
                vals[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                self.event("arity", f.qual, node)
                self.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (f.qual, k), node)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if open_star is not None:
                    if j >= 0 and not self.choose(2, "argument %s given" % n):
                        vals[n] = f.defaults[j]
                    else:
                        vals[n] = open_star.next(self)
                elif rest is not None:
                    vals[n] = self.fresh("**%s" % n)
                elif j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    self.event("arity", f.qual, node)
                    self.raise_("TypeError", "%s() missing required argument %s" % (f.qual, n), node)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.event("arity", f.qual, node)
                    self.raise_("TypeError", "missing keyword-only %s" % x.arg, node)
        if a.vararg:
            if open_star is not None:
                vals[a.vararg.arg] = TupleV(extra + open_star.all(self))
            else:
                vals[a.vararg.arg] = TupleV(extra)
        if a.kwarg:
            vals[a.kwarg.arg] = DictV([(C(k), v) for k, v in kwextra.items()], open=rest is not None, name="**" + a.kwarg.arg)
        env.vars.update(vals)

    def instantiate(self, cls, args, kwargs, node=None):
        self.next_id += 1
        inst = Inst(cls, {}, lazy=cls.module.lazy, name="%s#%d" % (cls.name, self.next_id), id=self.next_id)
        self.event("new", cls.qual, inst, args, kwargs)
        new = self.class_lookup(cls, "__new__")
        init = self.class_lookup(cls, "__init__")
        if any(py_type(b) is not None and isinstance(b, TypeV) and issubclass(py_type(b), BaseException) for b in cls.mro()):
            inst.attrs["args"] = TupleV(args)
        if isinstance(init, FuncV):
            if init.module.lazy and not self._inlinable(init):
                if init.qual in self.models:
                    self.models[init.qual](self, [inst] + list(args), kwargs, node)
                else:
                    inst.attrs.setdefault("__args__", TupleV(args))
                    inst.attrs.setdefault("__kwargs__", DictV([(C(k), v) for k, v in kwargs.items()]))
                    inst.lazy = True
            else:
                self.call(BoundV(init, inst), args, kwargs, node)
        elif init is None and any(type_name(b) == "dict" for b in cls.mro()):
            self._inst_dict(inst)
            if args:
                for k, v in self.dict_items(args[0]) if isinstance(args[0], DictV) else []:
                    self.dict_set(self._inst_dict(inst), k, v)
        elif init is None and (args or kwargs) and not self.class_has_unknown_base(cls) and not inst.lazy and \
                "args" not in inst.attrs:
            self.event("arity", cls.qual, node)
            self.raise_("TypeError", "%s() takes no arguments" % cls.qual, node)
        elif self.class_has_unknown_base(cls):
            inst.lazy = True
        return inst

    def call_type(self, t, args, kwargs, node=None):
        n = t.name
        pt = py_type(t)
        if pt is not None and isinstance(pt, type) and issubclass(pt, BaseException):
            return Inst(t, {"args": TupleV(args)}, name=repr(args[0]) if args else "")
        if n == "type" and len(args) == 1:
            ty = self.type_of(args[0])
            return ty if ty is not None else Term("type", (args[0],))
        if n == "object":
            return Inst(t, {}, lazy=True, name="object")
        if n in ("list", "tuple", "set", "frozenset"):
            items = self.iterate(args[0], node) if args else []
            if n == "tuple":
                return TupleV(items)
            if n == "list":
                return ListV(items)
            out = []
            for x in items:
                if isinstance(x, (ListV, DictV)):
                    self.raise_("TypeError", "unhashable", node)
                if not any(self.equal(x, y) for y in out):
                    out.append(x)
            return SetV(out)
        if n == "dict":
            d = DictV()
            if args:
                if isinstance(args[0], DictV):
                    d.d, d.open, d.absent, d.name = dict(args[0].d), args[0].open, set(args[0].absent), args[0].name
                else:
                    for p in self.iterate(args[0], node):
                        pr = self.iterate(p, node)
                        if len(pr) == 2:
                            self.dict_set(d, pr[0], pr[1])
            rest = kwargs.pop("**", None) if kwargs else None
            for k, v in kwargs.items():
                self.dict_set(d, C(k), v)
            if rest is not None:
                d.open = True
            return d
        if n == "bool":
            if not args:
                return FALSE
            return cbool(self.truth(args[0], node))
        if n == "str":
            if not args:
                return C("")
            a = args[0]
            if isinstance(a, C):
                return C(str(a.v))
            if self.tname(a) == "str":
                return a
            if isinstance(a, Inst) and a.cls is not None and isinstance(self.class_lookup(a.cls, "__str__"), FuncV):
                return self.call(self.bind(self.class_lookup(a.cls, "__str__"), a, a.cls), [], {}, node)
            return Term("str", (a,), "str")
        if n in ("int", "float"):
            if not args:
                return C(0 if n == "int" else 0.0)
            a = args[0]
            if isinstance(a, C) and all(isinstance(x, C) for x in args):
                try:
                    return C((int if n == "int" else float)(*[x.v for x in args]))
                except Exception as e:
                    self.raise_(type(e).__name__, str(e), node)
            ta = self.tname(a)
            if ta == n:
                return a
            if ta in ("NoneType", "list", "dict", "tuple", "set") or ta in DATES or ta == "datetime.time":
                self.raise_("TypeError", "%s() argument" % n, node)
            if ta in ("str", "bytes", None):
                if self._memo_choice(self.inf, ("num", n, key_of(a)), "%r is not a valid %s" % (a, n)):
                    self.raise_("ValueError", "invalid literal", node)
            return Term(n, (a,), n)
        if n in ("datetime.datetime", "datetime.date", "datetime.time", "datetime.timedelta", "decimal.Decimal"):
            for a in args:
                if self.tname(a) == "NoneType":
                    self.raise_("TypeError", "None", node)
            return Term("new:" + n, tuple(args) + tuple(kwargs.values()), n)
        return Term("new:" + n, tuple(args) + tuple(kwargs.values()), n if n in PYTYPES else None)

    def call_ext(self, name, args, kwargs, node=None):
        base = name.split(".")
        if base[0] in PYTYPES and len(base) == 2:      # dict.get(d, ...)
            if args:
                return self.call_method(args[0], base[1], args[1:], kwargs, node)
            return Term("call", (name,))
        if name in ("copy.deepcopy", "copy.copy"):
            return self.deepcopy(args[0], name.endswith("deepcopy"))
        if name == "threading.local":
            return Inst(ClassV("local", "threading.local", [TypeV("object")], {}, self.mods[self.project.internal_names[0]]
                               if self.mods else None, None), {}, name="thread-local")
        if name == "collections.deque":
            r = ListV(self.iterate(args[0], node) if args else [], name="deque")
            return r
        if name in ("collections.defaultdict", "collections.OrderedDict", "weakref.WeakValueDictionary",
                    "weakref.WeakKeyDictionary"):
            d = DictV()
            if name.endswith("defaultdict") and args and not isinstance(args[0], C):
                factory = args[0]
                d.elem = None
                d.name = "defaultdict"
                d.ver = 1
                d.factory = factory
            return d
        if name in ("itertools.chain",):
            out = []
            for a in args:
                out += self.iterate(a, node)
            return GenV(out)
        if name == "functools.partial":
            f0, a0, k0 = args[0], list(args[1:]), dict(kwargs)
            return PyV(lambda it, a, k, n: it.call(f0, a0 + list(a), dict(k0, **k), n), "partial")
        if name.startswith("os.path.join") and all(isinstance(a, C) and isinstance(a.v, str) for a in args):
            import posixpath
            return C(posixpath.join(*[a.v for a in args]))
        self.event("ext", name, args, kwargs)
        if name.startswith("math.") or name.startswith("re.") or name in ("round", "abs"):
            for a in args:
                if self.tname(a) in ("NoneType",) or (name.startswith("math.") and self.tname(a) in ("str", "list", "dict")):
                    self.raise_("TypeError", name, node)
        self._maybe_raise(name, args, node)
        ty = EXT_RET.get(name)
        if ty is None and name.startswith("math."):
            ty = "int" if name in ("math.ceil", "math.floor", "math.trunc") else "float"
        return Term("call", (name,) + tuple(args) + tuple(kwargs.values()), ty)

    def deepcopy(self, v, deep=True, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, TupleV):
            return TupleV([self.deepcopy(x, deep, memo) if deep else x for x in v.items])
        if isinstance(v, ListV):
            r = type(v)([], v.open, v.name, v.elem)
            memo[id(v)] = r
            r.items = [self.deepcopy(x, deep, memo) if deep else x for x in v.items]
            return r
        if isinstance(v, DictV):
            r = DictV((), v.open, v.name, v.elem)
            r.factory = v.factory
            memo[id(v)] = r
            r.absent = set(v.absent)
            r.d = {k: (kk, self.deepcopy(x, deep, memo) if deep else x) for k, (kk, x) in v.d.items()}
            return r
        if isinstance(v, Inst):
            self.next_id += 1
            r = Inst(v.cls, {}, v.lazy, v.name, self.next_id)
            memo[id(v)] = r
            r.attrs = {k: (self.deepcopy(x, deep, memo) if deep else x) for k, x in v.attrs.items()}
            return r
        return v

    # builtin functions --------------------------------------------------
    def call_builtin(self, n, args, kwargs, node=None):
        if n == "isinstance":
            return cbool(self.isinstance_(args[0], args[1], node))
        if n == "issubclass":
            ts = args[1].items if isinstance(args[1], TupleV) else [args[1]]
            if isinstance(args[0], (ClassV, TypeV, ExtV)):
                res = [is_subtype(args[0], t) if isinstance(t, (ClassV, TypeV, ExtV)) else None for t in ts]
                if any(r is True for r in res):
                    return TRUE
                if all(r is False for r in res):
                    return FALSE
            return cbool(self._memo_choice(self.inf, ("issub", key_of(args[0]), key_of(args[1])), "issubclass"))
        if n == "len":
            v = args[0]
            if isinstance(v, TupleV) or (isinstance(v, ListV) and not v.open) or (isinstance(v, DictV) and not v.open):
                return C(len(v.d) if isinstance(v, DictV) else len(v.items))
            if isinstance(v, ListV):
                self.iterate(v, node)
                return C(len(v.items))
            if isinstance(v, DictV):
                self.dict_items(v)
                return C(len(v.d))
            if isinstance(v, C):
                try:
                    return C(len(v.v))
                except TypeError as e:
                    self.raise_("TypeError", str(e), node)
            if isinstance(v, Inst):
                f = self.class_lookup(v.cls, "__len__")
                if isinstance(f, FuncV) and not f.module.lazy:
                    return self.call(BoundV(f, v), [], {}, node)
                if isinstance(v.cls, ClassV) and any(type_name(b) == "dict" for b in v.cls.mro()):
                    return self.call_builtin("len", [self._inst_dict(v)], {}, node)
            t = self.tname(v)
            if t in ("NoneType", "int", "float", "bool", "decimal.Decimal") or t in DATES:
                self.raise_("TypeError", "object of type %s has no len()" % t, node)
            return Term("len", (v,), "int")
        if n == "range":
            if all(isinstance(a, C) for a in args):
                try:
                    r = range(*[a.v for a in args])
                except TypeError as e:
                    self.raise_("TypeError", str(e), node)
                if len(r) > 400:
                    return ListV(open=True, name="range")
                return ListV([C(i) for i in r])
            for a in args:
                if self.tname(a) not in (None, "int", "bool"):
                    self.raise_("TypeError", "range", node)
            l = ListV(open=True, name="range(%s)" % ", ".join(map(repr, args)))
            if len(args) == 1:
                l.elem = lambda it, i: C(i)
            return l
        if n == "enumerate":
            start = args[1].v if len(args) > 1 else (kwargs["start"].v if "start" in kwargs else 0)
            return ListV([TupleV([C(i + start), x]) for i, x in enumerate(self.iterate(args[0], node))])
        if n == "zip":
            return ListV([TupleV(list(t)) for t in zip(*[self.iterate(a, node) for a in args])])
        if n in ("sorted", "reversed"):
            items = self.iterate(args[0], node)
            if n == "reversed":
                return ListV(items[::-1])
            key = kwargs.get("key")
            if len(items) > 1:
                ks = [self.call(key, [x], {}, node) if key is not None and not (isinstance(key, C)) else x for x in items]

                def conc(k):
                    if isinstance(k, C):
                        return k.v
                    if isinstance(k, TupleV):
                        return tuple(conc(i) for i in k.items)
                    raise ValueError
                try:
                    ks = [conc(k) for k in ks]
                    order = sorted(range(len(items)), key=lambda i: ks[i])
                    if "reverse" in kwargs and self.truth(kwargs["reverse"]):
                        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=True)
                    return ListV([items[i] for i in order])
                except (ValueError, TypeError):
                    pass
            r = ListV(items, name="sorted")
            return r
        if n in ("min", "max"):
            items = list(args) if len(args) > 1 else self.iterate(args[0], node)
            if not items:
                if "default" in kwargs:
                    return kwargs["default"]
                self.raise_("ValueError", "%s() arg is an empty sequence" % n, node)
            if "key" in kwargs:
                return Term(n, items)
            best = items[0]
            for x in items[1:]:
                if self.truth(self.compare("<" if n == "min" else ">", x, best, node)):
                    best = x
            return best
        if n == "sum":
            acc = args[1] if len(args) > 1 else C(0)
            for x in self.iterate(args[0], node):
                acc = self.binop("+", acc, x, node)
            return acc
        if n in ("any", "all"):
            for x in self.iterate(args[0], node):
                t = self.truth(x, node)
                if n == "any" and t:
                    return TRUE
                if n == "all" and not t:
                    return FALSE
            return cbool(n == "all")
        if n == "repr":
            return C(repr(args[0].v)) if isinstance(args[0], C) else Term("repr", args, "str")
        if n == "id":
            if getattr(self, "concrete_ids", None) is not None and isinstance(args[0], (Inst, DictV, ListV)):
                known = self.concrete_ids.setdefault(id(args[0]), (950000 + len(self.concrete_ids), args[0]))
                return C(known[0])
            return Term("id", args if not isinstance(args[0], (Inst, DictV, ListV)) else (str(id(args[0])),), "int")
        if n == "print":
            self.event("print", args)
            return NONE
        if n == "callable":
            if isinstance(args[0], (FuncV, BoundV, ClassV, TypeV, BuiltinV, PyV, BMethV)):
                return TRUE
            if isinstance(args[0], (C, DictV, ListV, TupleV)):
                return FALSE
            if isinstance(args[0], Inst) and isinstance(args[0].cls, ClassV):
                return cbool(self.class_lookup(args[0].cls, "__call__") is not None)
            return cbool(self._memo_choice(self.inf, ("callable", key_of(args[0])), "callable(%r)" % (args[0],)))
        if n == "iter":
            if isinstance(args[0], GenV):
                return args[0]
            return GenV(self.iterate(args[0], node))
        if n == "next":
            g = args[0]
            if isinstance(g, GenV):
                try:
                    return g.step(self, node)
                except Raised as r:
                    if len(args) > 1 and isinstance(r.exc, Inst) and self.tname(r.exc) == "StopIteration":
                        return args[1]
                    raise
            if isinstance(g, Inst):
                f = self.class_lookup(g.cls, "__next__")
                if f is not None:
                    return self.call(BoundV(f, g), [], {}, node)
            return Term("next", args)
        if n == "map":
            cols = [self.iterate(a, node) for a in args[1:]]
            return GenV([self.call(args[0], list(t), {}, node) for t in zip(*cols)])
        if n == "filter":
            out = []
            for x in self.iterate(args[1], node):
                if self.truth(x if isinstance(args[0], C) else self.call(args[0], [x], {}, node), node):
                    out.append(x)
            return GenV(out)
        if n == "getattr":
            if not isinstance(args[1], C):
                return Term("getattr", args)
            try:
                return self.getattr(args[0], args[1].v, node)
            except Raised as r:
                if len(args) > 2 and self.exc_matches(r.exc, TypeV("AttributeError")):
                    return args[2]
                raise
        if n == "hasattr":
            v = args[0]
            if isinstance(args[1], C):
                if isinstance(v, (Opaque, Term)) and self.type_of(v) is None or isinstance(v, Inst) and v.lazy and \
                        args[1].v not in v.attrs and self.class_lookup(v.cls, args[1].v) is None:
                    return cbool(self._memo_choice(self.inf, ("hasattr", key_of(v), args[1].v),
                                                   "hasattr(%r, %s)" % (v, args[1].v)))
                try:
                    ev = len(self.events)
                    self.getattr(v, args[1].v, node)
                    return TRUE
                except Raised:
                    del self.events[ev:]
                    return FALSE
            return cbool(self._memo_choice(self.inf, ("hasattr", key_of(v), key_of(args[1])), "hasattr"))
        if n == "setattr":
            if isinstance(args[1], C):
                self.setattr(args[0], args[1].v, args[2], node)
            else:
                self.event("setattr", args[0], args[1], args[2])
            return NONE
        if n in ("round", "abs", "ord", "chr", "bin", "hex", "oct", "pow", "divmod", "hash", "format"):
            if all(isinstance(a, C) for a in args):
                try:
                    return C(getattr(builtins, n)(*[a.v for a in args]))
                except Exception as e:
                    self.raise_(type(e).__name__, str(e), node)
            need = {"ord": ("str", "bytes"), "chr": ("int", "bool"), "bin": ("int", "bool"), "hex": ("int", "bool"),
                    "oct": ("int", "bool"), "abs": tuple(NUMERIC) + ("datetime.timedelta",), "round": tuple(NUMERIC),
                    "pow": tuple(NUMERIC)}.get(n)
            t = self.tname(args[0])
            if need and t is not None and t not in need:
                self.raise_("TypeError", n, node)
            if n == "ord" and t is None or n == "ord" and t == "str":
                if self._memo_choice(self.inf, ("ord1", key_of(args[0])), "len(%r) != 1" % (args[0],)):
                    self.raise_("TypeError", "ord() expected a character", node)
            if n in ("round", "pow") and len(args) > 1 and self.tname(args[1]) not in (None, "int", "bool", "float") \
                    and self.tname(args[1]) != "decimal.Decimal":
                self.raise_("TypeError", n, node)
            return Term(n, args, {"ord": "int", "chr": "str", "bin": "str", "hex": "str", "oct": "str", "hash": "int",
                                  "format": "str", "abs": t, "round": ("int" if len(args) == 1 else t)}.get(n))
        if n == "globals":
            env = self.cur_module_env
            return DictV([(C(k), v) for k, v in env.vars.items()])
        if n == "open":
            self.event("ext", "open", args, kwargs)
            self._maybe_raise("open", args, node)
            return Inst(TypeV("file"), {}, lazy=True, name="file")
        if n in ("exit", "quit"):
            raise Raised(Inst(TypeV("SystemExit"), {"args": TupleV(args), "code": args[0] if args else NONE}, name="exit"), node)
        self.event("builtin", n, args, kwargs)
        return Term("call", (n,) + tuple(args) + tuple(kwargs.values()))

    # builtin methods ----------------------------------------------------
    def call_method(self, v, n, args, kwargs, node=None):
        m = self.models.get("method:" + n)
        if m is not None:
            return m(self, [v] + list(args), kwargs, node)
        if isinstance(v, DictV):
            return self.dict_method(v, n, args, kwargs, node)
        if isinstance(v, ListV):
            return self.list_method(v, n, args, kwargs, node)
        if isinstance(v, TupleV):
            if n == "index":
                for i, x in enumerate(v.items):
                    if self.equal(x, args[0], node):
                        return C(i)
                self.raise_("ValueError", "tuple.index", node)
            if n == "count":
                return C(sum(1 for x in v.items if self.equal(x, args[0], node)))
        if isinstance(v, C):
            if all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kwargs.values()):
                try:
                    r = getattr(v.v, n)(*[a.v for a in args], **{k: a.v for k, a in kwargs.items()})
                except Exception as e:
                    self.raise_(type(e).__name__, str(e), node)
                return self.lift(r)
            if isinstance(v.v, str) and n == "join":
                parts = self.iterate(args[0], node)
                for p in parts:
                    if self.tname(p) not in (None, "str"):
                        self.raise_("TypeError", "sequence item: expected str instance, %s found" % self.tname(p), node)
                if all(isinstance(p, C) for p in parts):
                    return C(v.v.join(p.v for p in parts))
                if len(parts) == 1 and self.tname(parts[0]) == "str":
                    return parts[0]
                return Term("join", (v,) + tuple(parts), "str")
            if isinstance(v.v, str) and n in ("startswith", "endswith"):
                if isinstance(args[0], TupleV) and all(isinstance(x, C) for x in args[0].items):
                    return C(getattr(v.v, n)(tuple(x.v for x in args[0].items)))
        t = self.tname(v)
        if t == "str":
            for a in args:
                ta = self.tname(a)
                if n in ("split", "rsplit", "strip", "lstrip", "rstrip"):
                    if ta not in (None, "str", "NoneType", "int"):
                        self.raise_("TypeError", n, node)
                elif n in ("startswith", "endswith"):
                    if ta not in (None, "str", "tuple"):
                        self.raise_("TypeError", n, node)
                elif n in ("replace", "index", "find", "count", "rfind", "partition"):
                    if ta not in (None, "str") and a is args[0]:
                        self.raise_("TypeError", n, node)
                    if n == "replace" and ta not in (None, "str", "int"):
                        self.raise_("TypeError", n, node)
            if n == "join" and args:
                parts = self.iterate(args[0], node)
                for p in parts:
                    if self.tname(p) not in (None, "str"):
                        self.raise_("TypeError", "sequence item", node)
                return Term("join", (v,) + tuple(parts), "str")
            if n in STR_RET_STR:
                return Term("m." + n, (v,) + tuple(args), "str")
            if n in STR_RET_BOOL:
                k = ("m." + n, key_of(v)) + tuple(key_of(a) for a in args)
                return cbool(self._memo_choice(self.inf, k, "%r.%s(%s)" % (v, n, ", ".join(map(repr, args)))))
            if n in ("split", "rsplit", "splitlines"):
                k = ("split", n, key_of(v)) + tuple(key_of(a) for a in args)
                if k not in self.memo_attr:
                    l = ListV([], True, "%r.split" % (v,), lambda it, i: it.fresh("%r.split[%d]" % (v, i), "str"))
                    if n != "splitlines" and args:
                        l.items.append(l.elem(self, 0))
                    self.memo_attr[k] = l
                l = self.memo_attr[k]
                return ListV(l.items, l.open, l.name, l.elem)
            if n in ("index", "rindex"):
                k = ("in", key_of(args[0]), key_of(v))
                if not self._memo_choice(self.inf, k, "%r in %r" % (args[0], v)):
                    self.raise_("ValueError", "substring not found", node)
                return Term("m." + n, (v,) + tuple(args), "int")
            if n in ("find", "rfind", "count"):
                return Term("m." + n, (v,) + tuple(args), "int")
            if n == "encode":
                return Term("m.encode", (v,) + tuple(args), "bytes")
            if n in ("partition", "rpartition"):
                return TupleV([Term("m.%s%d" % (n, i), (v,) + tuple(args), "str") for i in range(3)])
        if t == "bytes" and n == "decode":
            self._maybe_raise(".decode", args, node)
            return Term("m.decode", (v,) + tuple(args), "str")
        if t in ("datetime.datetime", "datetime.date", "datetime.time", "datetime.timedelta"):
            if n == "replace":
                if self.choose(2, "%r.replace out of range" % (v,)):
                    self.raise_("ValueError", "out of range", node)
                return Term("m.replace", (v,) + tuple(args) + tuple(Term(k, (x,)) for k, x in kwargs.items()), t)
            if n == "strftime":
                if args and self.tname(args[0]) not in (None, "str"):
                    self.raise_("TypeError", "strftime", node)
                return Term("m.strftime", (v,) + tuple(args), "str")
            ret = {"weekday": "int", "isoweekday": "int", "total_seconds": "float", "date": "datetime.date",
                   "time": "datetime.time", "astimezone": t, "isoformat": "str", "timestamp": "float"}.get(n)
            return Term("m." + n, (v,) + tuple(args), ret)
        if t == "dict" and isinstance(v, (Opaque, Term)):
            return self.dict_method(self.as_dict(v), n, args, kwargs, node)
        if t == "list" and isinstance(v, (Opaque, Term)):
            return self.list_method(self.as_list(v), n, args, kwargs, node)
        if isinstance(v, GenV) and n in ("send", "__next__"):
            return v.step(self, node)
        if isinstance(v, GenV) and n in ("close", "throw"):
            if isinstance(v, LazyGen) and n == "close":
                v.kill()
            return NONE
        self.event("mcall", v, n, args, kwargs)
        self._maybe_raise("." + n, args, node)
        return Term("mcall", (v, n) + tuple(args) + tuple(kwargs.values()))

    def lift(self, r):
        if isinstance(r, list):
            return ListV([self.lift(x) for x in r])
        if isinstance(r, tuple):
            return TupleV([self.lift(x) for x in r])
        if isinstance(r, dict):
            return DictV([(self.lift(k), self.lift(x)) for k, x in r.items()])
        if isinstance(r, set):
            return SetV([self.lift(x) for x in sorted(r, key=repr)])
        return C(r)

    def dict_method(self, d, n, args, kwargs, node=None):
        if n == "get":
            r = self.dict_get(d, args[0], node)
            return r if r is not None else (args[1] if len(args) > 1 else NONE)
        if n == "setdefault":
            r = self.dict_get(d, args[0], node)
            if r is None:
                r = args[1] if len(args) > 1 else NONE
                self.dict_set(d, args[0], r, node)
                self.event("setitem", d, args[0], r)
            return r
        if n == "pop":
            r = self.dict_get(d, args[0], node)
            if r is None:
                if len(args) > 1:
                    return args[1]
                self.raise_("KeyError", "", node)
            self.mut(d)
            d.d.pop(key_of(args[0]), None)
            d.absent.add(key_of(args[0]))
            self.event("delitem", d, args[0])
            return r
        if n == "update":
            if args:
                a = args[0]
                if isinstance(a, Inst) and isinstance(a.cls, ClassV) and any(type_name(b) == "dict" for b in a.cls.mro()):
                    a = self._inst_dict(a)
                if isinstance(a, DictV):
                    if a.open:
                        self.mut(d)
                        for k, v in list(a.d.values()):
                            self.dict_set(d, k, v)
                        self.event("update_open", d, a)
                        d.open = True
                    else:
                        for k, v in list(a.d.values()):
                            self.dict_set(d, k, v)
                            self.event("setitem", d, k, v)
                elif isinstance(a, (ListV, TupleV, GenV)):
                    for p in self.iterate(a, node):
                        pr = self.iterate(p, node)
                        self.dict_set(d, pr[0], pr[1])
                elif self.tname(a) == "NoneType":
                    self.raise_("TypeError", "NoneType is not iterable", node)
                else:
                    self.mut(d)
                    d.open = True
                    self.event("update_open", d, a)
            for k, v in kwargs.items():
                self.dict_set(d, C(k), v)
            return NONE
        if n == "items":
            return ListV([TupleV([k, v]) for k, v in self.dict_items(d)], name=d.name + ".items")
        if n == "keys":
            return ListV([k for k, _ in self.dict_items(d)], name=d.name + ".keys")
        if n == "values":
            return ListV([v for _, v in self.dict_items(d)], name=d.name + ".values")
        if n == "copy":
            return self.deepcopy(d, False)
        if n == "clear":
            self.mut(d)
            d.d, d.open, d.absent = {}, False, set()
            self.event("clear", d)
            return NONE
        if n == "popitem":
            if not self.truth(d):
                self.raise_("KeyError", "", node)
            self.mut(d)
            k = list(d.d)[-1]
            k, v = d.d.pop(k)
            return TupleV([k, v])
        if n == "fromkeys":
            return DictV([(k, args[1] if len(args) > 1 else NONE) for k in self.iterate(args[0], node)])
        return Term("mcall", (d.name, n) + tuple(args))

    def list_method(self, l, n, args, kwargs, node=None):
        if n in ("append", "add", "appendleft"):
            if isinstance(l, SetV):
                if isinstance(args[0], (ListV, DictV)):
                    self.raise_("TypeError", "unhashable", node)
                if n == "append":
                    self.raise_("AttributeError", "set has no append", node)
                if any(self.equal(args[0], x) for x in l.items):
                    return NONE
            self.mut(l)
            if n == "appendleft":
                l.items.insert(0, args[0])
            else:
                l.items.append(args[0])
            self.event("append", l, args[0])
            return NONE
        if n in ("extend", "update", "extendleft"):
            items = self.iterate(args[0], node)
            self.mut(l)
            if n == "extendleft":
                for x in items:
                    l.items.insert(0, x)
            elif isinstance(l, SetV):
                for x in items:
                    if not any(self.equal(x, y) for y in l.items):
                        l.items.append(x)
            else:
                l.items.extend(items)
            for x in items:
                self.event("append", l, x)
            return NONE
        if n in ("pop", "popleft"):
            if not self.truth(l, node):
                self.raise_("IndexError" if not isinstance(l, SetV) else "KeyError", "pop from empty", node)
            self.mut(l)
            if n == "popleft":
                r = l.items.pop(0)
            elif args and isinstance(args[0], C):
                try:
                    r = l.items.pop(args[0].v)
                except IndexError:
                    self.raise_("IndexError", "", node)
            else:
                r = l.items.pop()
            self.event("pop", l, r)
            return r
        if n == "insert":
            self.mut(l)
            l.items.insert(args[0].v if isinstance(args[0], C) else 0, args[1])
            self.event("append", l, args[1])
            return NONE
        if n in ("remove", "discard"):
            for i, x in enumerate(l.items):
                if self.equal(x, args[0], node):
                    self.mut(l)
                    del l.items[i]
                    self.event("remove", l, args[0])
                    return NONE
            if n == "remove" and not l.open:
                self.raise_("KeyError" if isinstance(l, SetV) else "ValueError", "", node)
            self.event("remove", l, args[0])
            return NONE
        if n == "index":
            for i, x in enumerate(l.items):
                if self.equal(x, args[0], node):
                    return C(i)
            if l.open:
                return Term("m.index", (self._as_term(l), args[0]), "int")
            self.raise_("ValueError", "not in list", node)
        if n == "count":
            if not l.open:
                return C(sum(1 for x in l.items if self.equal(x, args[0], node)))
            return Term("m.count", (self._as_term(l), args[0]), "int")
        if n == "clear":
            self.mut(l)
            l.items, l.open = [], False
            self.event("clear", l)
            return NONE
        if n == "copy":
            return self.deepcopy(l, False)
        if n in ("sort", "reverse"):
            self.mut(l)
            if n == "reverse":
                l.items.reverse()
            else:
                l.items = self.call_builtin("sorted", [l], kwargs, node).items
            return NONE
        if n in ("union", "intersection", "difference"):
            return self.binop({"union": "|", "intersection": "&", "difference": "-"}[n], l,
                              args[0] if isinstance(args[0], SetV) else SetV(self.iterate(args[0])), node)
        return Term("mcall", (l.name, n) + tuple(args))

    # ------------------------------------------------------------ names
    def lookup(self, name, env, node=None):
        e = env
        first = True
        while e is not None:
            if name in e.vars and not (e.cls is not None and e is not env):
                return e.vars[name]
            if first and name in e.locals_ and name not in e.globals_ and name not in e.nonlocals and e.func is not None:
                self.event("unbound", name, node)
                self.raise_("UnboundLocalError", name, node)
            first = e.cls is not None or (first and not e.func and e.parent is not None)
            e = e.parent
        mv = env.module
        if mv is not None:
            if name in mv.env.vars:
                return mv.env.vars[name]
            if mv.lazy:
                try:
                    return self.module_attr(mv, name, node)
                except Raised:
                    pass
            self.cur_module_env = mv.env
        if name in BUILTIN_TYPES:
            return TypeV(name)
        if name in ("True", "False", "None"):
            return C({"True": True, "False": False, "None": None}[name])
        if name in BUILTIN_FUNCS:
            return BuiltinV(name)
        if name == "super":
            return BuiltinV("super")
        o = getattr(builtins, name, None)
        if isinstance(o, type):
            return TypeV(name)
        if o is not None:
            return BuiltinV(name)
        if mv is not None and mv.state == "loading":
            return ExtV(mv.name + "." + name)
        self.event("noname", name, mv.name if mv else "", node)
        self.raise_("NameError", name, node)

    def assign_name(self, name, v, env):
        if name in env.globals_:
            self.mut(env.module.env)
            env.module.env.vars[name] = v
            self.event("setglobal", env.module.name, name, v)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if isinstance(v, (Opaque, Term)) and not star and self.tname(v) not in ("NoneType", "int", "float", "bool"):
                items = [Term("item", (v, C(i))) for i in range(n)]
            else:
                items = self.iterate(v, t)
            if star:
                i = star[0]
                if len(items) < n - 1:
                    self.raise_("ValueError", "unpack", t)
                k = len(items) - (n - 1)
                items = items[:i] + [ListV(items[i:i + k])] + items[i + k:]
            if len(items) != n:
                self.raise_("ValueError", "unpack", t)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval(t.slice, env), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    # ------------------------------------------------------------ statements
    def exec_body(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported statement %s" % type(st).__name__)
        m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        op = _OPS[type(st.op).__name__]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, t)
            r = self._inplace(op, cur, self.eval(st.value, env), st)
            self.assign_name(t.id, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr, t)
            self.setattr(o, t.attr, self._inplace(op, cur, self.eval(st.value, env), st), t)
        else:
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i, t)
            self.setitem(o, i, self._inplace(op, cur, self.eval(st.value, env), st), t)

    def _inplace(self, op, cur, v, node):
        if isinstance(cur, ListV) and not isinstance(cur, SetV) and op == "+":
            self.list_method(cur, "extend", [v], {}, node)
            return cur
        if isinstance(cur, SetV) and op == "|":
            self.list_method(cur, "update", [v], {}, node)
            return cur
        return self.binop(op, cur, v, node)

    def x_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else NONE)

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env), st.test):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def x_While(self, st, env):
        nd = total = 0
        while True:
            p = self.pos
            if not self.truth(self.eval(st.test, env), st.test):
                self.exec_body(st.orelse, env)
                return
            try:
                self.exec_body(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
            total += 1
            if self.pos > p:
                nd += 1
            if nd > self.loop_bound or total > 400:
                self.cut = True
                self.event("loopbound", st)
                raise Pruned("loop bound")

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        for x in self.iterate(it, st.iter):
            self.assign(st.target, x, env)
            try:
                self.exec_body(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_body(st.orelse, env)

    x_AsyncFor = x_For

    def x_Break(self, st, env):
        raise _Break()

    def x_Continue(self, st, env):
        raise _Continue()

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = env
            while cur is not None:
                if "__exc__" in cur.vars:
                    raise Raised(cur.vars["__exc__"], st)
                cur = cur.parent
            self.raise_("RuntimeError", "no active exception", st)
        e = self.eval(st.exc, env)
        if isinstance(e, (ClassV, TypeV)):
            e = self.call(e, [], {}, st)
        if not isinstance(e, Inst):
            e = Inst(TypeV("Exception"), {"args": TupleV([e])}, name=repr(e))
        raise Raised(e, st)

    def x_Try(self, st, env):
        try:
            try:
                self.exec_body(st.body, env)
            except Raised as r:
                handled = False
                for h in st.handlers:
                    if h.type is None or self.exc_matches(r.exc, self.eval(h.type, env)):
                        handled = True
                        self.event("caught", r.exc, h)
                        old = env.vars.get("__exc__")
                        env.vars["__exc__"] = r.exc
                        if h.name:
                            env.vars[h.name] = r.exc
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            if old is None:
                                env.vars.pop("__exc__", None)
                            else:
                                env.vars["__exc__"] = old
                        break
                if not handled:
                    raise
            else:
                self.exec_body(st.orelse, env)
        except _CONTROL:
            if st.finalbody:
                self.exec_body(st.finalbody, env)
            raise
        else:
            self.exec_body(st.finalbody, env)

    def x_With(self, st, env):
        self._with(st, list(st.items), env)

    x_AsyncWith = x_With

    def _with(self, st, items, env):
        if not items:
            self.exec_body(st.body, env)
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)
        ex = None
        if isinstance(cm, Inst) and isinstance(cm.cls, ClassV) and self.class_lookup(cm.cls, "__enter__") is not None:
            en = self.getattr(cm, "__enter__", st)
            ex = self.getattr(cm, "__exit__", st)
            v = self.call(en, [], {}, st)
        else:
            self.event("enter", cm)
            v = cm
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self._with(st, items[1:], env)
        except Raised as r:
            if ex is not None:
                res = self.call(ex, [r.exc.cls if isinstance(r.exc, Inst) else NONE, r.exc, NONE], {}, st)
                if self.truth(res):
                    return
            else:
                self.event("exit", cm)
            raise
        except (_Return, _Break, _Continue):
            if ex is not None:
                self.call(ex, [NONE, NONE, NONE], {}, st)
            else:
                self.event("exit", cm)
            raise
        else:
            if ex is not None:
                self.call(ex, [NONE, NONE, NONE], {}, st)
            else:
                self.event("exit", cm)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_("AssertionError", "", st)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env), t)
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Inst):
                    self.mut(o)
                    if t.attr not in o.attrs and not o.lazy:
                        self.raise_("AttributeError", t.attr, t)
                    o.attrs.pop(t.attr, None)
                    self.event("delattr", o, t.attr)

    def x_Global(self, st, env):
        env.globals_ = tuple(env.globals_) + tuple(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(st.names)

    def x_Import(self, st, env):
        for a in st.names:
            if a.asname:
                self.assign_name(a.asname, self.import_module(a.name, st), env)
            else:
                root = a.name.split(".")[0]
                if "." in a.name:
                    self.import_module(a.name, st)
                self.assign_name(root, self.import_module(root, st), env)

    def x_ImportFrom(self, st, env):
        mname = self.project.resolve_from(env.module.mod, st)
        m = self.import_module(mname, st)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, ModuleV) and not m.lazy:
                    for k, v in list(m.env.vars.items()):
                        if not k.startswith("_"):
                            env.vars[k] = v
                elif isinstance(m, ModuleV):
                    for k in m.mod.top():
                        if not k.startswith("_"):
                            try:
                                env.vars[k] = self.module_attr(m, k, st)
                            except Raised:
                                pass
                continue
            if isinstance(m, ModuleV):
                try:
                    v = self.module_attr(m, a.name, st)
                except Raised:
                    if m.lazy or m.state == "loading":
                        v = ExtV(mname + "." + a.name)
                    else:
                        self.event("noname", a.name, mname, st)
                        self.raise_("ImportError", "cannot import name %s from %s" % (a.name, mname), st)
            else:
                v = self.ext(m.name + "." + a.name)
            self.assign_name(a.asname or a.name, v, env)

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, env)
        self.assign_name(st.name, f, env)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.eval(d, env)
        parts = [name]
        e = env
        owner = None
        closure = env
        if env.cls is not None:
            parts.insert(0, env.cls)
            owner = env
            closure = env.parent
        p = closure
        while p is not None:
            if p.func is not None:
                parts.insert(0, p.func.qual[len(p.func.module.name) + 1:] + ".<locals>")
                break
            p = p.parent
        qual = env.module.name + "." + ".".join(parts)
        clos = closure if closure is not None and closure is not env.module.env else None
        return FuncV(node, clos, qual, env.module, defaults, kwd, owner)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name) and d.id == "property" or isinstance(d, ast.Name) and d.id == "cached_property":
            return PropV(f)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticV(f)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClsMethV(f)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value, env)
            if isinstance(p, PropV):
                return PropV(p.fget, f) if d.attr == "setter" else p
            return f
        dv = self.eval(d, env)
        if isinstance(dv, FuncV) and not dv.module.lazy:
            return self.call(dv, [f], {}, d)
        if isinstance(f, FuncV):
            f.attrs["__decorated__"] = dv
        return f       # library decorators (typing_filter, wraps, contextmanager) keep the function

    def x_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            try:
                v = self.eval(b, env)
            except Raised:
                v = ExtV(ast.unparse(b))
            bases.append(v)
        cenv = Env(env.module, env if env is not env.module.env else None)
        cenv.cls = st.name
        cenv.vars["__name__"] = C(st.name)
        for s in st.body:
            try:
                self.exec(s, cenv)
            except Raised:
                if not env.module.lazy:
                    raise
        del cenv.vars["__name__"]
        pre = ""
        if env.func is not None:
            pre = env.func.qual[len(env.func.module.name) + 1:] + ".<locals>."
        cls = ClassV(st.name, env.module.name + "." + pre + st.name, bases or [TypeV("object")], cenv.vars, env.module, st)
        for v in cls.attrs.values():
            for f in (v, getattr(v, "func", None), getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(f, FuncV) and f.owner is cenv:
                    f.owner = cls
        r = cls
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            if isinstance(dv, FuncV) and not dv.module.lazy:
                r = self.call(dv, [r], {}, d)
        self.assign_name(st.name, r, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return C(e.value)

    def e_Name(self, e, env):
        return self.lookup(e.id, env, e)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, e)

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        return self.getitem(v, self.eval(e.slice, env), e)

    def e_Slice(self, e, env):
        return SliceV(*[self.eval(x, env) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, env):
        return TupleV(self._elts(e.elts, env))

    def e_List(self, e, env):
        return ListV(self._elts(e.elts, env))

    def e_Set(self, e, env):
        out = []
        for x in self._elts(e.elts, env):
            if isinstance(x, (ListV, DictV)):
                self.raise_("TypeError", "unhashable type", e)
            if self.tname(x) in ("list", "dict", "set"):
                self.raise_("TypeError", "unhashable type", e)
            if not any(self.equal(x, y) for y in out):
                out.append(x)
        return SetV(out)

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env), x))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.eval(v, env)
                if isinstance(s, DictV):
                    for kk, vv in list(s.d.values()):
                        self.dict_set(d, kk, vv)
                    if s.open:
                        d.open = True
                else:
                    d.open = True
                continue
            kk = self.eval(k, env)
            self.dict_set(d, kk, self.eval(v, env), e)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        op = _OPS[type(e.op).__name__]
        if op == "%" and isinstance(a, C) and isinstance(a.v, str):
            return self.strfmt(a, b, e)
        return self.binop(op, a, b, e)

    def strfmt(self, a, b, node):
        args = b.items if isinstance(b, TupleV) else [b]
        if isinstance(b, TupleV) or not isinstance(b, DictV):
            n = count_format(a.v)
            if n is not None and n != len(args) and not (isinstance(b, (Opaque, Term)) and self.tname(b) in (None, "tuple", "dict")):
                self.event("format", node)
                self.raise_("TypeError", "not all arguments converted during string formatting", node)
        if all(isinstance(x, C) for x in args):
            try:
                return C(a.v % tuple(x.v for x in args))
            except Exception as ex:
                self.raise_(type(ex).__name__, str(ex), node)
        return Term("strfmt", (a,) + tuple(args), "str")

    def e_UnaryOp(self, e, env):
        return self.unop({"Not": "not", "USub": "-", "UAdd": "+", "Invert": "~"}[type(e.op).__name__],
                         self.eval(e.operand, env), e)

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            if isinstance(e.op, ast.Or) and i == len(e.values) - 2 and isinstance(v, (Opaque, Term)) and \
                    self.tname(v) in NUMERIC and isinstance(e.values[-1], ast.Constant) and \
                    type(e.values[-1].value) in (int, float) and e.values[-1].value == 0:
                return v          # x or 0 is x for a number
            t = self.truth(v, x)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(_CMP[type(op).__name__], left, right, e)
            if not self.truth(r):
                return r
            left = right
        return r

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env), e.test) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign_name(e.target.id, v, env)
        return v

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                v = self.eval(x.value, env)
                parts.append(C(format(v.v)) if isinstance(v, C) and x.format_spec is None else Term("str", (v,), "str"))
        if all(isinstance(p, C) for p in parts):
            return C("".join(p.v for p in parts))
        return Term("fstr", parts, "str")

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_Await(self, e, env):
        return self.eval(e.value, env)

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else NONE
        out = self._yields(env)
        if callable(out):
            out(v)
        else:
            out.append(v)
        self.event("yield", v)
        return NONE

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        out = self._yields(env)
        if not callable(out):
            out.extend(self.iterate(v, e))
        elif isinstance(v, LazyGen) and v._items is None:
            while True:
                x = v.resume()
                if x is None:
                    break
                out(x)
        else:
            for x in self.iterate(v, e):
                out(x)
        return NONE

    def _yields(self, env):
        p = env
        while p is not None:
            if "__yields__" in p.vars:
                return p.vars["__yields__"]
            p = p.parent
        return []

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not any("super" in x.vars for x in _chain(env)):
            return self._super(e, env)
        if isinstance(e.func, ast.Name) and e.func.id in ("globals", "locals"):
            try:
                f = self.lookup(e.func.id, env, e)
            except Raised:
                f = None
            if isinstance(f, BuiltinV):
                src = env.module.env if e.func.id == "globals" else env
                return DictV([(C(k), v) for k, v in src.vars.items()])
        f = self.eval(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, (Opaque, Term)) and self.tname(v) not in ("NoneType", "int"):
                    args.append(StarRest(v))
                else:
                    args.extend(self.iterate(v, x))
            else:
                args.append(self.eval(x, env))
        if any(isinstance(a, StarRest) for a in args[:-1]):
            out = []
            for a in args:
                if isinstance(a, StarRest):
                    out.extend(a.all(self))
                else:
                    out.append(a)
            args = out
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, DictV):
                    for kk, vv in list(v.d.values()):
                        if isinstance(kk, C) and isinstance(kk.v, str):
                            kwargs[kk.v] = vv
                    if v.open:
                        kwargs["**"] = v
                elif isinstance(v, (Opaque, Term)):
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if args and isinstance(args[-1], StarRest) and not isinstance(f, (FuncV, BoundV, ClassV)):
            args = args[:-1] + args[-1].all(self)
        if "**" in kwargs and not isinstance(f, (FuncV, BoundV, ClassV, TypeV)):
            kwargs.pop("**")
        return self.call(f, args, kwargs, e)

    def _super(self, e, env):
        if e.args:
            cls = self.eval(e.args[0], env)
            obj = self.eval(e.args[1], env)
            return SuperV(cls, obj)
        p = env
        while p is not None and (p.func is None or not isinstance(p.func.owner, ClassV)):
            p = p.parent
        if p is None:
            self.raise_("RuntimeError", "super()", e)
        names = [x.arg for x in p.func.node.args.posonlyargs + p.func.node.args.args]
        return SuperV(p.func.owner, p.vars[names[0]])

    def _comp(self, gens, env, emit):
        cenv = Env(env.module, env)

        def rec(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            for x in self.iterate(self.eval(g.iter, env if i == 0 else cenv), g.iter):
                self.assign(g.target, x, cenv)
                if all(self.truth(self.eval(c, cenv), c) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, e, env):
        out = []
        self._comp(e.generators, env, lambda ce: out.append(self.eval(e.elt, ce)))
        return ListV(out)

    def e_GeneratorExp(self, e, env):
        out = []
        self._comp(e.generators, env, lambda ce: out.append(self.eval(e.elt, ce)))
        return GenV(out)

    def e_SetComp(self, e, env):
        out = []

        def emit(ce):
            x = self.eval(e.elt, ce)
            if not any(self.equal(x, y) for y in out):
                out.append(x)
        self._comp(e.generators, env, emit)
        return SetV(out)

    def e_DictComp(self, e, env):
        d = DictV()
        self._comp(e.generators, env, lambda ce: self.dict_set(d, self.eval(e.key, ce), self.eval(e.value, ce)))
        return d

    # ------------------------------------------------------------ helpers for checks
    def get(self, dotted):
        """an object of the analysed package by dotted name; AnalysisBroken if it vanished"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            name = ".".join(parts[:i])
            if self.project.module(name) is not None:
                v = self.load(name)
                try:
                    for p in parts[i:]:
                        if isinstance(v, ClassV):
                            r = self.class_lookup(v, p)
                            if r is None:
                                raise AnalysisBroken("anchor vanished: %s" % dotted)
                            v = r
                        else:
                            v = self.getattr(v, p)
                except Raised:
                    raise AnalysisBroken("anchor vanished: %s" % dotted)
                return v
        raise AnalysisBroken("anchor vanished: %s" % dotted)


def _chain(env):
    while env is not None:
        yield env
        env = env.parent


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class StarRest(V):
    """*args with an unknown sequence"""
    __slots__ = ("v", "n")

    def __init__(self, v):
        self.v, self.n = v, 0

    def next(self, it):
        self.n += 1
        return Term("item", (self.v, C(self.n - 1)))

    def all(self, it):
        return it.iterate(self.v)[self.n:]


EXT_RET = {"time.time": "float", "random.random": "float", "datetime.datetime.now": "datetime.datetime",
           "datetime.date.today": "datetime.date", "datetime.datetime.fromtimestamp": "datetime.datetime",
           "json.dumps": "str", "binascii.b2a_hex": "bytes", "binascii.a2b_hex": "bytes", "base64.b64encode": "bytes",
           "base64.b64decode": "bytes", "socket.inet_aton": "bytes", "socket.inet_ntoa": "str", "re.escape": "str",
           "re.sub": "str", "time.mktime": "float", "traceback.format_exc": "str", "os.path.join": "str",
           "zlib.crc32": "int", "os.getcwd": "str", "socket.inet_pton": "bytes", "socket.inet_ntop": "str"}

_OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Mod": "%", "FloorDiv": "//", "Pow": "**", "BitAnd": "&",
        "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "MatMult": "@"}
_CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not",
        "In": "in", "NotIn": "not in"}
import operator as _op
_BIN = {"+": _op.add, "-": _op.sub, "*": _op.mul, "/": _op.truediv, "%": _op.mod, "//": _op.floordiv, "**": _op.pow,
        "&": _op.and_, "|": _op.or_, "^": _op.xor, "<<": _op.lshift, ">>": _op.rshift, "@": _op.matmul}

_locals_cache = {}


def local_names(node):
    k = id(node)
    if k in _locals_cache:
        return _locals_cache[k][1]
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        out.add(w.target.id)
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                tgt(c.target)
            elif isinstance(c, ast.NamedExpr):
                tgt(c.target)
            elif isinstance(c, ast.With):
                for i in c.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add(a.asname or a.name.split(".")[0])
            walk(c)
    walk(node)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    _locals_cache[k] = (node, out)
    return out


_gen_cache = {}


def is_generator(node):
    k = id(node)
    if k in _gen_cache:
        return _gen_cache[k][1]
    r = False
    if not isinstance(node, ast.Lambda):
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(n))
    _gen_cache[k] = (node, r)
    return r


def count_format(s):
    """number of values a %-format string consumes, None if it is not positional"""
    import re
    n = 0
    for m in re.finditer(r"%(\(\w+\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?(.)", s):
        if m.group(1):
            return None
        if m.group(5) == "%":
            continue
        n += 1
        if m.group(2) == "*":
            n += 1
        if m.group(4) == "*":
            n += 1
    return n


def run_big_stack(fn):
    """run fn in a thread with a large stack (the interpreter recurses over the tree)"""
    box = {}

    def go():
        try:
            box["r"] = fn()
        except BaseException as e:     # handed to the caller
            box["e"] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in box:
        raise box["e"]
    return box.get("r")
