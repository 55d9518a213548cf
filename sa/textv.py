"""Texts over an abstract alphabet.

A text is a sequence of cells; a cell is one character known only up to a set of characters (classes of characters the
analysed code may tell apart, one representative each).  Tests of a cell split the path and narrow its set, so that one path
stands for every text with these classes.  An operation without an abstract meaning here splits into the representatives."""
from .interp import C, NONE, DictV, Interp, ListV, SetV, SliceV, TupleV, TypeV, V, BMethV, key_of


class Cell:
    __slots__ = ("dom",)

    def __init__(self, dom):
        self.dom = tuple(dom)

    def __repr__(self):
        return self.dom[0] if len(self.dom) == 1 else "<%s>" % "".join(self.dom)


class TextV(V):
    def __init__(self, cells):
        self.cells = list(cells)

    def __repr__(self):
        return "text(%r)" % "".join(map(repr, self.cells))


def text(s):
    return TextV([Cell((c,)) for c in s])


class TextInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.loop_bound = max(self.loop_bound, 60)     # scanning loops end with the text

    # ---- cells
    def cell_in(self, cell, chars):
        yes = tuple(c for c in cell.dom if c in chars)
        if not yes:
            return False
        if len(yes) == len(cell.dom):
            return True
        no = tuple(c for c in cell.dom if c not in chars)
        k = self.choose(2, "%r in %r" % (cell, sorted(chars)))
        cell.dom = no if k else yes
        return not k

    def conc(self, v):
        """a python string, splitting into all representatives"""
        if isinstance(v, TextV):
            out = []
            for c in v.cells:
                if len(c.dom) > 1:
                    c.dom = (c.dom[self.choose(len(c.dom), "character")],)
                out.append(c.dom[0])
            return C("".join(out))
        return v

    def as_text(self, v):
        if isinstance(v, TextV):
            return v
        return text(v.v) if isinstance(v, C) and isinstance(v.v, str) else None

    def text_eq(self, a, b):
        if len(a.cells) != len(b.cells):
            return False
        for x, y in zip(a.cells, b.cells):
            if x is y:
                continue
            if len(y.dom) == 1:
                if not self.cell_in(x, y.dom):
                    return False
            elif len(x.dom) == 1:
                if not self.cell_in(y, x.dom):
                    return False
            elif not set(x.dom) & set(y.dom):
                return False
            else:
                self.conc(TextV([x]))
                if not self.cell_in(y, x.dom):
                    return False
        return True

    def text_at(self, v, sub, i):
        return i + len(sub.cells) <= len(v.cells) and self.text_eq(TextV(v.cells[i:i + len(sub.cells)]), sub)

    # ---- operations
    def type_of(self, v):
        return TypeV("str") if isinstance(v, TextV) else super().type_of(v)

    def truth(self, v, node=None):
        return bool(v.cells) if isinstance(v, TextV) else super().truth(v, node)

    def equal(self, a, b, node=None):
        if isinstance(a, TextV) or isinstance(b, TextV):
            x, y = self.as_text(a), self.as_text(b)
            return x is not None and y is not None and self.text_eq(x, y)
        return super().equal(a, b, node)

    def identical(self, a, b):
        if isinstance(a, TextV) or isinstance(b, TextV):
            return a is b
        return super().identical(a, b)

    def compare(self, op, a, b, node=None):
        if op in ("<", ">", "<=", ">="):
            a, b = self.conc(a), self.conc(b)
        return super().compare(op, a, b, node)

    def contains(self, cont, x, node=None):
        if isinstance(x, TextV):
            if isinstance(cont, DictV):
                return super().contains(cont, self.conc(x), node)
            if isinstance(cont, C) and isinstance(cont.v, str) or isinstance(cont, TextV):
                cont = self.as_text(cont)
                if len(x.cells) == 1 and all(len(c.dom) == 1 for c in cont.cells):
                    return self.cell_in(x.cells[0], {c.dom[0] for c in cont.cells})
                return any(self.text_at(cont, x, i) for i in range(len(cont.cells) + 1))
            if isinstance(cont, C) and isinstance(cont.v, (tuple, list, set, frozenset)):
                items = [C(y) for y in cont.v]
            else:
                items = self.iterate(cont, node)
            consts = [y.v for y in items if isinstance(y, C) and isinstance(y.v, str)]
            if len(x.cells) == 1 and len(consts) == len(items) and all(len(y) == 1 for y in consts):
                return self.cell_in(x.cells[0], set(consts))
            return any(self.equal(x, y, node) for y in items)
        if isinstance(cont, TextV):
            sub = self.as_text(x)
            if sub is None:
                self.raise_("TypeError", "in <string>", node)
            return any(self.text_at(cont, sub, i) for i in range(len(cont.cells) + 1))
        return super().contains(cont, x, node)

    def iterate(self, v, node=None):
        if isinstance(v, TextV):
            return [TextV([c]) for c in v.cells]
        return super().iterate(v, node)

    def getitem(self, v, i, node=None):
        if isinstance(v, TextV):
            if isinstance(i, SliceV):
                lo, hi, st = (x.v if isinstance(x, C) else NONE.v for x in (i.lo, i.hi, i.step))
                return TextV(v.cells[slice(lo, hi, st)])
            if isinstance(i, C) and isinstance(i.v, int):
                if not -len(v.cells) <= i.v < len(v.cells):
                    self.raise_("IndexError", "string index out of range", node)
                return TextV([v.cells[i.v]])
        if isinstance(v, (DictV,)) and isinstance(i, TextV):
            i = self.conc(i)
        return super().getitem(v, i, node)

    def dict_get(self, d, k, node=None):
        return super().dict_get(d, self.conc(k), node)

    def dict_has(self, d, k, node=None):
        return super().dict_has(d, self.conc(k), node)

    def dict_set(self, d, k, v, node=None):
        return super().dict_set(d, self.conc(k), v, node)

    def getattr(self, v, name, node=None):
        if isinstance(v, TextV):
            if not hasattr("", name):
                self.raise_("AttributeError", name, node)
            return BMethV(v, name)
        return super().getattr(v, name, node)

    def binop(self, op, a, b, node=None):
        if isinstance(a, TextV) or isinstance(b, TextV):
            x, y = self.as_text(a), self.as_text(b)
            if op == "+" and x is not None and y is not None:
                return TextV(x.cells + y.cells)
            a, b = self.conc(a), self.conc(b)
            if op == "%":
                b = TupleV([self.conc(z) for z in b.items]) if isinstance(b, TupleV) else b
        elif op == "%" and isinstance(b, TupleV) and any(isinstance(z, TextV) for z in b.items):
            b = TupleV([self.conc(z) for z in b.items])
        return super().binop(op, a, b, node)

    def call_type(self, t, args, kwargs, node=None):
        if args and isinstance(args[0], TextV):
            if t.name == "str" and len(args) == 1:
                return args[0]
            if t.name in ("bool",):
                return C(bool(args[0].cells))
            if t.name not in ("list", "tuple", "set", "frozenset") and not t.name.endswith("Error") and t.name != "Exception":
                args = [self.conc(a) for a in args]
        return super().call_type(t, args, kwargs, node)

    def call_builtin(self, n, args, kwargs, node=None):
        if args and isinstance(args[0], TextV):
            if n == "len":
                return C(len(args[0].cells))
            if n in ("ord", "repr", "hash", "print"):
                args = [self.conc(a) for a in args]
            elif n == "enumerate":
                start = args[1].v if len(args) > 1 else 0
                return ListV([TupleV([C(i + start), TextV([c])]) for i, c in enumerate(args[0].cells)])
        return super().call_builtin(n, args, kwargs, node)

    CLASSES = ("isalpha", "isdigit", "isspace", "isalnum", "isnumeric", "isdecimal", "isupper", "islower", "isidentifier")

    def call_method(self, v, n, args, kwargs, node=None):
        if isinstance(v, C) and isinstance(v.v, str) and n == "join" and args:
            items = self.iterate(args[0], node)
            if any(isinstance(x, TextV) for x in items):
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.extend(text(v.v).cells)
                    out.extend(self.as_text(x).cells)
                return TextV(out)
        if not isinstance(v, TextV):
            if isinstance(v, C) and any(isinstance(a, TextV) for a in args):
                args = [self.conc(a) for a in args]
            return super().call_method(v, n, args, kwargs, node)
        if n in self.CLASSES and not args:
            if not v.cells:
                return C(False)
            for c in v.cells:
                if not self.cell_in(c, {x for x in c.dom if getattr(x, n)()}):
                    return C(False)
            return C(True)
        if n in ("strip", "lstrip", "rstrip"):
            chars = args[0] if args else NONE
            chars = None if chars is NONE or chars.v is None else set(chars.v)
            test = lambda c: self.cell_in(c, {x for x in c.dom if (x.isspace() if chars is None else x in chars)})
            lo, hi = 0, len(v.cells)
            while n != "rstrip" and lo < hi and test(v.cells[lo]):
                lo += 1
            while n != "lstrip" and hi > lo and test(v.cells[hi - 1]):
                hi -= 1
            return TextV(v.cells[lo:hi])
        if n in ("find", "index", "startswith", "endswith", "count", "rfind", "rindex") and args and not kwargs:
            subs = args[0].items if isinstance(args[0], TupleV) else [args[0]]
            subs = [self.as_text(x) for x in subs]
            lo = args[1].v if len(args) > 1 else None
            hi = args[2].v if len(args) > 2 else None
            a, b, _ = slice(lo, hi).indices(len(v.cells))
            if all(x is not None for x in subs):
                w = TextV(v.cells[:b])
                if n == "startswith":
                    return C(any(self.text_at(w, x, a) for x in subs))
                if n == "endswith":
                    return C(any(len(x.cells) <= b - a and self.text_at(w, x, b - len(x.cells)) for x in subs))
                sub = subs[0]
                if n == "count":
                    k, i = 0, a
                    while i + len(sub.cells) <= b:
                        if self.text_at(w, sub, i):
                            k += 1
                            i += max(1, len(sub.cells))
                        else:
                            i += 1
                    return C(k)
                order = range(a, b + 1) if n in ("find", "index") else range(b, a - 1, -1)
                for i in order:
                    if self.text_at(w, sub, i):
                        return C(i)
                if n in ("find", "rfind"):
                    return C(-1)
                self.raise_("ValueError", "substring not found", node)
        if n == "splitlines" or n == "split" and args and isinstance(args[0], C) and args[0].v == "\n" and len(args) == 1:
            keep = n == "splitlines" and bool(args and args[0].v)
            out, cur = [], []
            for c in v.cells:
                if self.cell_in(c, {"\n"}):
                    out.append(TextV(cur + [c] if keep else cur))
                    cur = []
                else:
                    cur = cur + [c]
            if n == "split" or cur:
                out.append(TextV(cur))
            return ListV(out)
        return super().call_method(self.conc(v), n, [self.conc(a) for a in args], kwargs, node)

    def call_ext(self, name, args, kwargs, node=None):
        return super().call_ext(name, [self.conc(a) for a in args], {k: self.conc(a) for k, a in kwargs.items()}, node)
