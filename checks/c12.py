"""C12: script text.

The splitter of scripts and the replacement of quoted names run on abstract texts: after each of a list of beginnings (one per
lexical situation) come characters known only by class, refined as the code tests them, so that a path stands for every text
of these classes.  The pieces must be, cell by cell, the ones the lexical rules give: statements end at a `;` outside quotes
and comments, and nothing inside quotes or comments is interpreted."""
from sa.interp import C, Inst, ListV
from sa.textv import Cell, TextInterp, TextV, text
from sa.project import AnalysisBroken
from .sqlnodes import compiler_interp, new_compiler
from .stmt import at, run

EXPLANATION = __doc__
PARSER = "syncanysql.parser.SqlParser"
ALPHABET = ("s", "S", " ", "`", '"', "'", "\\", "\n", "#", "-", "/", "*", ";", "\u00e9", "1", "_", "(", "\t", "\r")
QUOTES = ("`", '"', "'")


class Open(Exception):
    pass


def closing(it, cells, i, q):
    """index behind the quoted text that starts at i"""
    j = i + 1
    while j < len(cells):
        if it.cell_in(cells[j], {"\\"}):
            if q == "`" and j + 1 < len(cells) and it.cell_in(cells[j + 1], {"`"}):
                it.prune("backslash at the end of a quoted name")
            j += 2 if q != "`" else 1
            continue
        if it.cell_in(cells[j], {q}):
            return j + 1
        j += 1
    raise Open()


def comment(it, cells, i):
    """index behind the comment that starts at i, None if there is none"""
    two = i + 1 < len(cells)
    if it.cell_in(cells[i], {"#"}) or it.cell_in(cells[i], {"-"}) and two and it.cell_in(cells[i + 1], {"-"}):
        while i < len(cells) and not it.cell_in(cells[i], {"\n"}):
            i += 1
        return i + 1
    if it.cell_in(cells[i], {"/"}) and two and it.cell_in(cells[i + 1], {"*"}):
        j = i + 2
        while j < len(cells):
            if it.cell_in(cells[j], {"*"}) and j + 1 < len(cells) and it.cell_in(cells[j + 1], {"/"}):
                return j + 2
            j += 1
        raise Open()
    return None


def quoted(it, cells, i):
    for q in QUOTES:
        if it.cell_in(cells[i], {q}):
            return q
    return None


def statements(it, cells):
    """[(start, end, line)]"""
    out, i, start = [], 0, None
    while i < len(cells):
        q = quoted(it, cells, i)
        if q:
            i = closing(it, cells, i, q)
            continue
        j = comment(it, cells, i)
        if j is not None:
            i = min(j, len(cells))
            continue
        if it.cell_in(cells[i], {";"}):
            if start is not None:
                out.append((start, i))
            start = None
        elif start is None and it.cell_in(cells[i], {"s", "S", "\u00e9"} | set("abcdefghijklmnopqrtuvwxyz")):
            start = i
        i += 1
    if start is not None:
        out.append((start, len(cells)))
    return [(a, b, 1 + sum(it.cell_in(c, {"\n"}) for c in cells[:a])) for a, b in out]


def names(it, cells):
    """quoted names: [(start, end)] of their contents"""
    out, i = [], 0
    while i < len(cells):
        q = quoted(it, cells, i)
        if q:
            j = closing(it, cells, i, q)
            if q == "`":
                out.append((i + 1, j - 1))
            i = j
            continue
        j = comment(it, cells, i)
        i = i + 1 if j is None else min(j, len(cells))
    return out


BEFORE = ["", "s ", "s '", "s 's\\", 's "', "s `", "s --", "s #", "s /*", "s /**", "s;", "--s\n", "s\n;\n", "/*s*/", "s 's'", "s /*'*/", "s -- '\n", "s # \"\n",
          "s\n's\n", "s -", "s /", "s '\\\\"]
AFTER = ["", ";s", "';s", "\n;s\ns;", "*/;s", '" `s";s']

NAMED = ["", "s `", "s `s`", "s `1 1` ", "s `1 1` `1 ", "s '`", 's "`', "s -- `\n", "s # `", "s /* ` ", "s /* ` */ `", "s `s'", 's `s"s`, `', "s `--", "s `/*`", "s `s#s` -- '\n"]
PLAIN = {"s", "S", "\u00e9", "1", "_"}


def check(ctx):
    ctx.rule("split", "a script is split at every ; outside of quotes and comments and nowhere else")
    ctx.rule("names", "the quoted names of a statement are the texts between backticks outside of strings and comments")
    it, _ = compiler_interp(ctx, cls=TextInterp, max_paths=400000)
    cls = it.get(PARSER)
    where = "%s:%d" % (ctx.project.relpath(cls.module.mod if hasattr(cls.module, "mod") else cls.module), cls.node.lineno)
    free = 4 if ctx.thorough else 3

    def cells_of(before, after, k):
        return text(before).cells + [Cell(ALPHABET) for _ in range(k)] + text(after).cells

    def show(cells, a, b):
        return "".join(map(repr, cells[a:b])).replace("\n", "\\n")

    def split(before, after, k):
        def entry(it):
            cells = cells_of(before, after, k)
            got = None
            try:
                p = it.instantiate(cls, [TextV(cells)], {})
                got = [(it.getattr(x, "sql"), it.getattr(x, "lineno")) for x in it.iterate(it.call(it.getattr(p, "split"), [], {}))]
            except Exception as e:
                if type(e).__name__ != "Raised":
                    raise
            try:
                want = statements(it, cells)
            except Open:
                return "" if got is None else "an unterminated text is accepted: %s" % show(cells, 0, len(cells))
            what = show(cells, 0, len(cells))
            if got is None:
                return "%s is rejected" % what
            if len(got) != len(want):
                return "%s gives %d statements of %d" % (what, len(got), len(want))
            for (t, line), (a, b, n) in zip(got, want):
                if not same(it, t, cells[a:b]):
                    return "%s gives %r instead of %s" % (what, t, show(cells, a, b))
                if not (isinstance(line, C) and line.v == n):
                    return "%s: %s is said to be in line %r, it is in line %d" % (what, show(cells, a, b), line, n)
            return ""
        return entry

    def same(it, t, cells):
        t = it.as_text(t)
        return t is not None and it.text_eq(t, TextV(cells))

    def mapped(before, after, k):
        def entry(it):
            cells = cells_of(before, after, k)
            count[0] = 0
            comp = new_compiler(it)
            got = it.as_text(it.call(it.getattr(comp, "parse_mapping"), [TextV(cells)], {}))
            try:
                want = names(it, cells)
            except Open:
                return ""
            what = show(cells, 0, len(cells))
            mapping = [(kk, v) for kk, v in comp.attrs["mapping"].d.values()]
            out, last = [], 0
            for a, b in want:
                out += cells[last:a]
                last = b
                if all(it.cell_in(c, PLAIN) for c in cells[a:b]):
                    out += cells[a:b]
                    continue
                keys = [kk for kk, v in mapping if same(it, v, cells[a:b])]
                if not keys:
                    # kept as it is written
                    out += cells[a:b]
                    continue
                if len(keys) != 1:
                    return "%s: %d names stand for %s" % (what, len(keys), show(cells, a, b))
                if not all(c.isalnum() or c == "_" for c in keys[0].v):
                    return "%s: %s is replaced by %r, which is no name" % (what, show(cells, a, b), keys[0].v)
                out += text(keys[0].v).cells
            out += cells[last:]
            if got is None or len(got.cells) != len(out) or not it.text_eq(got, TextV(out)):
                return "%s becomes %r instead of %s" % (what, got, "".join(map(repr, out)))
            return ""
        return entry

    count = [0]

    def uuid(it, a, kw, n):
        count[0] += 1
        return Inst(None, {"int": C(900000 + count[0]), "hex": C("u%d" % count[0])}, name="uuid")
    it.models["uuid.uuid1"] = it.models["uuid.uuid4"] = uuid
    for i, before in enumerate(BEFORE):
        for j, after in enumerate(AFTER):
            k = free if (i + j) % 5 == 0 else free - 1
            run(ctx, it, "split", "%s%s%s" % (show(text(before).cells, 0, 99), "?" * k, show(text(after).cells, 0, 99)), split(before, after, k), where)
    w_map = at(ctx, it, "parse_mapping")
    for i, before in enumerate(NAMED):
        for j, after in enumerate(("", "`s", "*/ `1 1`", "\n`s`")):
            k = free - 1
            run(ctx, it, "names", "%s%s%s" % (show(text(before).cells, 0, 99), "?" * k, show(text(after).cells, 0, 99)), mapped(before, after, k), w_map)
    ctx.require("split", 100)
    ctx.require("names", 40)
