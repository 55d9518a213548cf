"""Queries the checks of execution use: name -> (columns or None for *, builder taking further clauses)"""


def queries(s):
    t = lambda: s.table("t")
    ab = lambda: [s.col("a"), s.col("b")]
    avg = lambda c, n="v": s.alias(s.node("Avg", this=s.col(c)), n)
    sub = lambda: s.node("Subquery", this=s.select([s.col("a")], t(), where=s.b("GT", s.col("b"), s.num(1))),
                         alias=s.node("TableAlias", this=s.ident("d")))
    return {
        "a": (["a"], lambda **k: s.select([s.col("a")], t(), **k)),
        "a, b": (["a", "b"], lambda **k: s.select(ab(), t(), **k)),
        "a, b, 1 as c": (["a", "b", "c"], lambda **k: s.select(ab() + [s.alias(s.num(1), "c")], t(), **k)),
        "a + b as v": (["v"], lambda **k: s.select([s.alias(s.b("Add", s.col("a"), s.col("b")), "v")], t(), **k)),
        "a where": (["a"], lambda **k: s.select([s.col("a")], t(), where=s.b("EQ", s.col("b"), s.num(1)), **k)),
        "a order by b limit 2": (["a"], lambda **k: s.select([s.col("a")], t(), order=[s.ordered(s.col("b"))], limit=s.num(2), **k)),
        "distinct a": (["a"], lambda **k: s.select([s.col("a")], t(), distinct=True, **k)),
        "avg(a)": (["v"], lambda **k: s.select([avg("a")], t(), **k)),
        "sum(a), avg(b) by c": (["c", "s", "v"], lambda **k: s.select(
            [s.col("c"), s.alias(s.node("Sum", this=s.col("a")), "s"), avg("b")], t(), group=[s.col("c")], **k)),
        "count(distinct a)": (["n"], lambda **k: s.select(
            [s.alias(s.node("Count", this=s.node("Distinct", expressions=[s.col("a")])), "n")], t(), **k)),
        "count(distinct a), max(b) by c": (["c", "n", "m"], lambda **k: s.select(
            [s.col("c"), s.alias(s.node("Count", this=s.node("Distinct", expressions=[s.col("a")])), "n"),
             s.alias(s.node("Max", this=s.col("b")), "m")], t(), group=[s.col("c")], **k)),
        "having": (["c", "v"], lambda **k: s.select([s.col("c"), avg("a")], t(), group=[s.col("c")],
                                               having=s.b("GT", s.col("v"), s.num(1)), **k)),
        "derived": (["a"], lambda **k: s.select([s.col("a", "d")], sub(), **k)),
        "*": (None, lambda **k: s.select([s.node("Star")], t(), **k)),
        "const": (["v"], lambda **k: s.select([s.alias(s.num(5), "v")], **k)),
    }
