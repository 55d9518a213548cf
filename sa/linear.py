"""linear inequalities over symbolic integers: normal forms of index expressions and a rational entailment test

A linear form is {atom: coefficient, None: constant}.  Facts are forms F meaning F >= 0.
Entailment of a goal G >= 0 holds when the facts plus -G-1 >= 0 (integers) have no rational solution
(Fourier-Motzkin elimination; the polyhedral abstract domain's inclusion test).
"""
from fractions import Fraction


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c or x is None}


def const(c):
    return {None: Fraction(c)}


def form(key):
    """linear form of a key (see interp.key_of); None when it is not linear"""
    if key[0] == "n":
        return const(key[1])
    if key[0] == "t" and key[1] in ("+", "-") and len(key) == 4:
        a, b = form(key[2]), form(key[3])
        if a is None or b is None:
            return None
        return add(a, b, 1 if key[1] == "+" else -1)
    if key[0] == "t" and key[1] in ("neg", "u-", "-u") and len(key) == 3:
        a = form(key[2])
        return None if a is None else add(const(0), a, -1)
    if key[0] == "t" and key[1] in ("int", "conv:ensure_int") and len(key) == 3:
        return form(key[2])
    if key[0] == "t" and key[1] == "*" and len(key) == 4:
        for p, q in ((2, 3), (3, 2)):
            if key[p][0] == "n":
                a = form(key[q])
                return None if a is None else {x: c * Fraction(key[p][1]) for x, c in a.items()}
    if key[0] in ("o", "t"):
        return {key: Fraction(1), None: Fraction(0)}
    return None


def facts(cmpf):
    """integer inequalities implied by the path's comparison facts"""
    out, neq = [], []
    for (a, b), s in cmpf.items():
        fa, fb = form(a), form(b)
        if fa is None or fb is None:
            continue
        d = add(fb, fa, -1)                     # b - a
        if s == {"<"}:
            out.append(add(d, const(-1)))
        elif s == {"<", "="}:
            out.append(d)
        elif s == {"="}:
            out.append(d)
        elif s == {"<", ">"}:
            neq.append(d)
    return out, neq


def feasible(fs):
    fs = [dict(f) for f in fs]
    while True:
        atoms = {x for f in fs for x, c in f.items() if x is not None and c}
        if not atoms:
            return all(f.get(None, 0) >= 0 for f in fs)
        x = min(atoms, key=lambda a: (sum(1 for f in fs if f.get(a)), repr(a)))
        pos = [f for f in fs if f.get(x, 0) > 0]
        neg = [f for f in fs if f.get(x, 0) < 0]
        rest = [f for f in fs if not f.get(x, 0)]
        for p in pos:
            for n in neg:
                g = {}
                for src, k in ((p, -n[x]), (n, p[x])):
                    g = add(g, {a: c * k for a, c in src.items()})
                g.pop(x, None)
                g.setdefault(None, Fraction(0))
                rest.append(g)
        seen, fs = set(), []
        for f in rest:
            k = tuple(sorted(((repr(a), c) for a, c in f.items())))
            if k not in seen:
                seen.add(k)
                fs.append(f)


def split_neq(fs, neq):
    """case-split disequalities"""
    if not neq:
        return [fs]
    d, rest = neq[0], neq[1:]
    return split_neq(fs + [add(d, const(-1))], rest) + split_neq(fs + [add(add(const(0), d, -1), const(-1))], rest)


def entails(fs, neq, goal):
    """facts |= goal >= 0 over the integers"""
    ng = add(add(const(0), goal, -1), const(-1))
    return all(not feasible(c + [ng]) for c in split_neq(fs, neq[:4]))


def consistent(fs, neq):
    return any(feasible(c) for c in split_neq(fs, neq[:4]))


def same(a, b):
    d = add(a, b, -1)
    return not any(c for c in d.values())
