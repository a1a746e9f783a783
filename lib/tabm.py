"""Model of select on Python columns: row expressions, filters, groups and aggregates."""
from gen import *
from aggm import agg, nn

ALLT = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID", "list"]
ORDT = ["I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL"]


def mk(T, xs):
    return (T, "".join(xs) if T == "C8" else list(xs))


def pick(T, xs, ids):
    return mk(T, [xs[i] for i in ids])


class Tab:
    """columns: name -> (type, elements)"""

    def __init__(self, names, cols):
        self.names, self.cols = list(names), list(cols)

    def n(self):
        return len(self.cols[0][1])

    def get(self, c):
        return self.cols[self.names.index(c)]

    def val(self):
        return ("table", ("SYMBOL", self.names), ("list", [mk(*c) for c in self.cols]))

    def take(self, ids):
        return Tab(self.names, [pick(T, xs, ids) for T, xs in self.cols])


def cmpkey(T):
    if T == "SYMBOL":
        return lambda x: (0, b"") if x is None else (1, x.encode("latin1"))
    return lambda x: (0, 0) if x is None else (1, x)


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


class Gen:
    """Random where clauses over a table. Constants are bound as globals q0, q1, ..."""

    def __init__(self, r, tab):
        self.r, self.tab, self.binds = r, tab, []

    def const(self, T, x):
        nm = "q%d" % len(self.binds)
        self.binds.append((nm, (T.lower(), x)))
        return nm

    def where(self, depth=2):
        """-> (text, list of 0/1)"""
        r, t = self.r, self.tab
        n = t.n()
        m = r.random()
        if depth and m < 0.35:
            op = r.choice(["and", "or"])
            a, x = self.where(depth - 1)
            b, y = self.where(depth - 1)
            if op == "and":
                return "(and %s %s)" % (a, b), [p & q for p, q in zip(x, y)]
            return "(or %s %s)" % (a, b), [p | q for p, q in zip(x, y)]
        if depth and m < 0.42:
            a, x = self.where(depth - 1)
            return "(not %s)" % a, [1 - p for p in x]
        cand = [c for c, (T, _) in zip(t.names, t.cols) if T in ORDT]
        if not cand:
            xs = [r.randrange(2) for _ in range(n)]
            nm = "q%d" % len(self.binds)
            self.binds.append((nm, ("B8", xs)))
            return nm, xs
        c = r.choice(cand)
        T, xs = t.get(c)
        k = cmpkey(T)
        if m < 0.5 and T in ("I16", "I32", "I64", "SYMBOL", "DATE", "TIME", "TIMESTAMP"):
            ys = [r.choice(xs) for _ in range(r.randrange(0, 6))] if n else []
            nm = "q%d" % len(self.binds)
            self.binds.append((nm, (T, ys)))
            s = set(ys)
            return "(in %s %s)" % (c, nm), [int(x in s) for x in xs]
        other = [d for d in cand if d != c and t.get(d)[0] == T]
        op = r.choice(list(OPS))
        if other and m < 0.62:
            d = r.choice(other)
            return "(%s %s %s)" % (op, c, d), [int(OPS[op](k(x), k(y))) for x, y in zip(xs, t.get(d)[1])]
        if m < 0.68 and T in ("I64", "I32", "TIMESTAMP", "DATE") and nn(xs):
            f = r.choice(["max", "min"])
            y = (max if f == "max" else min)(nn(xs))
            return "(%s %s (%s %s))" % (op, c, f, c), [int(OPS[op](k(x), k(y))) for x in xs]
        y = r.choice(xs) if xs and r.random() < 0.8 else elem(r, T, "small", 0.05)
        if T == "SYMBOL":
            op = r.choice(["==", "!="])
        if r.random() < 0.15:
            return "(%s %s %s)" % (op, self.const(T, y), c), [int(OPS[op](k(y), k(x))) for x in xs]
        return "(%s %s %s)" % (op, c, self.const(T, y)), [int(OPS[op](k(x), k(y))) for x in xs]


def groups(keys, ids):
    """row numbers of each distinct key combination, in order of first appearance"""
    d = {}
    for i in ids:
        d.setdefault(tuple(hk(k[i]) for k in keys), []).append(i)
    return list(d.values())


def take_ids(n, tk):
    """(take table tk) as row numbers; tk int"""
    if n == 0:
        return []
    return [i % n for i in range(tk)] if tk >= 0 else [(i + tk) % n for i in range(-tk)]
