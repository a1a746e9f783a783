"""Random values of every data type, nested."""
from gen import *

VT = ["B8", "U8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID", "C8"]


def text(r, n):
    m = r.randrange(4)
    if m == 0:
        return "".join(chr(r.randrange(256)) for _ in range(n))
    if m == 1:
        return "\0" * n
    return "".join(chr(r.randrange(32, 127)) for _ in range(n))


def vector(r, n=None):
    T = r.choice(VT)
    if n is None:
        n = r.choice([0, 1, 2, 3, 7, 8, 15, 64, 200]) if r.random() < 0.97 else r.choice([4096, 20000])
    if T == "C8":
        return ("C8", text(r, n))
    if T == "SYMBOL":
        xs = names(r, n) if n else []
        return (T, [None if r.random() < 0.1 or x == "\xff" else x for x in xs])
    return (T, [elem(r, T, r.choice(["small", "edge", "full"]), 0.15) for _ in range(n)])


def atom(r):
    T = r.choice(VT)
    if T == "C8":
        return ("c8", chr(r.randrange(256)))
    if T == "SYMBOL":
        x = names(r, 1)[0]
        return ("symbol", None if r.random() < 0.2 or x == "\xff" else x)
    return (T.lower(), elem(r, T, r.choice(["small", "edge", "full"]), 0.2))


def value(r, depth=3):
    m = r.random()
    if depth == 0 or m < 0.25:
        return atom(r)
    if m < 0.55:
        return vector(r)
    if m < 0.8:
        k = r.choice([0, 1, 2, 3, 5, 9])
        return ("list", [value(r, depth - 1) for _ in range(k)])
    if m < 0.9:
        n = r.choice([0, 1, 2, 4, 9])
        k = vector(r, n) if r.random() < 0.8 else ("list", [value(r, 0) for _ in range(n)])
        v = vector(r, n) if r.random() < 0.4 else ("list", [value(r, depth - 1) for _ in range(n)])
        return ("dict", k, v)
    nc = r.choice([1, 2, 3, 6])
    n = r.choice([0, 1, 2, 5, 17])
    cols = []
    for _ in range(nc):
        if r.random() < 0.15 and n:
            cols.append(("list", [value(r, depth - 1) for _ in range(n)]))
        else:
            cols.append(vector(r, n))
    return ("table", ("SYMBOL", ["c%d" % i for i in range(nc)]), ("list", cols))


def size(v):
    """rough number of bytes of a value"""
    if isinstance(v, (tuple, list)):
        return 8 + sum(size(x) for x in v)
    return 8 + (len(v) if isinstance(v, str) else 0)
