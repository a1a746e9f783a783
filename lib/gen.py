"""Generators of columns whose values repeat, collide and spread."""
from val import *

INTS = ["U8", "I16", "I32", "I64"]


def names(r, n):
    """symbol names: short, long, differing only at the end, at the start or in the middle, prefixes of each other"""
    m = r.randrange(6)
    if m == 0:
        return [r.choice(["", "k", "key-", "a long prefix of a name "]) + str(r.randrange(1000 * n)) for _ in range(n)]
    k = r.choice([3, 7, 8, 15, 16, 31, 32, 40, 63, 64, 100, 255, 256, 300])
    pre = "".join(r.choice(ALNUM) for _ in range(k))
    if m == 1:
        return [pre + "%x" % r.randrange(4 * n) for _ in range(n)]
    if m == 2:
        return ["%x" % r.randrange(4 * n) + pre for _ in range(n)]
    if m == 3:
        return [pre[:k // 2] + "%x" % r.randrange(4 * n) + pre[k // 2:] for _ in range(n)]
    if m == 4:
        return [(pre * (1 + n // k))[:1 + j] for j in range(n)] if n < 400 else ["n%d" % r.randrange(4 * n) for _ in range(n)]
    return ["".join(r.choice("abcdefgXYZ019 _-.\x7f\xe9\xfe") for _ in range(r.randrange(1, 13))) for _ in range(n)]


def strs(r, n):
    return ["".join(r.choice("abAB01 ") for _ in range(r.randrange(1, r.choice([3, 20])))) for _ in range(n)]


def col(r, T, n, nulls=None):
    """a vector whose values repeat: the domain is small or wide, dense or scattered over the whole range"""
    pn = r.choice([0, 0, 0.05, 0.4]) if nulls is None else nulls
    if T in ("B8", "U8", "C8"):
        pn = 0
    k = r.choice([1, 2, 3, 8, max(1, n // 4), max(1, n), 4 * n + 1])
    if T == "SYMBOL":
        dom = names(r, min(k, 5000))
    elif T == "list":
        dom = [("C8", s) for s in strs(r, min(k, 2000))]
        if r.random() < 0.2:
            dom += [("i64", r.randrange(5)), ("f64", 1.5), ("I64", [1, 2]), ("symbol", "q"), ("list", [("i64", 1), ("C8", "x")])]
        pn = 0
    elif T == "C8":
        lo = r.choice([32, 97])
        dom = [chr(r.randrange(lo, 127)) for _ in range(min(k, 95))]
        return "".join(r.choice(dom) for _ in range(n))
    elif T == "GUID":
        base = r.choice([0, r.getrandbits(128)])
        sh = r.choice([0, 64, 120])
        dom = ["%032x" % ((base ^ (r.getrandbits(r.choice([3, 8, 128])) << sh)) & (2**128 - 1) or 1) for _ in range(min(k, 5000))]
    elif T == "B8":
        dom = r.choice([[0], [1], [0, 1]])
    elif T == "F64":
        dom = [float(x) for x in (elem(r, "F64", r.choice(["small", "full", "edge"]), 0) for _ in range(min(k, 5000)))]
        dom = [0.0 if x == 0 else x for x in dom]
    else:
        lo, hi = rng_int(T)
        m = r.randrange(6)
        if m == 0:
            dom = [elem(r, T, "small", 0) for _ in range(min(k, 5000))]
        elif m == 1:
            dom = [elem(r, T, "full", 0) for _ in range(min(k, 5000))]
        elif m == 2:
            dom = [r.choice([lo, hi, lo + 1, hi - 1, 0, -1 if lo < 0 else 1, 7]) for _ in range(min(k, 5000))]
        elif m == 3:
            b = r.randint(lo, hi)
            dom = [min(hi, max(lo, b + r.randrange(k + 1))) for _ in range(min(k, 5000))]
        elif m == 4:
            # same slot of a hash table: multiples of a stride
            st = r.choice([1 << 20, 1 << 16, 4096, 3, 97])
            dom = [min(hi, max(lo, r.choice([1, -1]) * st * r.randrange(k + 1))) for _ in range(min(k, 5000))]
        else:
            dom = [elem(r, T, "mid", 0) for _ in range(min(k, 5000))]
    return [None if pn and r.random() < pn else r.choice(dom) for _ in range(n)]


def hk(x):
    return repr(x) if isinstance(x, (list, tuple)) else x


def firsts(xs):
    d = {}
    for i, x in enumerate(xs):
        d.setdefault(hk(x), i)
    return d
