"""C10: set, search and selection operations against their definition on Python lists."""
import bisect, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from gen import *

DIST = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "SYMBOL", "GUID", "list"]
GROUP = ["B8", "U8", "C8", "I64", "TIMESTAMP", "F64", "SYMBOL", "GUID", "list"]
FINDV = ["B8", "U8", "C8", "I32", "DATE", "TIME", "I64", "SYMBOL", "TIMESTAMP", "F64", "GUID", "list"]
FINDA = ["B8", "C8", "F64", "GUID", "I64", "SYMBOL", "TIMESTAMP"]
INV = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "SYMBOL", "GUID"]
BIN = ["I32", "DATE", "TIME", "I64", "TIMESTAMP"]


def is_null_in(x):
    return x is None


def distinct_ok(T, xs):
    def f(got):
        if got is None or got[0] != T:
            return "type %s" % (got[0] if got else None)
        ys = [hk(y) for y in got[1]]
        want = set(hk(x) for x in xs)
        if len(set(ys)) != len(ys):
            return "an element occurs twice"
        if set(ys) - want:
            return "elements that do not occur: %s" % list(set(ys) - want)[:5]
        if want - set(ys) - {None}:
            return "missing: %s" % list(want - set(ys) - {None})[:5]
        if T not in ("GUID", "list", "SYMBOL", "C8") and T in INTS + ["DATE", "TIME", "TIMESTAMP", "B8"]:
            pass
        return None
    return f


def run():
    c = Check("C10")
    c.rule = ("one operation on generated operands compared with its definition over Python lists; distinct by operation, types, "
              "lengths and data")
    r = c.sub("gen")
    R, A = Run(c, "rel", 1, batch=120), Run(c, "asan", 1, batch=120)
    R4, A3 = Run(c, "rel", 4, batch=30), Run(c, "asan", 3, batch=30)
    sizes = [0, 1, 2, 3, 4, 7, 16, 33, 100, 255, 256, 300, 1000]
    big = [5000, 16383, 16384, 16385, 40000]

    def pick(i, n):
        if n > 2000:
            return [R4, R, A3][i % 3]
        return A if i % 3 == 0 else R

    def size(i, nb):
        return r.choice(big) if i < nb else sizes[i % len(sizes)]

    nb = c.scale(3, 12)
    for T in DIST:
        for i in range(c.scale(16, 160)):
            n = size(i, nb if T not in ("list",) else 1)
            xs = col(r, T, n)
            if n == 0 and T == "list":
                continue
            q = pick(i, n)
            q.add("distinct", [("x", (T, xs))], "(distinct x)", distinct_ok(T, xs), key="distinct " + T)
    for T in GROUP:
        for i in range(c.scale(14, 150)):
            n = size(i, nb)
            xs = col(r, T, n)
            if n == 0:
                continue
            d = {}
            for j, x in enumerate(xs):
                d.setdefault(hk(x), []).append(j)
            ks = [xs[v[0]] for v in d.values()]
            if T == "C8":
                ks = "".join(ks)
            want = ("dict", (T, ks), ("list", [("I64", v) for v in d.values()]))
            pick(i, n).add("group", [("x", (T, xs))], "(group x)", want, key="group " + T)

    # two operands drawn from overlapping domains
    def two(T, n, m, nulls=None):
        a = col(r, T, n + m, nulls)
        a = list(a)
        x, y = a[:n], a[n:]
        if r.random() < 0.4:
            y = list(col(r, T, m, nulls))
            for j in range(0, m, 3):
                if n:
                    y[j] = x[r.randrange(n)]
        if T == "C8":
            x, y = "".join(x), "".join(y)
        return x, y

    for T in FINDV:
        for i in range(c.scale(14, 150)):
            n, m = max(1, size(i, nb)), max(1, size(i + r.randrange(5), nb))
            if T == "list":
                n, m = min(n, 3000), min(m, 3000)
            x, y = two(T, n, m)
            f = firsts(x)
            pick(i, n + m).add("find-vector", [("x", (T, x)), ("y", (T, y))], "(find x y)", ("I64", [f.get(hk(v)) for v in y]),
                               key="find %s %s" % (T, T))
    for T in FINDA:
        for i in range(c.scale(6, 60)):
            n = max(1, size(i, 1))
            x, y = two(T, n, 1, 0)
            v = y[0]
            pick(i, n).add("find-atom", [("x", (T, x)), ("y", (T, y))], "(find x (at y 0))", ("i64", firsts(x).get(hk(v))),
                           key="find %s atom" % T)
    # in: same types and mixed integers
    pairs = [(T, T) for T in INV] * 2 + [(a, b) for a in INTS for b in INTS if a != b]
    for T, U in pairs:
        for i in range(c.scale(8, 80)):
            n, m = size(i, min(nb, 2)), size(i + r.randrange(7), min(nb, 2))
            if T == U:
                x, y = two(T, n, m)
            else:
                x, y = col(r, T, n), col(r, U, m)
                lo, hi = rng_int(T)
                for j in range(0, n, 2):
                    if m and r.random() < 0.7:
                        v = y[r.randrange(m)]
                        if v is None or lo <= v <= hi:
                            if v is not None or T != "U8":
                                x[j] = v
            s = set(y)
            pick(i, n + m).add("in-vector", [("x", (T, x)), ("y", (U, y))], "(in x y)", ("B8", [int(v in s) for v in x]),
                               key="in %s %s" % (T, U))
    # F64 without nulls
    for i in range(c.scale(8, 60)):
        n, m = size(i, 1), size(i + r.randrange(7), 0)
        x, y = two("F64", n, m, 0)
        s = set(y)
        pick(i, n + m).add("in-vector", [("x", ("F64", x)), ("y", ("F64", y))], "(in x y)", ("B8", [int(v in s) for v in x]),
                           key="in F64")
    # atom on the left
    for T in ["I16", "I32", "I64", "SYMBOL", "DATE", "TIME", "TIMESTAMP", "GUID", "C8", "F64"]:
        for i in range(c.scale(4, 40)):
            m = max(1, size(i, 0))
            x, y = two(T, 1, m, 0)
            pick(i, m).add("in-atom", [("x", (T, x)), ("y", (T, y))], "(in (at x 0) y)", ("b8", int(x[0] in set(y))), key="in %s atom" % T)
    # union, sect, except
    for T in DIST:
        for i in range(c.scale(7, 70)):
            n, m = size(i, min(nb, 2)), size(i + r.randrange(5), min(nb, 2))
            if T == "list":
                n, m = max(1, min(n, 3000)), max(1, min(m, 3000))
            x, y = two(T, n, m)
            pick(i, n + m).add("union", [("x", (T, x)), ("y", (T, y))], "(union x y)", distinct_ok(T, list(x) + list(y)), key="union " + T)
    for T in ["I64", "SYMBOL"]:
        for i in range(c.scale(20, 200)):
            n, m = size(i, nb), size(i + r.randrange(5), nb)
            x, y = two(T, n, m)
            s = set(y)
            pick(i, n + m).add("sect", [("x", (T, x)), ("y", (T, y))], "(sect x y)", (T, [v for v in x if v in s]), key="sect " + T)
            pick(i + 1, n + m).add("except", [("x", (T, x)), ("y", (T, y))], "(except x y)", (T, [v for v in x if v not in s]),
                                   key="except " + T)
            if y and y[0] is not None:
                pick(i, n + m).add("except-atom", [("x", (T, x)), ("y", (T, y))], "(except x (at y 0))", (T, [v for v in x if v != y[0]]),
                                   key="except atom " + T)
    # where and filter
    FT = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID", "list"]
    for i in range(c.scale(40, 300)):
        n = size(i, nb)
        p = r.choice([0, 0.01, 0.5, 0.99, 1])
        m = [int(r.random() < p) for _ in range(n)]
        pick(i, n).add("where", [("m", ("B8", m))], "(where m)", ("I64", [j for j in range(n) if m[j]]), key="where")
        T = FT[i % len(FT)]
        x = col(r, T, n)
        keep = [v for v, b in zip(x, m) if b]
        if T == "list" and (n == 0 or not keep):
            continue
        pick(i + 1, n).add("filter", [("x", (T, x)), ("m", ("B8", m))], "(filter x m)", (T, "".join(keep) if T == "C8" else keep),
                           key="filter " + T)
    for i in range(c.scale(10, 80)):
        n = max(1, size(i, 1))
        m = [int(r.random() < 0.5) for _ in range(n)]
        m[r.randrange(n)] = 1
        cols = [("a", "I64"), ("b", "SYMBOL"), ("c", "F64"), ("d", "C8")][:r.randrange(1, 5)]
        data = [(nm, T, col(r, T, n)) for nm, T in cols]
        want = ("table", ("SYMBOL", [d[0] for d in data]),
                ("list", [(T, (lambda k: "".join(k) if T == "C8" else k)([v for v, b in zip(x, m) if b])) for _, T, x in data]))
        b = [(nm, (T, x)) for nm, T, x in data] + [("m", ("B8", m))]
        e = "(filter (table [%s] (list %s)) m)" % (" ".join(d[0] for d in data), " ".join(d[0] for d in data))
        pick(i, n).add("filter-table", b, e, want, key="filter table")
    # bin and binr: the left operand ascending
    for T in BIN:
        for i in range(c.scale(16, 150)):
            n, m = size(i, 2), size(i + r.randrange(5), 2)
            x, y = two(T, n, m)
            K = lambda v: (0, 0) if v is None else (1, v)
            x = sorted(x, key=K)
            kx = [K(v) for v in x]
            pick(i, n + m).add("bin", [("x", (T, x)), ("y", (T, y))], "(bin x y)", ("I64", [bisect.bisect_right(kx, K(v)) - 1 for v in y]),
                               key="bin " + T)
            pick(i + 1, n + m).add("binr", [("x", (T, x)), ("y", (T, y))], "(binr x y)", ("I64", [bisect.bisect_left(kx, K(v)) for v in y]),
                                   key="binr " + T)
            if m:
                j = r.randrange(m)
                w = bisect.bisect_right(kx, K(y[j])) - 1
                pick(i, n + m).add("bin-atom", [("x", (T, x)), ("y", (T, y))], "(bin x (at y %d))" % j,
                                   (("i32" if T in ("I32", "DATE", "TIME") else "i64"), w), key="bin atom " + T)
                pick(i, n + m).add("binr-atom", [("x", (T, x)), ("y", (T, y))], "(binr x (at y %d))" % j,
                                   ("i64", bisect.bisect_left(kx, K(y[j]))), key="binr atom " + T)
    for q in (R, A, R4, A3):
        q.close()
    c.assumptions = ["distinct and union may order their result freely and may drop the null; F64 nulls are not used with in"]
    return c.finish(500)


main(run)
