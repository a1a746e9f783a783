"""C09: sorting against Python's stable sort; rows of tables stay whole."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from gen import names
from val import *

TYPES = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL"]


def key(T):
    if T in ("SYMBOL",):
        return lambda x: (0, b"") if x is None else (1, x.encode("latin1"))
    if T == "C8":
        return lambda x: x
    if T == "F64":
        return lambda x: (0, 0.0) if x is None else (1, x)
    return lambda x: (0, 0) if x is None else (1, x)


def perm(T, xs, desc=False):
    k = key(T)
    if not desc:
        return sorted(range(len(xs)), key=lambda i: k(xs[i]))
    # descending, equal elements in their original order
    return sorted(range(len(xs)), key=lambda i: k(xs[i]), reverse=True)


def dist(r, T, n):
    """a vector of a chosen distribution"""
    m = r.randrange(10)
    if T == "SYMBOL":
        dom = names(r, r.choice([2, 3, 8, 60, 500]))
        return [None if r.random() < 0.03 else r.choice(dom) for _ in range(n)]
    if T == "C8":
        return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(32, 127), r.randrange(97, 100)])) for _ in range(n))
    pn = r.choice([0, 0, 0.02, 0.3]) if T not in ("B8", "U8") else 0
    if m < 3:
        mode = ["small", "mid", "edge"][m]
        xs = [elem(r, T, mode, pn) for _ in range(n)]
    elif m < 6:
        xs = [elem(r, T, "full", pn) for _ in range(n)]
    elif m == 6:
        xs = [elem(r, T, "small", 0)] * n
    elif m == 7:
        lo, hi = rng_int(T) if T != "F64" else (-1000, 1000)
        b = r.randint(max(lo, -2**31 + 2), min(hi, 2**31 - 1)) if hi > 1000 else 0
        xs = sorted(min(hi, max(lo, b + r.randrange(0, max(2, n)))) for _ in range(n))
        if r.random() < 0.5:
            xs.reverse()
        if T == "F64":
            xs = [float(x) for x in xs]
    elif m == 8 and T not in ("B8", "U8", "F64"):
        # values that differ in one 16-bit part only
        sh = r.choice([0, 16, 32, 48]) if BITS[T] == 64 else r.choice([0, 16]) if BITS[T] == 32 else 0
        xs = [(r.randrange(0, 2**min(16, BITS[T] - sh - 1)) << sh) * r.choice([1, -1]) for _ in range(n)]
    else:
        xs = [elem(r, T, r.choice(["small", "full", "edge"]), pn) for _ in range(n)]
    if T == "F64":
        xs = [0.0 if x == 0 else x for x in xs]
    return xs


def run():
    c = Check("C09")
    c.rule = ("one sort of a generated vector, list, dictionary or table compared with the stable reference order; distinct by "
              "operation, type, length and data")
    r = c.sub("gen")
    R, A, R4, A3 = Run(c, "rel", 1, batch=150), Run(c, "asan", 1, batch=150), Run(c, "rel", 4, batch=40), Run(c, "asan", 3, batch=40)
    sizes = [0, 1, 2, 3, 5, 8, 16, 31, 32, 33, 34, 50, 64, 65, 100, 127, 128, 200, 255, 256, 257, 400]
    big = [1000, 5000, 16383, 16384, 16385, 33000, 50001]

    def check(q, T, xs, tag=""):
        v = (T, xs)
        n = len(xs)
        up, dn = perm(T, xs), perm(T, xs, True)
        take = (lambda p: "".join(xs[i] for i in p)) if T == "C8" else (lambda p: [xs[i] for i in p])
        inv = [0] * n
        for k, i in enumerate(up):
            inv[i] = k
        ops = [("iasc", ("I64", up)), ("idesc", ("I64", dn)), ("asc", (T, take(up))), ("desc", (T, take(dn))), ("rank", ("I64", inv))]
        for op, w in ops:
            q.add(op + tag, [("x", v)], "(%s x)" % op, w, key="%s %s%s" % (op, T, tag))
    for T in TYPES:
        for i in range(c.scale(26, 300)):
            n = sizes[i % len(sizes)]
            check(A if i % 3 == 0 else R, T, dist(r, T, n))
        for i in range(c.scale(3, 20)):
            n = r.choice(big)
            check([R, R4, A3][i % 3], T, dist(r, T, n), "-big")
    # xrank splits into equal buckets when the length divides
    for i in range(c.scale(30, 300)):
        T = r.choice(["I64", "F64", "I32", "SYMBOL"])
        k = r.randrange(1, 6)
        n = k * r.randrange(1, 12)
        xs = dist(r, T, n)
        inv = [0] * n
        for p, j in enumerate(perm(T, xs)):
            inv[j] = p
        R.add("xrank", [("x", (T, xs))], "(xrank x %d)" % k, ("I64", [p * k // n for p in inv]), key="xrank " + T)
    # lists of strings and of numbers
    for i in range(c.scale(60, 600)):
        n = r.choice([1, 2, 5, 20, 33, 40, 90])
        if i % 2:
            ss = ["".join(r.choice("abc") for _ in range(r.randrange(0 if i % 4 == 1 else 1, 5))) for _ in range(n)]
            kk = lambda s: s.encode("latin1")
            xs = [("C8", s) for s in ss]
        else:
            ss = [r.randrange(-5, 6) for _ in range(n)]
            kk = lambda s: s
            xs = [("i64", s) for s in ss]
        up = sorted(range(n), key=lambda i: kk(ss[i]))
        dn = sorted(range(n), key=lambda i: kk(ss[i]), reverse=True)
        q = A if i % 3 == 0 else R
        for op, w in (("iasc", ("I64", up)), ("idesc", ("I64", dn)), ("asc", ("list", [xs[i] for i in up])), ("desc", ("list", [xs[i] for i in dn]))):
            q.add(op + "-list", [("x", ("list", xs))], "(%s x)" % op, w, key=op + " list")
    # dictionaries sort by value, keys following
    for i in range(c.scale(40, 400)):
        n = r.choice([1, 2, 7, 33, 60])
        T = r.choice(["I64", "F64", "SYMBOL", "DATE", "I32"])
        xs = dist(r, T, n)
        ks = ["k%d" % j for j in range(n)]
        r.shuffle(ks)
        for op, p in (("asc", perm(T, xs)), ("desc", perm(T, xs, True))):
            (A if i % 3 == 0 else R).add(op + "-dict", [("x", ("dict", ("SYMBOL", ks), (T, xs)))], "(%s x)" % op,
                                         ("dict", ("SYMBOL", [ks[j] for j in p]), (T, [xs[j] for j in p])), key=op + " dict")
    # tables: one or more sort columns, every other column follows its row
    for i in range(c.scale(60, 800)):
        n = r.choice([1, 2, 6, 20, 33, 64, 150]) if i % 20 else r.choice([17000, 20000])
        ncol = r.randrange(2, 5)
        names = ["a", "b", "c", "d"][:ncol]
        types = [r.choice(TYPES[3:]) for _ in names]
        cols = []
        for j, T in enumerate(types):
            if j < 2:
                cols.append((T, [elem(r, T, "small", 0.1) for _ in range(n)]))
            else:
                cols.append((T, dist(r, T, n)))
        if types[0] == "F64" or types[1] == "F64":
            cols = [(T, [0.0 if T == "F64" and x == 0 else x for x in xs]) for T, xs in cols]
        cols.append(("list", [("C8", "r%d" % j) for j in range(n)]) if n < 1000 else ("I64", list(range(n))))
        names = names + ["row"]
        t = ("table", ("SYMBOL", names), ("list", cols))
        by = r.sample(range(ncol), r.randrange(1, ncol + 1))
        for op, desc in (("xasc", False), ("xdesc", True)):
            p = list(range(n))
            for j in reversed(by):
                k = key(cols[j][0])
                p.sort(key=lambda i: k(cols[j][1][i]), reverse=desc)
            w = ("table", ("SYMBOL", names), ("list", [(T, [xs[i] for i in p]) for T, xs in cols]))
            q = (A if i % 3 == 0 else R) if n < 1000 else R4
            e = "(%s t [%s])" % (op, " ".join(names[j] for j in by)) if len(by) > 1 or i % 2 else "(%s t '%s)" % (op, names[by[0]])
            q.add(op, [("t", t)], e, w, key=op, ident=(i, op))
            if i % 5 == 0:
                q.add(op + "-source", [], "t", t, key=op + " changed its source", ident=(i, op))
    # a sorted vector, changed and sorted again: being marked sorted must not outlive being sorted
    DER = ["(neg X)", "(- 10 X)", "(* X -1)", "(reverse X)", "(concat X X)", "(concat X 0)", "(concat X [5 -100])", "(take X -3)", "(at X [0 2 1])",
           "(do (set z X) (alter 'z concat -50) z)", "(do (set z X) (set z2 z) (alter 'z set 0 99) z)", "(do (set z X) (alter 'z + 0 1000) z)",
           "(do (set z X) (insert 'z -77) z)", "(raze (list X X))", "(filter X (!= X 1))", "(except X 1)", "(union X [100 -100])", "(sect X [2 1 0])",
           "(map (fn [v] (* v -1)) X)", "(% X 3)", "(xbar X 5)", "(as 'I64 (as 'F64 X))", "(remove X 0)", "(take X [1 2])", "(distinct X)", "(distinct (neg X))",
           "(+ X [5 -3 0 100])", "(- X X)", "(let (y X) (neg y))", "(if true (neg X) X)", "(value (dict [p q r s] (neg X)))", "(first (list (neg X)))",
           "(rank X)", "(iasc (neg X))", "(fold-left concat X [-5 7])", "(within X [0 5])", "(== X 2)", "(at (table [a b] (list (neg X) X)) 'a)",
           "(at (select {from: (table [a] (list X)) where: (!= a 0) b: (neg a)}) 'b)", "(in X [1 2])", "(de (ser X))", "(as 'I32 X)", "(as 'F64 (neg X))"]
    for i in range(c.scale(3, 40)):
        for d in DER:
            for so in ("asc", "desc"):
                xs = [r.randrange(-9, 10) for _ in range(4)]
                x0 = "(%s [%s])" % (so, " ".join(map(str, xs)))
                e = d.replace("X", x0) if i % 2 else d.replace("X", "w")
                pre = "" if i % 2 else "(set w %s) " % x0
                e = "(do %s(set a0 %s) (list a0 (asc a0) (desc a0) (asc (asc a0)) (desc (asc a0)) (asc (desc a0)) (iasc (asc a0)) (rank a0)))" % (pre, e)

                def judge(got):
                    if got[0] == "err":
                        return None
                    if got[0] != "list":
                        return "want a list"
                    a = got[1][0]
                    if a[0] not in CODE:
                        return None
                    n = len(a[1])
                    up, dn = perm(a[0], a[1]), perm(a[0], a[1], True)
                    U, D = (a[0], [a[1][j] for j in up]), (a[0], [a[1][j] for j in dn])
                    inv = [0] * n
                    for p, j in enumerate(up):
                        inv[j] = p
                    for nm, w, g in zip(("asc", "desc", "asc asc", "desc asc", "asc desc", "iasc asc", "rank"), (U, D, U, D, U, ("I64", list(range(n))), ("I64", inv)), got[1][1:]):
                        if not same(w, g):
                            return "%s of %s: %s" % (nm, show(a), diff(w, g))
                (A if i % 3 == 0 else R).add("resort", [], e, judge, key="resort " + d)
    for q in (R, A, R4, A3):
        q.close()
    return c.finish(2000)


main(run)
