"""C16: iterators against the explicit loop of single calls, computed in Python."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from gen import *

VT = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID"]


class Err(Exception):
    pass


def elems(v):
    """collection -> values of its elements; None for an atom"""
    if v[0] == "list":
        return list(v[1])
    if v[0] in VT:
        return [(v[0].lower(), x) for x in v[1]]
    return None


def pack(rs, empty=None):
    """results of the calls -> the collection: a vector when all are atoms of one type"""
    if not rs:
        return empty
    t = rs[0][0]
    if t.upper() in VT and t != t.upper() and all(x[0] == t for x in rs):
        return (t.upper(), "".join(x[1] for x in rs) if t == "c8" else [x[1] for x in rs])
    return ("list", rs)


def i64(v):
    if v[0] != "i64":
        raise Err()
    return v[1]


def wrap(x):
    x &= 2**64 - 1
    x = x - 2**64 if x >= 2**63 else x
    return None if x == -2**63 else x


def add(a, b):
    return None if a is None or b is None else wrap(a + b)


def sub(a, b):
    return None if a is None or b is None else wrap(a - b)


# name -> (text, python); functions of I64 elements (n) or of any elements (a)
U_NUM = [("(fn [x] (+ x 1))", lambda x: ("i64", add(i64(x), 1))), ("(fn [x] (if (> x 3) 1.5 x))", lambda x: ("f64", 1.5) if i64(x) is not None and i64(x) > 3 else x),
         ("(fn [x] (if (> x 8) (raise \"e\") (- 0 x)))", None), ("(fn [x] (til (% x 5)))", lambda x: ("I64", list(range(i64(x) % 5)))),
         ("(fn [x] (if (== 0 (% x 2)) (list x) x))", lambda x: ("list", [x]) if i64(x) % 2 == 0 else x),
         ("(fn [x] (if (== 0 (% x 3)) 'sym x))", lambda x: ("symbol", "sym") if i64(x) % 3 == 0 else x),
         ("(fn [x] (as 'f64 x))", lambda x: ("f64", None if i64(x) is None else float(i64(x)))),
         ("(fn [x] (do (let y (+ x 2)) (let z (- y x)) (list z y)))", lambda x: ("I64", [2, i64(x) + 2])),
         ("(fn [x] (sum (til (% x 7))))", lambda x: ("i64", sum(range(i64(x) % 7)))),
         ("(fn [x] (if (== x 0) (list) (if (== x 1) null x)))", lambda x: ("list", []) if i64(x) == 0 else ("null",) if i64(x) == 1 else x),
         ("(fn [x] (concat \"s\" (take \"xyz\" (% x 3))))", lambda x: ("C8", "s" + "xyz"[:i64(x) % 3])),
         ("(fn [x] (try (if (> x 4) (raise \"q\") x) (fn [e] -1)))", lambda x: x if i64(x) <= 4 else ("i64", -1))]
U_ANY = [("(fn [x] x)", lambda x: x), ("(fn [x] (list x x))", lambda x: pair(x, x)), ("(fn [x] 7)", lambda x: ("i64", 7)), ("(fn [x] null)", lambda x: ("null",)),
         ("(fn [x] (list))", lambda x: ("list", [])), ("(fn [x] (count x))", lambda x: ("i64", len(x[1]) if elems(x) is not None else 1))]
B_NUM = [("(fn [x y] (+ x (* 2 y)))", lambda x, y: ("i64", add(i64(x), None if i64(y) is None else wrap(2 * i64(y))))), ("(fn [a b] (- a b))", lambda x, y: ("i64", sub(i64(x), i64(y)))),
         ("(fn [x y] (if (> x y) x 0.5))", lambda x, y: x if num(x) > num(y) else ("f64", 0.5))]
B_ANY = [("(fn [x y] (list x y))", lambda x, y: pair(x, y)), ("(fn [x y] y)", lambda x, y: y), ("(fn [x y] x)", lambda x, y: x)]
T_ANY = [("(fn [x y z] (list z x y))", lambda x, y, z: pair(z, x, y)), ("(fn [x y z] y)", lambda x, y, z: y)]


def num(v):
    if v[0] not in ("i64", "f64"):
        raise Err()
    return float("-inf") if v[1] is None else v[1]


def pair(*xs):
    """(list ...)"""
    return ("list", list(xs))


def u_raise(x):
    v = i64(x)
    if v is not None and v > 8:
        raise Err()
    return ("i64", sub(0, v))


U_NUM[2] = (U_NUM[2][0], u_raise)
U_NUM[7] = (U_NUM[7][0], lambda x: ("list", [("i64", 2), ("i64", i64(x) + 2)]))


def run():
    c = Check("C16")
    c.rule = "one iterator call compared with the loop of single calls in Python; distinct by iterator, function and arguments"
    r = c.sub("gen")
    R, A, R4, A3 = Run(c, "rel", 1, batch=150), Run(c, "asan", 1, batch=150), Run(c, "rel", 5, batch=60), Run(c, "asan", 3, batch=60)
    stat = {"calls": 0, "elements": 0, "expected_errors": 0, "parallel": 0}

    def nums(n, hi=9):
        return ("I64", [r.randrange(0, hi) for _ in range(n)])

    def numlist(n, hi=9):
        return ("list", [("i64", x) for x in nums(n, hi)[1]])

    def anycol(n):
        T = r.choice(VT + ["list"])
        return mkcol(T, n)

    def mkcol(T, n):
        x = col(r, T, n)
        return (T, x if T == "C8" else list(x))

    def anyatom():
        T = r.choice(VT)
        return (T.lower(), mkcol(T, 1)[1][0])

    def expect(f):
        try:
            w = f()
        except Err:
            stat["expected_errors"] += 1
            return lambda g: None if g[0] == "err" else "want an error"
        return w

    def put(q, cls, binds, e, want, nelem):
        stat["calls"] += 1
        stat["elements"] += nelem
        q.add(cls, binds, e, want, key=cls.split(" ")[0])

    def size():
        return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100])

    N = c.scale(1000, 20000)
    for i in range(N):
        q = [R, A, R4, A3, R][i % 5]
        par = q in (R4, A3)
        stat["parallel"] += par
        z = r.random()
        n = size()
        if par and r.random() < 0.1:
            n = r.choice([1000, 4095, 4096, 5000])
        op = r.choice(["map", "pmap"])
        if z < 0.22:      # one argument
            if r.random() < 0.75:
                t, f = r.choice(U_NUM)
                hi = r.choice([2, 4, 9, 9, 12])
                x = nums(n, hi) if r.random() < 0.7 else numlist(n, hi)
            else:
                t, f = r.choice(U_ANY)
                x = anycol(n)
            es = elems(x)
            put(q, "%s lambda" % op, [("x", x)], "(%s %s x)" % (op, t), expect(lambda: pack([f(e) for e in es], (x[0], [] if x[0] != "C8" else ""))), n)
        elif z < 0.36:    # two or three arguments, atoms are paired with every element
            k = r.choice([2, 2, 3])
            if k == 2:
                t, f = r.choice(B_NUM + B_ANY)
                isnum = (t, f) in B_NUM
            else:
                t, f = r.choice(T_ANY)
                isnum = False
            args = []
            atoms = r.random() < 0.4
            wh = r.randrange(k)
            for j in range(k):
                if atoms and j != wh:
                    args.append(("i64", r.randrange(9)) if isnum else anyatom())
                else:
                    args.append((nums(n) if r.random() < 0.7 else numlist(n)) if isnum else anycol(n))
            if r.random() < 0.04 and not atoms:
                args[wh] = nums(n + 1) if isnum else mkcol("I64", n + 1)
                want = lambda g: None if g[0] == "err" else "want an error for different lengths"
            else:
                es = [elems(a) for a in args]
                def loop():
                    out = []
                    for j in range(n):
                        out.append(f(*[a if e is None else e[j] for a, e in zip(args, es)]))
                    return pack(out)
                want = expect(loop) if n else (lambda g: None if len(g) == 2 and g[1] in ([], "") else "want something empty")
            nm = "xyz"
            put(q, "%s%d lambda" % (op, k), [(nm[j], a) for j, a in enumerate(args)], "(%s %s %s)" % (op, t, " ".join(nm[:k])), want, n)
        elif z < 0.42:    # order and number of the calls
            x = anycol(n)
            es = elems(x)
            e = "(do (set acc (list)) (map (fn [x] (set acc (concat acc (list (list x))))) x) acc)"
            put(q, "map-order", [("x", x)], e, ("list", [("list", [v]) for v in es]), n)
        elif z < 0.50:    # builtins over lists
            t, f = r.choice([("count", lambda v: ("i64", len(v[1]))), ("first", lambda v: elems(v)[0]), ("last", lambda v: elems(v)[-1]),
                             ("reverse", lambda v: (v[0], v[1][::-1])), ("enlist", lambda v: None)][:4])
            m = max(1, n)
            x = ("list", [mkcol(r.choice(VT), r.randrange(1, 5)) for _ in range(m)])
            put(q, "%s builtin" % op, [("x", x)], "(%s %s x)" % (op, t), pack([f(v) for v in x[1]]), m)
        elif z < 0.58:    # atomic builtins elementwise through any nesting
            t, f = r.choice([("+", add), ("-", sub)])
            def arg():
                w = r.random()
                return ("i64", r.randrange(50)) if w < 0.25 else nums(n, 50) if w < 0.6 else numlist(n, 50)
            x, y = arg(), arg()
            ex, ey = elems(x), elems(y)
            m = 1 if ex is None and ey is None else n
            rs = [("i64", f(i64(x if ex is None else ex[j]), i64(y if ey is None else ey[j]))) for j in range(m)]
            if not m:
                continue
            want = rs[0] if ex is None and ey is None else pack(rs)
            oo = r.choice([op, "apply"])
            put(q, "%s atomic" % oo, [("x", x), ("y", y)], "(%s %s x y)" % (oo, t), want, m)
        elif z < 0.66:    # map-left / map-right
            oo = r.choice(["map-left", "map-right"])
            t, f = r.choice(B_ANY + T_ANY) if r.random() < 0.6 else r.choice(B_NUM)
            k = 3 if (t, f) in T_ANY else 2
            isnum = (t, f) in B_NUM
            w = 0 if oo == "map-left" else k - 1
            args = []
            for j in range(k):
                if j == w:
                    args.append(nums(n) if isnum else anycol(n))
                else:
                    args.append(("i64", r.randrange(9)) if isnum else (anyatom() if r.random() < 0.5 else anycol(r.randrange(4))))
            es = elems(args[w])
            want = expect(lambda: pack([f(*(args[:w] + [e] + args[w + 1:])) for e in es], (args[w][0], "" if args[w][0] == "C8" else [])))
            put(q, "%s lambda" % oo, [("xyz"[j], a) for j, a in enumerate(args)], "(%s %s %s)" % (oo, t, " ".join("xyz"[:k])), want, n)
        elif z < 0.72:    # builtins with one side whole
            oo = r.choice(["map-left", "map-right"])
            t, f = r.choice([("+", add), ("-", sub)])
            m = max(1, n)
            x, y = nums(m, 50), nums(r.randrange(1, 5), 50)
            if oo == "map-right":
                rs = [("I64", [f(a, b) for a in y[1]]) for b in x[1]]
                e = "(map-right %s y x)" % t
            else:
                rs = [("I64", [f(a, b) for b in y[1]]) for a in x[1]]
                e = "(map-left %s x y)" % t
            put(q, "%s builtin" % oo, [("x", x), ("y", y)], e, pack(rs), m)
        elif z < 0.82:    # fold and scan with lambdas
            oo = r.choice(["fold", "scan"])
            t, f = r.choice(B_NUM + B_ANY[:1] + B_ANY)
            isnum = (t, f) in B_NUM
            if (t, f) == B_ANY[0]:
                n = min(n, 33)
            x = (nums(n) if r.random() < 0.7 else numlist(n)) if isnum else anycol(n)
            es = elems(x)
            init = r.random() < 0.4
            ini = ("i64", r.randrange(9)) if isnum else anyatom()
            def loop():
                if not es:
                    return (ini if oo == "fold" else ("list", [])) if init else ("list", [])
                acc, out = (ini, []) if init else (es[0], [es[0]])
                for e in (es if init else es[1:]):
                    acc = f(acc, e)
                    out.append(acc)
                return acc if oo == "fold" else ("list", out)
            put(q, "%s lambda" % oo, [("x", x), ("y", ini)], "(%s %s %sx)" % (oo, t, "y " if init else ""), expect(loop), n)
        elif z < 0.88:    # fold and scan with builtins over lists
            oo = r.choice(["fold", "scan"])
            t, f = r.choice([("+", add), ("-", sub)])
            x = numlist(n, 50)
            ini = ("i64", r.randrange(50))
            acc, out = ini, []
            for e in x[1]:
                acc = ("i64", f(acc[1], e[1]))
                out.append(acc)
            put(q, "%s builtin" % oo, [("x", x), ("y", ini)], "(%s %s y x)" % (oo, t), acc if oo == "fold" else ("list", out), n)
        elif z < 0.97:    # left and right forms: the element first, the accumulator second (right, lambda: the other way round)
            oo = r.choice(["fold-left", "fold-right", "scan-left", "scan-right"])
            if r.random() < 0.4:
                t, f = r.choice([("+", lambda a, b: ("i64", add(a[1], b[1]))), ("-", lambda a, b: ("i64", sub(a[1], b[1])))])
                x, ini, lam = nums(n, 50) if r.random() < 0.7 else numlist(n, 50), ("i64", r.randrange(50)), False
            else:
                t, f = r.choice(B_NUM + B_ANY)
                if (t, f) == B_ANY[0]:
                    n = min(n, 33)
                isnum = (t, f) in B_NUM
                x, ini, lam = nums(n) if isnum else anycol(n), ("i64", r.randrange(9)) if isnum else anyatom(), True
            es = elems(x)
            def loop():
                acc, out = ini, [ini]
                for e in es:
                    acc = f(acc, e) if lam and oo == "fold-right" else f(e, acc)
                    out.append(acc)
                return acc if oo[0] == "f" else ("list", out if es else [])
            e = "(%s %s %s)" % (oo, t, "x y" if oo.endswith("left") else "y x")
            put(q, "%s %s" % (oo, "lambda" if lam else "builtin"), [("x", x), ("y", ini)], e, expect(loop), n)
        else:             # wrong number of arguments, an argument that is no function
            oo = r.choice(["map", "pmap", "apply", "map-left", "map-right", "fold-left", "fold-right", "scan-left", "scan-right"])
            t = r.choice(["(fn [x y z w] x)", "5", "[1 2]", "'a", "(fn [] 1)"])
            put(q, "bad " + oo, [("x", nums(n + 1))], "(%s %s x x)" % (oo, t), lambda g: None if g[0] == "err" else "want an error", 0)
    for q in (R, A, R4, A3):
        q.close()
    c.extra["observed"] = stat
    return c.finish(700)


if __name__ == "__main__":
    main(run)
