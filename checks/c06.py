"""C06: elementwise arithmetic against an exact Python model (big integers, floats)."""
import math, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from drv import Rfh
from val import *

NUM = ["U8", "I16", "I32", "I64", "F64"]
W = {"U8": 0, "I16": 1, "I32": 2, "I64": 3, "F64": 4}
MS, DAY = 10**6, 86400 * 10**9


def promote(a, b):
    if {a, b} == {"U8", "I16"}:
        return None
    return a if W[a] >= W[b] else b


def rtype(op, a, b):
    """Result type, as documented / as the implementation defines it per type pair; None = type error."""
    if op in ("+", "*", "-") and a in NUM and b in NUM:
        return promote(a, b)
    I = ("I32", "I64")
    if op == "+":
        for x, y in ((a, b), (b, a)):
            if x in ("DATE", "TIME", "TIMESTAMP") and y in I:
                return x
        if {a, b} == {"DATE", "TIME"} or {a, b} == {"TIME", "TIMESTAMP"}:
            return "TIMESTAMP"
        if a == b == "TIME":
            return "TIME"
    if op == "-":
        if a in ("DATE", "TIME", "TIMESTAMP") and b in I:
            return a
        if a in I and b == "TIME":
            return "TIME"
        if (a, b) in (("DATE", "TIME"), ("TIMESTAMP", "TIME")):
            return "TIMESTAMP"
        return {("DATE", "DATE"): "I32", ("TIME", "TIME"): "TIME", ("TIMESTAMP", "TIMESTAMP"): "I64"}.get((a, b))
    if op == "*":
        if (a == "TIME" and b in I) or (b == "TIME" and a in I):
            return "TIME"
    if op == "/":
        if a in NUM and b in NUM:
            if a in ("I32", "I64", "F64"):
                return a if b != "U8" or True else None
            return promote(a, b)
        if a == "TIME" and b in ("I32", "I64", "F64"):
            return "TIME"
    if op == "%":
        if a == "TIME" and b in I:
            return "TIME"
        if a in NUM and b in NUM:
            if "F64" in (a, b):
                return "F64" if a in ("I32", "I64", "F64") and b in ("I32", "I64", "F64") else None
            if (a, b) == ("I64", "I32"):
                return "I32"
            return promote(a, b)
    if op == "div":
        return "F64" if a in ("I32", "I64", "F64") and b in ("I32", "I64", "F64") else None
    if op == "xbar":
        if a in ("I32", "I64", "F64") and b in ("I32", "I64", "F64"):
            return promote(a, b)
        if a in ("DATE", "TIME", "TIMESTAMP") and b in I:
            return a
        if b == "TIME" and a in ("TIME", "TIMESTAMP"):
            return a
    return None


def scale(T, R, op):
    if R == "TIMESTAMP":
        return {"DATE": DAY, "TIME": MS}.get(T, 1)
    return 1


AMBIG = object()


def model1(op, A, B, R, x, y):
    """one element; AMBIG = not decided (unrepresentable result / float rounding boundary)"""
    if x is None or y is None:
        return None
    fl = "F64" in (A, B)
    x = x * scale(A, R, op)
    y = y * scale(B, R, op) if (op in "+-" or op == "xbar") else y
    if fl and op in ("+", "-", "*"):
        fx, fy = float(x), float(y)
        try:
            v = fx + fy if op == "+" else fx - fy if op == "-" else fx * fy
        except OverflowError:
            return AMBIG
        return None if v != v else v
    if op in ("+", "-", "*"):
        v = x + y if op == "+" else x - y if op == "-" else x * y
        return fit(v, R)
    if op in ("/", "%", "div", "xbar"):
        if y == 0:
            if R == "U8":
                return 0
            return AMBIG if op == "xbar" and fl else None
        if op == "div":
            return float(x) / float(y)
        if not fl:
            q = x // y
            return fit(q, R) if op == "/" else fit(x - q * y, R) if op == "%" else (fit(q * y, R) if y > 0 else AMBIG)
        fx, fy = float(x), float(y)
        if math.isinf(fx) or math.isinf(fy) or abs(fx) > 1e15 or abs(fx / fy) > 1e15:
            return AMBIG
        if op == "xbar" and fy < 0:
            return AMBIG
        ex = Fraction(fx) / Fraction(fy)
        q = math.floor(ex)
        d = min(ex - q, q + 1 - ex)
        if d and d < max(Fraction(1, 10**6), abs(ex) / 2**48):
            return AMBIG            # too close to the next integer for double rounding
        if op == "/":
            return fit(q, R) if R != "F64" else float(q)
        if not d and math.frexp(fy)[0] != 0.5 and math.frexp(fy)[0] != -0.5 and fy != int(fy):
            return AMBIG
        if op == "%":
            return ("near", fx - q * fy, abs(fx) * 2e-15 + abs(q * fy) * 2e-15)
        return q * fy
    raise AssertionError


def fit(v, R):
    if R == "F64":
        return float(v)
    lo, hi = rng_int(R)
    return v if lo <= v <= hi else AMBIG


def operand(r, T, op, side, big):
    m = r.random()
    if T in ("TIMESTAMP",):
        return r.randrange(-10**18, 10**18) if m < 0.7 else r.choice([0, 1, -1, DAY - 1, DAY, -DAY, 86400000])
    if T == "DATE":
        return r.randrange(-20000, 20000) if m < 0.7 else r.choice([0, 1, -1, 10957, 100000])
    if T == "TIME":
        return r.randrange(-86400000, 86400000) if m < 0.7 else r.choice([0, 1, -1, 86399999, 1000, 60000])
    if T == "F64":
        return elem(r, T, "small") if m < 0.4 else r.uniform(-1e4, 1e4) if m < 0.8 else r.choice([0.0, 1e-3, 2.0**40, -7.25, 1e9])
    if T == "U8":
        return r.randrange(0, 12) if m < 0.6 else r.randrange(256)
    lo, hi = rng_int(T)
    if big or m < 0.15:
        return r.choice([lo, hi, lo + 1, hi - 1, lo // 2, hi // 2, r.randint(lo, hi)])
    if op == "*" and m < 0.5:
        return r.randrange(-int(hi ** 0.5) + 1, int(hi ** 0.5))
    return r.randrange(-20, 21) if m < 0.6 else r.randint(lo // 4, hi // 4)


SHAPES = ["aa", "av", "va", "vv"]


def gen(r, A, B, op, shape, n):
    pn = r.choice([0, 0, 0.2, 0.6])
    nul = lambda T: T not in ("U8",) and r.random() < pn
    side = lambda T, s: None if nul(T) else operand(r, T, op, s, False)
    na = n if shape[0] == "v" else 1
    nb = n if shape[1] == "v" else 1
    R = rtype(op, A, B)
    xs, ys = [side(A, 0) for _ in range(na)], [side(B, 1) for _ in range(nb)]
    if op == "xbar":
        ys = [abs(y) if y else y for y in ys]
    if shape == "aa" or R is None:
        return xs, ys, R
    # repair the pairs whose exact result the type cannot hold: overflow is outside the property
    for _ in range(60):
        bad = False
        for i in range(n):
            i0, i1 = (i if na > 1 or shape[0] == "v" else 0), (i if shape[1] == "v" else 0)
            if model1(op, A, B, R, xs[i0], ys[i1]) is AMBIG:
                bad = True
                if shape[0] == "v":
                    xs[i0] = side(A, 0)
                if shape[1] == "v" and (shape[0] != "v" or r.random() < 0.5):
                    ys[i1] = side(B, 1)
                    if op == "xbar" and ys[i1]:
                        ys[i1] = abs(ys[i1])
        if not bad:
            break
        if _ == 30:
            if shape[0] == "a":
                xs[0] = 3 if A != "F64" else 3.0
            if shape[1] == "a":
                ys[0] = 2 if B != "F64" else 2.0
    return xs, ys, R


def expect(op, A, B, R, shape, xs, ys):
    n = len(xs) if shape[0] == "v" else len(ys)
    out = [model1(op, A, B, R, xs[i if shape[0] == "v" else 0], ys[i if shape[1] == "v" else 0]) for i in range(n)]
    return out


def near(R, w, g):
    if w is AMBIG:
        return True
    if isinstance(w, tuple):
        return g is not None and abs(w[1] - g) <= w[2]
    if R == "F64":
        return close(w, g, 1e-12, 1e-9)
    return w == g


def judge(R, shape, out):
    def f(got):
        T = R.lower() if shape == "aa" else R
        if got[0] != T:
            return "want type %s" % T
        g = [got[1]] if shape == "aa" else got[1]
        if len(g) != len(out):
            return "want %d elements, got %d" % (len(out), len(g))
        for i, (w, x) in enumerate(zip(out, g)):
            if not near(R, w, x):
                return "element %d: want %r got %r" % (i, w, x)
    return f


def run():
    c = Check("C06")
    c.rule = ("a case is one arithmetic expression over operands of given types and shape (atom/vector, fresh or named, "
              "nulls mixed in, sizes below and above the parallel split); non-trivial when distinct by operation, types, "
              "shape, size and operand values; every element is compared with exact integer / IEEE arithmetic")
    ops = ["+", "-", "*", "/", "%", "div", "xbar"]
    ALL = ["U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
    r = c.sub("small")
    runs = [Run(c, "asan", 1), Run(c, "rel", 1), Run(c, "rel", 4)]
    # every type pair, every shape
    for rep in range(c.scale(6, 40)):
        for op in ops:
            for A in ALL:
                for B in ALL:
                    R = rtype(op, A, B)
                    for shape in SHAPES:
                        for k in range(c.scale(2, 4) if shape != "aa" else c.scale(4, 10)):
                            n = r.choice([0, 1, 2, 3, 5, 8, 9, 16, 33, 64])
                            xs, ys, _ = gen(r, A, B, op, shape, n)
                            va = (A, xs) if shape[0] == "v" else (A.lower(), xs[0])
                            vb = (B, ys) if shape[1] == "v" else (B.lower(), ys[0])
                            ea, eb = "qa", "qb"
                            fr = r.random()
                            if fr < 0.3 and shape[0] == "v":
                                ea = "(at qa (til %d))" % n
                            if 0.2 < fr < 0.5 and shape[1] == "v":
                                eb = "(at qb (til %d))" % n
                            ru = runs[0] if rep % 2 == 0 else runs[1]
                            if R is None:
                                if n and A == B:    # a pair outside the table must not invent a value
                                    ru.add("reject/%s/%s/%s" % (op, A, B), [("qa", va), ("qb", vb)], "(%s %s %s)" % (op, ea, eb),
                                           lambda g: None if g[0] == "err" else "want an error")
                                continue
                            out = expect(op, A, B, R, shape, xs, ys)
                            e = "(%s %s %s)" % (op, ea, eb)
                            ru.add("%s/%s/%s/%s" % (op, A, B, shape), [("qa", va), ("qb", vb)], e, judge(R, shape, out),
                                   key="%s/%s/%s" % (op, A, B))
                            # the operands are unchanged
                            if k == 0:
                                ru.add("operands-kept", [], "(list qa qb)", mk_same(va, vb))
    # length mismatch
    for op in ops:
        for A, B in (("I64", "I64"), ("I32", "F64"), ("F64", "I64")):
            runs[0].add("length", [("qa", vec(r, A, 4)), ("qb", vec(r, B, 3))], "(%s qa qb)" % op,
                        lambda g: None if g == ("err", "length") else "want a length error")
    # nested expressions: intermediate results may be reused in place
    for _ in range(c.scale(150, 1500)):
        n = r.choice([1, 2, 5, 9, 33])
        T = r.choice(["I64", "F64"])
        vs = {v: [None if r.random() < 0.15 else (r.randrange(-50, 50) if T == "I64" else float(r.randrange(-50, 50))) for _ in range(n)] for v in "qa qb qc".split()}

        def ex(d):
            if d == 0 or r.random() < 0.2:
                if r.random() < 0.25:
                    k = r.randrange(1, 6)
                    return (str(k) if T == "I64" else "%d.0" % k), [k if T == "I64" else float(k)] * n, True
                v = r.choice(list(vs))
                return v, vs[v], False
            op = r.choice(["+", "-", "*", "+", "-"])
            l, rr = ex(d - 1), ex(d - 1)
            if op == "*" and d > 1:
                op = "+"
            if l[2] and rr[2]:
                l = ("qa", vs["qa"], False)
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
            return "(%s %s %s)" % (op, l[0], rr[0]), [None if x is None or y is None else f(x, y) for x, y in zip(l[1], rr[1])], False
        e, out, sc = ex(4)
        if sc:
            continue
        ru = runs[r.randrange(2)]
        ru.add("nested/" + T, [(v, (T, vs[v])) for v in vs], "(list %s %s)" % (e, " ".join(vs)),
               mk_nested(T, out, vs), key="nested/" + T)
    # lists of values: elementwise
    for _ in range(c.scale(60, 600)):
        op = r.choice(["+", "-", "*"])
        xs = [(r.choice(["i64", "f64", "i32"]), r.randrange(-9, 9)) for _ in range(r.randrange(1, 6))]
        xs = [(t, float(v) if t == "f64" else v) for t, v in xs]
        k = r.randrange(-9, 9)
        out = []
        for t, v in xs:
            R = rtype(op, t.upper(), "I64")
            out.append((R.lower(), model1(op, t.upper(), "I64", R, v, k)))
        runs[0].add("list/" + op, [("ql", ("list", xs)), ("qk", ("i64", k))], "(%s ql qk)" % op, mk_list(out))
    # unary
    for rep in range(c.scale(6, 40)):
        for op in ("neg", "round", "floor", "ceil"):
            for T in ["I32", "I64", "F64", "I16", "U8", "DATE", "TIME", "TIMESTAMP"]:
                if op != "neg" and T in ("I16", "U8"):
                    continue
                if op == "neg" and T in ("DATE", "TIME", "TIMESTAMP"):
                    continue
                n = r.choice([0, 1, 3, 8, 17, 40])
                xs = [None if (T != "U8" and r.random() < 0.2) else operand(r, T, "+", 0, False) for _ in range(n)]
                if T == "F64":
                    xs = [x if x is None or r.random() < .5 else r.choice([0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49, -0.49, 1e9 + .5, -3.0, 7.0]) for x in xs]
                R = T if op != "neg" or T in ("I64", "F64") else "I64"
                out = [un(op, T, x) for x in xs]
                fresh = r.random() < 0.5
                runs[rep % 2].add("%s/%s" % (op, T), [("qa", (T, xs))], "(%s %s)" % (op, "(at qa (til %d))" % n if fresh else "qa"), judge(R, "v", out))
                if n:
                    a = xs[0]
                    Ra = R if op != "neg" or T not in ("I16", "I32") else T
                    runs[rep % 2].add("%s/%s/atom" % (op, T), [("qa", (T.lower(), a))], "(%s qa)" % op, judge(Ra, "aa", [un(op, T, a)]))
    # large, split over worker threads
    sizes = [16383, 16384, 16385, 32769, 50001, 70000]
    for op in ops:
        for A, B in c.sub("big" + op).sample([(a, b) for a in ALL for b in ALL if rtype(op, a, b)], c.scale(5, 20) if op != "div" else 4):
            for shape in r.sample(SHAPES[1:], c.scale(1, 3)):
                n = r.choice(sizes)
                base = 257
                xs, ys, R = gen(r, A, B, op, shape, base)
                if shape[0] == "v":
                    xs = (xs * (n // base + 1))[:n]
                if shape[1] == "v":
                    ys = (ys * (n // base + 1))[:n]
                out = (expect(op, A, B, R, shape, xs[:base], ys[:base]) * (n // base + 1))[:n]
                va = (A, xs) if shape[0] == "v" else (A.lower(), xs[0])
                vb = (B, ys) if shape[1] == "v" else (B.lower(), ys[0])
                f = r.random() < 0.4
                runs[2].add("big/%s/%s/%s/%s" % (op, A, B, shape), [("qa", va), ("qb", vb)],
                            "(%s %s %s)" % (op, "(at qa (til %d))" % n if f and shape[0] == "v" else "qa", "qb"),
                            judge(R, shape, out), ident=(op, A, B, shape, n))
    for op in ("round", "floor", "ceil"):
        for T in ("F64", "I64", "DATE"):
            n = r.choice(sizes)
            xs = ([operand(r, T, "+", 0, False) for _ in range(101)] * 800)[:n]
            runs[2].add("big/%s/%s" % (op, T), [("qa", (T, xs))], "(%s qa)" % op, judge(T, "v", [un(op, T, x) for x in xs]), ident=(op, T, n))
    for ru in runs:
        ru.close()
    return c.finish(2000)


def un(op, T, x):
    if x is None:
        return None
    if op == "neg":
        return -x
    if T != "F64":
        return x
    if abs(x) > 1e15:
        return AMBIG
    if op == "floor":
        return float(math.floor(x))
    if op == "ceil":
        return float(math.ceil(x))
    return float(math.floor(x + 0.5)) if x >= 0 else float(math.ceil(x - 0.5))


def mk_same(*vs):
    def f(g):
        gs = els(g) if g[0] != "list" else g[1]
        if len(gs) != len(vs) or any(not same(a, b) for a, b in zip(gs, vs)):
            return "the operands changed: want %s" % show(vs)
    return f


def mk_nested(T, out, vs):
    def f(g):
        if g[0] != "list" or len(g[1]) != 1 + len(vs):
            return "want a list of %d" % (1 + len(vs))
        if g[1][0] != (T, out):
            return "want %s" % show((T, out))
        for (v, x), y in zip(vs.items(), g[1][1:]):
            if y != (T, x):
                return "%s changed: want %s" % (v, show((T, x)))
    return f


def mk_list(out):
    def f(g):
        gs = els(g) if g[0] != "list" else g[1]
        if gs != out:
            return "want %s" % show(out)
    return f


if __name__ == "__main__":
    main(run)
