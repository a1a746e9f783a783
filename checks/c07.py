"""C07: comparison, logic, nil? and within against one total order per type."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from val import *

OPS = {"==": lambda c: c == 0, "!=": lambda c: c != 0, "<": lambda c: c < 0, "<=": lambda c: c <= 0,
       ">": lambda c: c > 0, ">=": lambda c: c >= 0}
NUM = ["I16", "I32", "I64", "F64"]
PAIRS = [(a, b) for a in NUM for b in NUM] + [(t, t) for t in ("SYMBOL", "DATE", "TIME", "TIMESTAMP", "GUID")] + \
        [("DATE", "TIMESTAMP"), ("TIMESTAMP", "DATE")]
ATOMS = [("B8", "B8"), ("B8", "U8"), ("U8", "B8"), ("U8", "U8"), ("C8", "C8")]
DAY = 86400 * 10**9


def okey(T, x, other):
    """sort key in the common order of T and other"""
    if x is None:
        return (0,)
    if T == "SYMBOL":
        return (1, x.encode("latin1"))
    if T == "GUID":
        return (1, bytes.fromhex(x))
    if T == "DATE" and other == "TIMESTAMP":
        return (1, x * DAY)
    if "F64" in (T, other) and T in NUM:
        return (1, float(x))
    return (1, x)


def cmp3(A, x, B, y):
    a, b = okey(A, x, B), okey(B, y, A)
    if A == "GUID":
        a = (1, bytes(16)) if x is None else a
        b = (1, bytes(16)) if y is None else b
    return (a > b) - (a < b)


def gen(r, T, other, n, pn):
    mode = r.choice(["small", "small", "mid", "edge", "full"])
    if T == "SYMBOL":
        mode = r.choice(["small", "mid"])
    if T == "DATE" and other == "TIMESTAMP":
        return (T, [None if r.random() < pn else r.choice([r.randrange(-3, 5), r.randrange(-100000, 100000)]) for _ in range(n)])
    if T == "TIMESTAMP" and other == "DATE":
        return (T, [None if r.random() < pn else r.choice([r.randrange(-3, 5) * DAY + r.choice([0, 0, 1, -1]), r.randrange(-2**62, 2**62)]) for _ in range(n)])
    return vec(r, T, n, mode, pn)


def near(r, v, T, other, w, n):
    """a second operand that often equals the first"""
    out = []
    for i in range(n):
        x = w[i % len(w)] if w else None
        out.append(x)
    k = max(1, n // 2)
    for _ in range(k if n else 0):
        out[r.randrange(n)] = v[1][r.randrange(len(v[1]))] if v[1] and T == other else out[0]
    return out


def B8v(x):
    return ("B8", [int(b) for b in x])


def run():
    c = Check("C07")
    c.rule = ("one evaluated comparison/logic expression over generated operands, compared element by element with a Python "
              "total order; distinct by operation, operand types, shapes and data")
    r = c.sub("gen")
    sizes = [0, 1, 2, 3, 5, 9, 17, 33, 64, 100]
    big = [16383, 16384, 16385, 20001, 40000, 65537]
    runs = [Run(c, "asan", 1), Run(c, "rel", 1), Run(c, "rel", 4), Run(c, "asan", 4)]

    def rn(n):
        return r.choice(runs[2:]) if n > 10000 else r.choice(runs)

    rep = c.scale(5, 60)
    for A, B in PAIRS:
        for op, f in OPS.items():
            for _ in range(rep):
                pn = r.choice([0, 0.1, 0.5])
                n = r.choice(sizes)
                x = gen(r, A, B, n, pn)
                y = (B, near(r, x, A, B, gen(r, B, A, max(n, 1), pn)[1], n))
                rn(n).add("cmp-vv", [("x", x), ("y", y)], "(%s x y)" % op,
                          B8v(f(cmp3(A, p, B, q)) for p, q in zip(x[1], y[1])), key="cmp %s %s %s vv" % (op, A, B))
                if not n:
                    continue
                ya = r.choice(y[1])
                rn(n).add("cmp-va", [("x", x), ("y", (B.lower(), ya))], "(%s x y)" % op,
                          B8v(f(cmp3(A, p, B, ya)) for p in x[1]), key="cmp %s %s %s va" % (op, A, B))
                xa = r.choice(x[1])
                rn(n).add("cmp-av", [("x", (A.lower(), xa)), ("y", y)], "(%s x y)" % op,
                          B8v(f(cmp3(A, xa, B, q)) for q in y[1]), key="cmp %s %s %s av" % (op, A, B))
                rn(n).add("cmp-aa", [("x", (A.lower(), xa)), ("y", (B.lower(), ya))], "(%s x y)" % op,
                          ("b8", int(f(cmp3(A, xa, B, ya)))), key="cmp %s %s %s aa" % (op, A, B))
        for k in range(3):
            for op, f in (r.sample(list(OPS.items()), 1) if not c.thorough else OPS.items()):
                n = r.choice(big)
                x = gen(r, A, B, n, 0.05)
                y = (B, near(r, x, A, B, gen(r, B, A, 50, 0.1)[1], n))
                q = r.choice(y[1])
                if k == 0:
                    rn(n).add("cmp-big-vv", [("x", x), ("y", y)], "(%s x y)" % op,
                              B8v(f(cmp3(A, p, B, z)) for p, z in zip(x[1], y[1])), key="cmp %s %s %s vv big" % (op, A, B))
                elif k == 1:
                    rn(n).add("cmp-big-va", [("x", x), ("y", (B.lower(), q))], "(%s x y)" % op,
                              B8v(f(cmp3(A, p, B, q)) for p in x[1]), key="cmp %s %s %s va big" % (op, A, B))
                else:
                    rn(n).add("cmp-big-av", [("y", x), ("x", (B.lower(), q))], "(%s x y)" % op,
                              B8v(f(cmp3(B, q, A, p)) for p in x[1]), key="cmp %s %s %s av big" % (op, A, B))
    # unequal lengths fail
    for A, B in PAIRS:
        n, m = r.sample([1, 2, 3, 5, 9], 2)
        rn(1).add("cmp-length", [("x", gen(r, A, B, n, 0)), ("y", gen(r, B, A, m, 0))], "(%s x y)" % r.choice(list(OPS)),
                  lambda g: None if g[0] == "err" else "want an error: lengths differ")
    for A, B in ATOMS:
        for op, f in OPS.items():
            for _ in range(c.scale(3, 40)):
                x, y = elem(r, A, r.choice(["small", "full"])), elem(r, B, r.choice(["small", "full"]))
                if r.random() < 0.3 and A == B:
                    y = x
                if A == "U8" and B == "U8" and r.random() < 0.5:
                    x, y = r.choice([0, 127, 128, 255]), r.choice([0, 127, 128, 255])
                rn(1).add("cmp-byte", [("x", (A.lower(), x)), ("y", (B.lower(), y))], "(%s x y)" % op,
                          ("b8", int(f((x > y) - (x < y)))), key="cmp %s %s %s byte" % (op, A, B))
    # strings compare as a whole
    for op, f in OPS.items():
        for _ in range(c.scale(40, 600)):
            a = "".join(r.choice("ab\x7f z") for _ in range(r.choice([0, 1, 2, 3, 8, 20])))
            b = r.choice([a, a + "a", a[:-1], "".join(r.choice("ab\x7f z") for _ in range(len(a)))])
            x, y = ("C8", a), ("C8", b)
            if len(a) == 1 and r.random() < 0.4:
                x = ("c8", a)
            if len(b) == 1 and r.random() < 0.4:
                y = ("c8", b)
            rn(1).add("cmp-str", [("x", x), ("y", y)], "(%s x y)" % op, ("b8", int(f((a > b) - (a < b)))))
    # enumerations
    for op, f in OPS.items():
        for _ in range(c.scale(6, 60)):
            dom = ["k%d" % i for i in r.sample(range(30), 8)]
            n = r.choice([1, 2, 3, 5, 9, 40])
            e = [r.choice(dom) for _ in range(n)]
            pre = [("esym", ("SYMBOL", dom)), ("ev", ("SYMBOL", e))]
            y = [r.choice(dom) for _ in range(n)]
            a = r.choice(dom)
            R = rn(1)
            R.add("cmp-enum", pre + [("y", ("SYMBOL", y))], "(do (set ex (enum 'esym ev)) (%s ex y))" % op,
                  B8v(f(cmp3("SYMBOL", p, "SYMBOL", q)) for p, q in zip(e, y)), key="enum %s vv" % op)
            R.add("cmp-enum", pre + [("y", ("SYMBOL", y))], "(do (set ex (enum 'esym ev)) (%s y ex))" % op,
                  B8v(f(cmp3("SYMBOL", q, "SYMBOL", p)) for p, q in zip(e, y)), key="enum %s vv swapped" % op)
            R.add("cmp-enum", pre, "(do (set ex (enum 'esym ev)) (%s ex '%s))" % (op, a),
                  B8v(f(cmp3("SYMBOL", p, "SYMBOL", a)) for p in e), key="enum %s va" % op)
            R.add("cmp-enum", pre, "(do (set ex (enum 'esym ev)) (%s '%s ex))" % (op, a),
                  B8v(f(cmp3("SYMBOL", a, "SYMBOL", p)) for p in e), key="enum %s av" % op)
    # lists compare element by element
    for op, f in OPS.items():
        for _ in range(c.scale(8, 80)):
            n = r.choice([1, 2, 3, 6])
            xs = [(r.choice(["I32", "I64", "F64"]),) for _ in range(n)]
            xs = [(t, elem(r, t, "small", 0.1)) for (t,) in xs]
            q = (r.choice(["I64", "F64"]),)
            q = (q[0], elem(r, q[0], "small", 0.1))
            L = ("list", [(t.lower(), v) for t, v in xs])
            rn(1).add("cmp-list", [("x", L), ("y", (q[0].lower(), q[1]))], "(%s x y)" % op,
                      B8v(f(cmp3(t, v, q[0], q[1])) for t, v in xs), key="list %s" % op)
            rn(1).add("cmp-list", [("x", L), ("y", (q[0].lower(), q[1]))], "(%s y x)" % op,
                      B8v(f(cmp3(q[0], q[1], t, v)) for t, v in xs), key="list %s swapped" % op)
    # and / or / not
    for _ in range(c.scale(250, 4000)):
        op = r.choice(["and", "or"])
        k = r.randrange(1, 6)
        n = r.choice(sizes if r.random() < 0.9 else big)
        xs = [r.randrange(2) if r.random() < 0.35 else [int(r.random() < 0.5) for _ in range(n)] for _ in range(k)]
        f = (lambda *a: int(all(a))) if op == "and" else (lambda *a: int(any(a)))
        if any(isinstance(x, list) for x in xs):
            want = ("B8", [f(*[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)])
        else:
            want = ("b8", f(*xs))
        names = ["x%d" % i for i in range(k)]
        R = rn(n)
        R.add("logic", [(m, ("B8", x) if isinstance(x, list) else ("b8", x)) for m, x in zip(names, xs)],
              "(%s %s)" % (op, " ".join(names)), want, key="logic %s %s" % (op, "".join("v" if isinstance(x, list) else "a" for x in xs)))
        # the operands are unchanged
        j = r.randrange(k)
        R.add("logic-operand", [], names[j], ("B8", xs[j]) if isinstance(xs[j], list) else ("b8", xs[j]), key="logic operand changed")
    for n in sizes + big[:2]:
        x = [r.randrange(2) for _ in range(n)]
        rn(n).add("not", [("x", ("B8", x))], "(not x)", ("B8", [1 - b for b in x]))
    for b in (0, 1):
        rn(1).add("not", [("x", ("b8", b))], "(not x)", ("b8", 1 - b))
    # nil?
    for T in list(NULLI) + ["F64", "SYMBOL", "GUID"]:
        for _ in range(c.scale(4, 30)):
            x = elem(r, T, r.choice(["small", "mid"]), 0.5)
            rn(1).add("nil", [("x", (T.lower(), x))], "(nil? x)", ("b8", int(x is None)), key="nil? %s" % T)
        rn(1).add("nil", [("x", vec(r, T, r.choice([0, 1, 3]), "small", 0.5))], "(nil? x)", ("b8", 0), key="nil? %s vector" % T)
    rn(1).add("nil", [], "(nil? null)", ("b8", 1))
    # within
    for _ in range(c.scale(80, 1000)):
        n = r.choice(sizes)
        mode = r.choice(["small", "mid", "edge", "full"])
        x = vec(r, "I64", n, mode, 0.1)
        lo, hi = [v if v is not None else -2**63 for v in vec(r, "I64", 2, mode, 0.1)[1]]
        f = lambda v: int(lo <= (-2**63 if v is None else v) <= hi)
        y = ("I64", [None if v == -2**63 else v for v in (lo, hi)])
        rn(n).add("within", [("x", x), ("y", y)], "(within x y)", ("B8", [f(v) for v in x[1]]))
        if n:
            rn(n).add("within", [("x", ("i64", x[1][0])), ("y", y)], "(within x y)", ("b8", f(x[1][0])))
    for R in runs:
        R.close()
    c.extra["type_pairs"] = len(PAIRS) + len(ATOMS)
    return c.finish(3000)


main(run)
