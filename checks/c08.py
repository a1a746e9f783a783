"""C08: aggregates of a whole vector against their definition over the non-null elements."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from val import *
from aggm import *

def data(r, op, T, n, pn):
    if op in ("sum", "avg", "dev", "med") and T in ("I32", "TIME"):
        lim = max(2, min(10 ** 6, 2 ** 30 // max(1, n)))
        return (T, [None if r.random() < pn else r.randrange(-lim, lim) for _ in range(n)])
    if op in ("sum", "avg", "dev", "med") and T == "I64":
        lim = r.choice([5, 1000, 10 ** 6] if op == "dev" else [5, 1000, 2 ** 40, 2 ** 44])
        return (T, [None if r.random() < pn else r.randrange(-lim, lim) for _ in range(n)])
    if op in ("sum", "avg", "dev") and T == "F64":
        lim = r.choice([1.0, 1e3] if op == "dev" else [1.0, 1e6, 1e200])
        return (T, [None if r.random() < pn else r.uniform(-lim, lim) for _ in range(n)])
    mode = r.choice(["small", "mid", "edge", "full"])
    if T == "SYMBOL":
        mode = "small"
    v = vec(r, T, n, mode, pn)
    if T == "F64":
        v = (T, [0.0 if x == 0 else x for x in v[1]])    # the sign of zero is not ordered
    return v


def holes(r, v):
    """place nulls at the ends / only one value / all null"""
    T, xs = v
    if T in ("U8", "B8", "C8") or not xs:
        return v
    xs = list(xs)
    k = r.randrange(6)
    if k == 0:
        xs[0] = None
    elif k == 1:
        xs[-1] = None
    elif k == 2:
        xs = [None] * len(xs)
    elif k == 3:
        j = r.randrange(len(xs))
        xs = [xs[j] if i == j else None for i in range(len(xs))]
    elif k == 4:
        m = len(xs) // 2
        xs[:m] = [None] * m
    return (T, xs)


def run():
    c = Check("C08")
    c.rule = ("one aggregate of one generated vector (or list of vectors), compared with its exact definition over the non-null "
              "elements; distinct by aggregate, type, shape and data")
    r = c.sub("gen")
    sizes = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 257]
    big = [16383, 16384, 16385, 32769, 50001, 65536]
    runs = [Run(c, "asan", 1), Run(c, "rel", 1), Run(c, "rel", 4), Run(c, "asan", 3), Run(c, "rel", 7)]

    def rn(n):
        return r.choice(runs[1:]) if n > 10000 else r.choice(runs)

    OPT = [("sum", list(SUMT)), ("avg", AVGT), ("med", MEDT), ("dev", DEVT), ("min", MMT), ("max", MMT),
           ("first", ANY), ("last", ANY), ("count", ANY)]
    tot = 0
    for op, types in OPT:
        for T in types:
            for i in range(c.scale(30, 400)):
                n = sizes[i % len(sizes)] if i < len(sizes) else r.choice(sizes)
                v = data(r, op, T, n, r.choice([0, 0.05, 0.3, 0.9]))
                if r.random() < 0.35 and T != "C8":
                    v = holes(r, v)
                w = agg(op, T, v[1])
                if w is not None:
                    rn(n).add(op, [("x", v)], "(%s x)" % op, w, key="%s %s" % (op, T))
                    tot += 1
            for i in range(c.scale(2, 12)):
                n = r.choice(big)
                v = data(r, op, T, n, r.choice([0, 0.01, 0.9]))
                if i % 2 and T != "C8":
                    v = holes(r, v)
                w = agg(op, T, v[1])
                if w is not None:
                    rn(n).add(op + "-big", [("x", v)], "(%s x)" % op, w, key="%s %s big" % (op, T))
            # one outlier at every position class of a long vector
            if op in ("min", "max", "sum") and T != "F64":
                for pos in ([0, 8191, 8192, 16383, 16384, 49999] if not c.thorough else range(0, 50000, 997)):
                    n = 50000
                    lo, hi = rng_int(T)
                    base = 0 if op == "sum" else (5 if op == "min" else 1)
                    val = 77 if op == "sum" else (1 if op == "min" else 9)
                    xs = [base] * n
                    xs[pos] = val
                    rn(n).add(op + "-outlier", [("x", (T, xs))], "(%s x)" % op, agg(op, T, xs), key="%s %s outlier" % (op, T))
    # atoms
    for op, types in OPT[:6]:
        for T in types:
            for _ in range(c.scale(2, 10)):
                x = elem(r, T, "mid")
                if op in ("min", "max", "sum"):
                    w = (T.lower() if op != "sum" or T in ("I64", "F64", "I32", "TIME") else None, x)
                    if w[0] is None:
                        continue
                else:
                    continue
                rn(1).add(op + "-atom", [("x", (T.lower(), x))], "(%s x)" % op, w, key="%s %s atom" % (op, T))
    # a list of vectors is aggregated item by item; results come back in order
    for op in ("sum", "min", "max", "avg", "dev", "med"):
        for _ in range(c.scale(12, 100)):
            T = r.choice(["I64", "F64"] if op != "med" else ["I64"])
            vs = [data(r, op, T, r.choice([1, 2, 5, 9]), 0.2) for _ in range(r.choice([1, 2, 3, 6]))]
            ws = [agg(op, T, v[1]) for v in vs]

            def judge(got, ws=ws):
                ge = els(got) if got[0] in CODE else (got[1] if got[0] == "list" else None)
                if ge is None or len(ge) != len(ws):
                    return "want %d results" % len(ws)
                for i, (g, w) in enumerate(zip(ge, ws)):
                    why = w(g) if callable(w) else (None if same(w, g) else "want %r" % (w,))
                    if why:
                        return "at %d: %s" % (i, why)
            rn(1).add(op + "-list", [("x", ("list", vs))], "(%s x)" % op, judge, key="%s list" % op)
    # of temporaries: the operand is the result of an expression
    for op in ("sum", "min", "max", "avg", "count"):
        for _ in range(c.scale(10, 80)):
            n = r.choice([1, 3, 33, 20000])
            v = data(r, "sum", "I64", n, 0.1)
            xs = [None if x is None else x + 3 for x in v[1]]
            w = agg(op, "I64", xs)
            rn(n).add(op + "-temp", [("x", v)], "(%s (+ x 3))" % op, w, key="%s temporary" % op)
    for R in runs:
        R.close()
    return c.finish(1500)


main(run)
