"""C12: select without by: filtering, projection, take, against row-by-row evaluation in Python."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from tabm import *


def table(r, n, kinds=ALLT):
    nc = r.randrange(1, 7)
    names, cols = [], []
    for j in range(nc):
        T = r.choice(kinds)
        if T == "list" and n == 0:
            T = "I64"
        names.append("c" + "abcdefgh"[j])
        cols.append((T, list(col(r, T, n))))
    if r.random() < 0.7:
        names.append("num")
        cols.append(("I64", [None if r.random() < 0.1 else r.randrange(-50, 50) for _ in range(n)]))
        names.append("flt")
        cols.append(("F64", [None if r.random() < 0.1 else r.randrange(-400, 400) / 4 for _ in range(n)]))
    return Tab(names, cols)


def mapping(r, g, t, ids):
    """(text, value) of one result column over the selected rows"""
    k = r.random()
    if k < 0.45 or "num" not in t.names:
        c = r.choice(t.names)
        T, xs = t.get(c)
        return c, pick(T, xs, ids)
    if k < 0.75:
        c = r.choice(["num", "flt"])
        T, xs = t.get(c)
        op, w = r.choice([("+", 3), ("-", 2), ("*", -4)])
        f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}[op]
        if r.random() < 0.5:
            return "(%s %s %s)" % (op, c, w), (T, [None if xs[i] is None else f(xs[i], w) for i in ids])
        d = r.choice(["num", "flt"])
        U, ys = t.get(d)
        R = "F64" if "F64" in (T, U) else "I64"
        cv = float if R == "F64" else int
        return "(%s %s %s)" % (op, c, d), (R, [None if xs[i] is None or ys[i] is None else cv(f(xs[i], ys[i])) for i in ids])
    if k < 0.85:
        T, xs = t.get("num")
        return "(> num 3)", ("B8", [int(xs[i] is not None and xs[i] > 3) for i in ids])
    if k < 0.95:
        T, xs = t.get("num")
        return "(- (* num 2) (+ num 1))", (T, [None if xs[i] is None else xs[i] - 1 for i in ids])
    return "(reverse num)", ("I64", [t.get("num")[1][i] for i in reversed(ids)])


def run():
    c = Check("C12")
    c.rule = "one select on a generated table compared with evaluating it row by row; distinct by query and table"
    r = c.sub("gen")
    R, A, R4, A3 = Run(c, "rel", 1, batch=60), Run(c, "asan", 1, batch=60), Run(c, "rel", 4, batch=10), Run(c, "asan", 3, batch=10)
    sizes = [0, 1, 2, 3, 5, 8, 20, 33, 64, 100, 300]
    N = c.scale(1100, 12000)
    for i in range(N):
        n = r.choice([16384, 17001, 20000, 33000]) if i % 50 == 7 else sizes[i % len(sizes)] if i % 10 else 1500
        q = ([R4, A3, R4][i % 3]) if n > 10000 else (A if i % 3 == 0 else R)
        t = table(r, n) if n < 10000 else table(r, n, ["I64", "I32", "SYMBOL", "F64", "DATE", "B8"])
        g = Gen(r, t)
        parts, ids = ["from: t"], list(range(n))
        if r.random() < 0.8:
            w, m = g.where()
            ids = [j for j in range(n) if m[j]]
            parts.append("where: " + w)
        # column ids: enums come back as symbols
        enum = r.random() < 0.15 and any(T == "SYMBOL" for T, _ in t.cols) and all(None not in xs for T, xs in t.cols if T == "SYMBOL")
        names, cols = t.names, None
        k = r.random()
        if k < 0.35:
            res = t.take(ids)
            names, cols = res.names, res.cols
        elif k < 0.85:
            mp = [mapping(r, g, t, ids) for _ in range(r.randrange(1, 4))]
            names = ["x%d" % j if r.random() < 0.7 or e not in t.names else e for j, (e, _) in enumerate(mp)]
            if len(set(names)) < len(names):
                names = ["x%d" % j for j in range(len(mp))]
            parts += ["%s: %s" % (nm, e) for nm, (e, _) in zip(names, mp)]
            cols = [v for _, v in mp]
        elif "num" in t.names:
            # aggregates of the selected rows: one row
            mp = []
            for op in r.sample(["sum", "min", "max", "count", "first", "last"], 2):
                cc = r.choice(["num"] if op in ("sum",) else ["num", "flt"])
                T, xs = t.get(cc)
                w = agg(op, T, [xs[j] for j in ids])
                if w is None:
                    continue
                mp.append(("(%s %s)" % (op, cc), (w[0].upper(), [w[1]])))
            if not mp:
                continue
            names = ["x%d" % j for j in range(len(mp))]
            parts += ["%s: %s" % (nm, e) for nm, (e, _) in zip(names, mp)]
            cols = [v for _, v in mp]
        else:
            continue
        nres = len(cols[0][1])
        if r.random() < 0.35:
            if r.random() < 0.6 and nres:
                tk = r.choice([0, 1, 2, -1, -2, nres, -nres, nres // 2, 5, -5])
                tk = max(-nres, min(nres, tk))
                sel = take_ids(nres, tk)
                parts.append("take: %d" % tk)
            else:
                a = r.randrange(0, nres + 1)
                b = r.randrange(0, nres - a + 1)
                sel = list(range(a, a + b))
                parts.append("take: [%d %d]" % (a, b))
                if nres == 0:
                    parts.pop()
                    sel = []
            cols = [pick(T, xs, sel) for T, xs in cols]
        head, rest = parts[0], parts[1:]
        r.shuffle(rest)
        # the order of the result columns is that of the mappings
        mpn = [p for p in rest if p.split(":")[0] in names]
        order = [p.split(":")[0] for p in mpn]
        if order and set(order) == set(names) and len(order) == len(names) and k >= 0.35:
            cols = [cols[names.index(o)] for o in order]
            names = order
        e = "(select {%s})" % " ".join([head] + rest)
        for _ in range(1):
            z = r.random()
            if z < 0.1:
                e = e.replace("from: t", "from: (select {from: t})")
            elif z < 0.2:
                e = "((fn [t] %s) t)" % e
            elif z < 0.25:
                e = "(do (let zz t) %s)" % e.replace("from: t", "from: zz")
        cols = [mk(*x) for x in cols]
        bt = t.val()
        binds = [("t", bt)] + g.binds
        pre = "t"
        if enum:
            dom = sorted({x for T, xs in t.cols if T == "SYMBOL" for x in xs}, reverse=True) or ["zz"]
            binds += [("endom", ("SYMBOL", dom))]
            pre = "(table [%s] (list %s))" % (" ".join(t.names), " ".join("(enum 'endom (at t '%s))" % nm if T == "SYMBOL" else "(at t '%s)" % nm
                                                                          for nm, (T, _) in zip(t.names, t.cols)))
            e = "(do (set t %s) %s)" % (pre, e)
        want = ("table", ("SYMBOL", names), ("list", cols))
        cls = "big" if n > 10000 else ("enum" if enum else "aggregate" if k >= 0.85 else "project" if k >= 0.35 else "filter")
        q.add(cls, binds, e, want, key="select " + cls)
        if r.random() < 0.3 and not enum:
            q.add("source", [], "t", bt, key="select changed its source", ident=i)
    for q in (R, A, R4, A3):
        q.close()
    return c.finish(300)


main(run)
