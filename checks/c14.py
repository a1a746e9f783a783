"""C14: left-join and inner-join against matching the rows one by one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from tabm import *

NUL = {"B8": 0, "U8": 0, "C8": "\0", "list": ("null",)}


def judge_table(names, cols, keys):
    """columns compared by name, key columns must come first"""
    def f(got):
        if got[0] != "table":
            return "want a table"
        gn = got[1][1]
        if sorted(gn) != sorted(names):
            return "columns: want %s" % names
        if gn[:len(keys)] != keys:
            return "key columns are not first: %s" % gn
        if got[2][0] != "list":
            return "columns are not a list"
        for nm, x in zip(gn, got[2][1]):
            w = cols[names.index(nm)]
            if callable(w):
                d = w(x)
                if d:
                    return "column %s: %s" % (nm, d)
                continue
            w = mk(*w)
            if not same(w, x):
                return "column %s: %s" % (nm, diff(w, x))
        return None
    return f


def draw(r, T, n, pool):
    """n elements, most of them from the pool"""
    p = r.choice([0.2, 0.7, 1.0])
    other = list(col(r, T, n))
    if T == "F64":
        other = [0.0 if x == 0 else x for x in other]
    return [r.choice(pool) if pool and r.random() < p else x for x in other]


def shuffled(r, names, cols):
    p = list(range(len(names)))
    r.shuffle(p)
    return Tab([names[j] for j in p], [cols[j] for j in p])


def tables(r, n, m, nk, big, kts=ALLT):
    """two tables with nk common key columns, columns of their own and some common ones"""
    ln, lc, rn, rc, kt = [], [], [], [], []
    for j in range(nk):
        T = r.choice(kts)
        if T == "list" and (big or not n or not m):
            T = "SYMBOL"
        k = [0.0 if T == "F64" and x == 0 else x for x in col(r, T, max(n, 1))]
        pool = list(k[:r.choice([1, 2, 5, 50, 5000])])
        kt.append(T)
        ln.append("k%d" % j)
        lc.append((T, draw(r, T, n, pool)))
        rn.append("k%d" % j)
        rc.append((T, draw(r, T, m, pool)))
    for names, cols, p, c in ((ln, lc, "l", n), (rn, rc, "r", m)):
        for j in range(r.randrange(0, 3)):
            T = r.choice(ALLT if c and not big else ALLT[:-1])
            names.append("%s%d" % (p, j))
            cols.append((T, list(col(r, T, c))))
    for j in range(r.choice([0, 0, 1, 2])):
        T = r.choice(ALLT if n and m and not big else ALLT[:-1])
        ln.append("c%d" % j)
        lc.append((T, list(col(r, T, n))))
        rn.append("c%d" % j)
        rc.append((T, list(col(r, T, m))))
    return shuffled(r, ln, lc), shuffled(r, rn, rc), kt


def combine(left, right, keys, ids, keep=None):
    """result columns: keys and left columns of the rows, right columns at ids (None: null, or the left value of a common column)"""
    rows = range(left.n()) if keep is None else keep
    names = list(keys) + [c for c in left.names if c not in keys] + [c for c in right.names if c not in keys and c not in left.names]
    cols = []
    for c in names:
        if c in keys or c not in right.names:
            T, xs = left.get(c)
            cols.append((T, [xs[i] for i in rows]))
            continue
        T, ys = right.get(c)
        xs = left.get(c)[1] if c in left.names else None
        cols.append((T, [ys[ids[i]] if ids[i] is not None else xs[i] if xs is not None else NUL.get(T) for i in rows]))
    return names, cols


def match(left, right, keys):
    d = {}
    rk = [right.get(k)[1] for k in keys]
    for i in range(right.n()):
        d.setdefault(tuple(hk(k[i]) for k in rk), i)
    lk = [left.get(k)[1] for k in keys]
    return [d.get(tuple(hk(k[i]) for k in lk)) for i in range(left.n())]


def run():
    c = Check("C14")
    c.rule = "one join of two generated tables compared with matching their rows in Python; distinct by join, key types and tables"
    r = c.sub("gen")
    R, A, R4 = Run(c, "rel", 1, batch=60), Run(c, "asan", 1, batch=60), Run(c, "rel", 5, batch=10)
    sizes = [0, 1, 2, 3, 5, 8, 20, 33, 100, 300, 1500]
    stat = {"joins": 0, "left_rows": 0, "matched": 0, "errors": 0, "max_rows": 0}
    for i in range(c.scale(1000, 14000)):
        big = i % 50 == 7
        n = r.choice([16384, 20000, 33000]) if big else r.choice(sizes)
        m = r.choice([0, 1, 300, 17000, 20000]) if big else r.choice(sizes)
        q = R4 if big else A if i % 3 == 0 else R
        nk = 1 if r.random() < 0.45 else r.randrange(2, 5)
        left, right, kt = tables(r, n, m, nk, big)
        keys = ["k%d" % j for j in range(nk)]
        r.shuffle(keys)
        binds = [("l", left.val()), ("r", right.val()), ("ks", ("SYMBOL", keys))]
        z = r.random()
        op = r.choice(["left-join", "inner-join"])
        cls = "%s %s" % (op, kt[0] if nk == 1 else "%d keys" % nk)
        e = "(%s ks l r)" % op
        err = lambda g: None if g[0] == "err" else "want an error"
        if z < 0.02:
            # a key column the other table lacks, or of another type
            k = r.choice(keys)
            j = right.names.index(k)
            if r.random() < 0.5:
                right.names[j] = "zz"
            else:
                T = r.choice([T for T in ALLT[:-1] if T != right.cols[j][0]])
                right.cols[j] = (T, list(col(r, T, m)))
            binds[1] = ("r", right.val())
            stat["errors"] += 1
            q.add("bad keys", binds, e, err, key="join with bad keys")
        elif z < 0.03:
            com = [x for x in right.names if x in left.names and x not in keys]
            if not com:
                continue
            j = right.names.index(com[0])
            T = r.choice([T for T in ALLT[:-1] if T != right.cols[j][0]])
            right.cols[j] = (T, list(col(r, T, m)))
            binds[1] = ("r", right.val())
            stat["errors"] += 1
            q.add("bad column", binds, e, err, key="join with columns of different types")
        else:
            ids = match(left, right, keys)
            keep = None if op == "left-join" else [j for j in range(n) if ids[j] is not None]
            names, cols = combine(left, right, keys, ids, keep)
            stat["joins"] += 1
            stat["left_rows"] += n
            stat["matched"] += sum(x is not None for x in ids)
            stat["max_rows"] = max(stat["max_rows"], n, m)
            q.add(cls, binds, e, judge_table(names, cols, keys), key=op + (" big" if big else ""))
        if i % 7 == 0:
            q.add("source", [], "(list l r ks)", ("list", [left.val(), right.val(), ("SYMBOL", keys)]), key="join changed its source", ident=i)
    # enumerated symbols: keys and columns, against plain symbols or another enumeration
    for i in range(c.scale(60, 600)):
        n, m = r.choice([0, 1, 5, 40, 300]), r.choice([0, 1, 5, 40, 300])
        dom = ["s%d" % j for j in range(r.choice([1, 3, 20]))]
        d2 = dom + ["t%d" % j for j in range(3)]
        r.shuffle(d2)
        lk, rk = [r.choice(dom) for _ in range(n)], [r.choice(d2) for _ in range(m)]
        lv, rv = [r.choice(dom) for _ in range(n)], [r.choice(d2) for _ in range(m)]
        ln, rn = list(range(n)), list(range(m))
        left, right = Tab(["k", "v", "a"], [("SYMBOL", lk), ("SYMBOL", lv), ("I64", ln)]), Tab(["k", "v", "b"], [("SYMBOL", rk), ("SYMBOL", rv), ("I64", rn)])
        w = r.randrange(4)
        L = "(table [k v a] (list %s %s ln))" % (("(enum 'd1 lk)", "(enum 'd1 lv)") if w & 1 else ("lk", "lv"))
        Rr = "(table [k v b] (list %s %s rn))" % (("(enum 'd2 rk)", "(enum 'd2 rv)") if w & 2 else ("rk", "rv"))
        keys = r.choice([["k"], ["k", "v"]])
        op = r.choice(["left-join", "inner-join"])
        ids = match(left, right, keys)
        keep = None if op == "left-join" else [j for j in range(n) if ids[j] is not None]
        names, cols = combine(left, right, keys, ids, keep)
        (A if i % 2 else R).add("enum", [("d1", ("SYMBOL", dom)), ("d2", ("SYMBOL", d2)), ("lk", ("SYMBOL", lk)), ("lv", ("SYMBOL", lv)), ("rk", ("SYMBOL", rk)),
                                         ("rv", ("SYMBOL", rv)), ("ln", ("I64", ln)), ("rn", ("I64", rn)), ("ks", ("SYMBOL", keys))],
                                "(do (set j (%s ks %s %s)) (table (key j) (map (fn [z] (value z)) (value j))))" % (op, L, Rr) if 0 else "(%s ks %s %s)" % (op, L, Rr),
                                judge_table(names, cols, keys), key="enum " + op)
    for q in (R, A, R4):
        q.close()
    c.extra["observed"] = stat
    return c.finish(300)


if __name__ == "__main__":
    main(run)
