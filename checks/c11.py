"""C11: select with by: groups in order of first appearance, aggregates over exactly the rows of the group."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from tabm import *

KEY1 = ["B8", "U8", "C8", "I64", "TIMESTAMP", "F64", "SYMBOL", "GUID", "list"]
KEYN = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID", "list"]
GAGG = {"sum": ["I16", "I32", "I64", "TIME", "F64"], "min": ["I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64"],
        "avg": ["I16", "I32", "I64", "F64"], "med": ["U8", "I16", "I64"], "dev": ["I16", "I32", "I64", "F64"],
        "count": KEYN, "first": KEYN, "last": KEYN}
GAGG["max"] = GAGG["min"]


def value(r, op, T, n):
    """a column to aggregate: sums stay far from overflow"""
    pn = r.choice([0, 0.05, 0.5])
    if op in ("first", "last", "count"):
        return list(col(r, T, n, pn))
    if op in ("min", "max"):
        xs = [elem(r, T, r.choice(["small", "mid", "full"]), pn) for _ in range(n)]
        return [0.0 if T == "F64" and x == 0 else x for x in xs]
    if T == "F64":
        lim = r.choice([1.0, 1e5])
        return [None if r.random() < pn else r.uniform(-lim, lim) for _ in range(n)]
    if T == "U8":
        return [r.randrange(256) for _ in range(n)]
    # a sum over the whole column must fit the type it is summed in (i16 by group: i16)
    b = {"I16": 2**15, "I32": 2**31, "TIME": 2**31, "I64": 2**50}[T] - 1
    lim = max(1, min(b // max(1, n), 10**6) if op in ("sum",) else min(b, 10**4))
    return [None if r.random() < pn else r.randint(-lim, lim) for _ in range(n)]


def run():
    c = Check("C11")
    c.rule = ("one grouped select on a generated table compared with grouping and aggregating its rows in Python; distinct by query, "
              "key types and table")
    r = c.sub("gen")
    R, A, R4, A3 = Run(c, "rel", 1, batch=60), Run(c, "asan", 1, batch=60), Run(c, "rel", 5, batch=10), Run(c, "asan", 3, batch=10)
    sizes = [0, 1, 2, 3, 5, 8, 20, 33, 64, 100, 300]
    N = c.scale(900, 9000)
    stat = {"groups": 0, "max_groups": 0, "rows": 0}
    for i in range(N):
        big = i % 22 == 7
        n = r.choice([16384, 17001, 20000, 33000, 60000]) if big else sizes[i % len(sizes)] if i % 10 else 1500
        q = ([R4, A3, R4][i % 3]) if big else (A if i % 3 == 0 else R)
        nk = 1 if r.random() < 0.55 else r.randrange(2, 5)
        names, cols = [], []
        kt = []
        for j in range(nk):
            T = r.choice(KEY1 if nk == 1 else KEYN)
            if T == "list" and (n == 0 or big):
                T = "SYMBOL"
            if T == "GUID" and big:
                T = "I64"
            xs = list(col(r, T, n, r.choice([0, 0, 0.05, 0.3])))
            if T == "F64":
                xs = [0.0 if x == 0 else x for x in xs]
            names.append("k%d" % j)
            cols.append((T, xs))
            kt.append(T)
        aggs = []
        for j in range(r.randrange(1, 4)):
            op = r.choice(list(GAGG))
            T = r.choice(GAGG[op])
            if T == "list" and (n == 0 or big):
                T = "I64"
            names.append("v%d" % j)
            cols.append((T, value(r, op, T, n)))
            aggs.append((op, T, "v%d" % j))
        names.append("num")
        cols.append(("I64", [None if r.random() < 0.05 else r.randrange(-30, 30) for _ in range(n)]))
        p = list(range(len(names)))
        r.shuffle(p)
        t = Tab([names[j] for j in p], [cols[j] for j in p])
        g = Gen(r, t)
        ids = list(range(n))
        parts = []
        if r.random() < 0.55:
            w, m = g.where()
            ids = [j for j in range(n) if m[j]]
            parts.append("where: " + w)
        keys = [t.get("k%d" % j)[1] for j in range(nk)]
        comp = None
        kn = ["k%d" % j for j in range(nk)]
        form = r.random()
        if nk == 1 and form < 0.5:
            parts.append("by: k0")
        else:
            kn = ["g%d" % j if r.random() < 0.5 else "k%d" % j for j in range(nk)]
            ex = ["k%d" % j for j in range(nk)]
            if r.random() < 0.2:
                # a computed key
                ex[0], kt[0] = "(xbar num 5)", "I64"
                kn[0] = "g0"
                keys[0] = [None if x is None else x // 5 * 5 for x in t.get("num")[1]]
            parts.append("by: {%s}" % " ".join("%s: %s" % z for z in zip(kn, ex)))
        gs = groups(keys, ids)
        stat["groups"] += len(gs)
        stat["rows"] += len(ids)
        stat["max_groups"] = max(stat["max_groups"], len(gs))
        res = [(T, [k[m[0]] for m in gs]) for T, k in zip(kt, keys)]
        rn = list(kn)
        judge = []
        z = r.random()
        if z < 0.12:
            rest = [nm for nm in t.names if nm not in kn]
            for nm in rest:
                T, xs = t.get(nm)
                rn.append(nm)
                res.append((T, [xs[m[0]] for m in gs]))
        else:
            for op, T, nm in aggs:
                xs = t.get(nm)[1]
                e = "(%s %s)" % (op, nm)
                w = [agg(op, T, [xs[j] for j in m]) for m in gs]
                if op == "sum" and T == "I16":
                    w = [("i16", v[1]) for v in w]
                zz = r.random()
                if zz < 0.06 and T not in ("C8",):
                    e, w = nm, [mk(T, [xs[j] for j in m]) for m in gs]
                elif zz < 0.14 and gs:
                    xs = t.get("num")[1]
                    e = "(sum (+ num 1))"
                    w = [("i64", sum(xs[j] + 1 for j in m if xs[j] is not None)) for m in gs]
                elif zz < 0.22:
                    xs = t.get("num")[1]
                    e = "(- (max num) (min num))"
                    w = []
                    for m in gs:
                        v = [xs[j] for j in m if xs[j] is not None]
                        w.append(("i64", max(v) - min(v) if v else None))
                rn.append("r" + nm)
                res.append(w)
                parts.append("r%s: %s" % (nm, e))
        sel = list(range(len(gs)))
        if r.random() < 0.2 and gs:
            tk = r.choice([1, 2, -1, len(gs), len(gs) // 2, -(len(gs) // 2)])
            tk = max(-len(gs), min(tk, len(gs)))
            sel = take_ids(len(gs), tk)
            parts.append("take: %d" % tk)
        r.shuffle(parts)
        # result columns follow the order of the mappings
        order = [x.split(":")[0] for x in parts if x.startswith("rv")]
        if order:
            fixed = len(kn)
            res = res[:fixed] + [res[rn.index(o)] for o in order]
            rn = kn + order

        def judge(got, rn=rn, res=res, sel=sel):
            if got[0] != "table":
                return "want a table"
            if got[1][1] != rn:
                return "columns: want %s" % rn
            if got[2][0] != "list":
                return "columns are not a list"
            for nm, w, x in zip(rn, res, got[2][1]):
                if len(x) != 2 or not isinstance(x[1], (list, str)):
                    return "column %s is %s" % (nm, show(x))
                if len(x[1]) != len(sel):
                    return "column %s: want %d rows, got %d" % (nm, len(sel), len(x[1]))
                if isinstance(w, tuple):
                    d = mk(w[0], [w[1][j] for j in sel])
                    if not same(d, x):
                        return "column %s: %s" % (nm, diff(d, x))
                    continue
                for j, s in enumerate(sel):
                    v = w[s]
                    y = x[1][j] if x[0] == "list" else (x[0].lower(), x[1][j])
                    if v is None:
                        continue
                    why = v(y) if callable(v) else None if same(v, y) else "want %s" % show(v)
                    if why:
                        return "column %s row %d: %s, got %s" % (nm, j, why, show(y))
            return None
        e = "(select {from: t %s})" % " ".join(parts)
        cls = "%s%s" % ("big " if big else "", kt[0] if nk == 1 else "%d keys" % nk)
        q.add(cls, [("t", t.val())] + g.binds, e, judge, key="by " + cls)
        if i % 9 == 0:
            q.add("source", [], "t", t.val(), key="select changed its source", ident=i)
    # symbol keys through an enumeration
    for i in range(c.scale(20, 150)):
        n = r.choice([1, 5, 40, 300, 17000])
        dom = ["s%d" % j for j in range(r.choice([1, 3, 50]))]
        r.shuffle(dom)
        ks = [r.choice(dom) for _ in range(n)]
        vs = [r.randrange(-9, 10) for _ in range(n)]
        m = [int(r.random() < 0.7) for _ in range(n)]
        ids = [j for j in range(n) if m[j]] if i % 2 else list(range(n))
        gs = groups([ks], ids)
        e = "(do (set t (table [k v m] (list (enum 'endom ks) vs m))) (select {from: t by: k s: (sum v) f: (first v) l: (last k)%s}))" % (" where: m" if i % 2 else "")
        want = ("table", ("SYMBOL", ["k", "s", "f", "l"]),
                ("list", [("SYMBOL", [ks[x[0]] for x in gs]), ("I64", [sum(vs[j] for j in x) for x in gs]), ("I64", [vs[x[0]] for x in gs]), ("SYMBOL", [ks[x[-1]] for x in gs])]))
        (R4 if n > 1000 else A if i % 2 else R).add("enum", [("endom", ("SYMBOL", dom)), ("ks", ("SYMBOL", ks)), ("vs", ("I64", vs)), ("m", ("B8", m))], e, want, key="by enum")
    for q in (R, A, R4, A3):
        q.close()
    c.extra["observed"] = stat
    return c.finish(300)


if __name__ == "__main__":
    main(run)
