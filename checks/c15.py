"""C15: asof-join, window-join and window-join1 against scanning the rows of the right table one by one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from tabm import *
from c14 import tables, combine, judge_table, shuffled
from c11 import GAGG, value

TIMET = ["I32", "DATE", "TIME", "I64", "TIMESTAMP"]
KT = [T for T in ALLT if T != "list"]
WK = ["B8", "U8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "SYMBOL"]
NEG = float("-inf")


def tk(x):
    return NEG if x is None else x


def times(r, T, n, base, span, pn):
    lo, hi = rng_int(T)
    return [None if r.random() < pn else max(lo, min(hi, base + r.randint(0, span))) for _ in range(n)]


def rows_by_key(t, keys):
    d = {}
    ks = [t.get(k)[1] for k in keys]
    for i in range(t.n()):
        d.setdefault(tuple(hk(k[i]) for k in ks), []).append(i)
    return d, (lambda u, i: d.get(tuple(hk(u.get(k)[1][i]) for k in keys)))


def win(form, ts, lo, hi):
    """positions of the window in the ordered times"""
    if form == 1:
        return [i for i, t in enumerate(ts) if lo <= t <= hi]
    # from the row prevailing at the lower bound (the first row when there is none)
    s = 0
    for i, t in enumerate(ts):
        if t <= lo:
            s = i
    e = [i for i, t in enumerate(ts) if t <= hi]
    return [i for i in range(s, len(ts)) if ts[s] <= hi and i <= (e[-1] if e else -1)]


def run():
    c = Check("C15")
    c.rule = "one as-of or window join of two generated tables compared with scanning the right rows of each left row in Python; distinct by join, types and tables"
    r = c.sub("gen")
    R, A, R4, A3 = Run(c, "rel", 1, batch=60), Run(c, "asan", 1, batch=60), Run(c, "rel", 5, batch=10), Run(c, "asan", 3, batch=60)
    sizes = [0, 1, 2, 3, 5, 8, 20, 33, 100, 300]
    stat = {"asof": 0, "asof_matched": 0, "windows": 0, "nonempty_windows": 0, "boundary_rows": 0, "errors": 0}
    err = lambda g: None if g[0] == "err" else "want an error"
    for i in range(c.scale(700, 7000)):
        big = i % 50 == 7
        n = r.choice([16384, 20000]) if big else r.choice(sizes)
        m = r.choice([0, 1, 300, 17000]) if big else r.choice(sizes)
        q = R4 if big else (A, R, A3, R)[i % 4]
        nk = r.choice([1, 1, 1, 2, 3])
        left, right, kt = tables(r, n, m, nk, big, KT)
        T = r.choice(TIMET)
        keys = ["k%d" % j for j in range(nk)]
        span = r.choice([1, 3, 10, 100, 10**6])
        base = r.choice([0, -5, 8000, 300000, -10**6])
        pn = r.choice([0, 0, 0.1])
        for t, cnt, p in ((left, n, pn), (right, m, pn)):
            xs = times(r, T, cnt, base, span, p)
            if r.random() < 0.5:
                xs.sort(key=tk)
            j = r.randrange(len(t.names) + 1)
            t.names.insert(j, "ts")
            t.cols.insert(j, (T, xs))
        r.shuffle(keys)
        ks = keys + ["ts"]
        d, find = rows_by_key(right, keys)
        rt = right.get("ts")[1]
        lt = left.get("ts")[1]
        ids = []
        for key, rows in d.items():
            rows.sort(key=lambda j: tk(rt[j]))       # stable: equal times keep the row order
        import bisect
        order = {id(v): [tk(rt[j]) for j in v] for v in d.values()}
        for j in range(n):
            rows = find(left, j)
            p = bisect.bisect_right(order[id(rows)], tk(lt[j])) if rows else 0
            ids.append(rows[p - 1] if p else None)
        names, cols = combine(left, right, ks, ids)
        stat["asof"] += n
        stat["asof_matched"] += sum(x is not None for x in ids)
        binds = [("l", left.val()), ("r", right.val()), ("ks", ("SYMBOL", ks))]
        if r.random() < 0.03:
            stat["errors"] += 1
            z = r.randrange(3)
            if z == 0:
                right.names[right.names.index("ts")] = "zz"
            elif z == 1:
                T2 = r.choice([x for x in ALLT[:-1] if x != T])
                right.cols[right.names.index("ts")] = (T2, list(col(r, T2, m)))
            else:
                T2 = r.choice(["F64", "SYMBOL", "B8", "I16", "GUID"])
                left.cols[left.names.index("ts")] = (T2, list(col(r, T2, n)))
                right.cols[right.names.index("ts")] = (T2, list(col(r, T2, m)))
            q.add("asof bad", [("l", left.val()), ("r", right.val()), ("ks", ("SYMBOL", ks))], "(asof-join ks l r)", err, key="asof with bad columns")
            continue
        q.add("asof %s by %s" % (T, kt[0] if nk == 1 else "%d keys" % nk), binds, "(asof-join ks l r)", judge_table(names, cols, ks),
              key="asof-join" + (" big" if big else ""))
        if i % 7 == 0:
            q.add("source", [], "(list l r ks)", ("list", [left.val(), right.val(), ("SYMBOL", ks)]), key="join changed its source", ident=i)
    for i in range(c.scale(800, 8000)):
        big = i % 60 == 7
        n = r.choice([17000]) if big else r.choice(sizes)
        m = r.choice([1, 300, 3000]) if big else r.choice(sizes)
        q = R4 if big else (A, R, A3, R)[i % 4]
        nk = r.choice([0, 1, 1, 1, 2, 3])
        T = r.choice(TIMET)
        span = r.choice([1, 3, 10, 100, 10**6])
        base = r.choice([0, -5, 8000, 300000])
        pn = r.choice([0, 0, 0.1])
        ln, lc, rn, rc = ["ts"], [(T, times(r, T, n, base, span, pn))], ["ts"], [(T, times(r, T, m, base, span, pn))]
        keys, kt = [], []
        for j in range(nk):
            K = r.choice(WK)
            k = list(col(r, K, max(1, n)))[:r.choice([1, 2, 5, 50])]
            keys.append("k%d" % j)
            kt.append(K)
            for a, b, cnt in ((ln, lc, n), (rn, rc, m)):
                a.append("k%d" % j)
                b.append((K, [r.choice(k) for _ in range(cnt)]))
        ln.append("lc")
        lc.append(("I64", list(range(n))))
        aggs = []
        for j in range(r.randrange(1, 4)):
            op = r.choice(list(GAGG) + ["collect"])
            V = r.choice(GAGG.get(op, ALLT[:-1]))
            if V == "list":
                V = "I64"
            rn.append("v%d" % j)
            rc.append((V, value(r, op if op != "collect" else "first", V, m)))
            aggs.append((op, V, "v%d" % j))
        left, right = shuffled(r, ln, lc), shuffled(r, rn, rc)
        r.shuffle(keys)
        ks = keys + ["ts"]
        lt = left.get("ts")[1]
        lo, hi = rng_int(T)
        # windows around the time of the row, some with both bounds on rows, some reversed, empty or far away
        a, b = r.choice([(-2, 2), (0, 0), (-10, 10), (-10**5, 10**5), (1, 3), (-3, -1), (2, 1), (-1, 0), (0, 1), (-10**7, -10**6)])
        cl = lambda x: max(lo, min(hi, x))
        w0, w1 = [], []
        for x in lt:
            y = base if x is None else x
            if r.random() < 0.1:
                a2, b2 = r.randint(-5, 5), r.randint(-5, 5)
            else:
                a2, b2 = a, b
            w0.append(None if r.random() < pn / 4 else cl(y + a2))
            w1.append(None if r.random() < pn / 4 else cl(y + b2))
        WT = r.choice([T, T, "I32" if T in ("I32", "DATE", "TIME") else "I64"])
        form = r.randrange(2)
        d, find = rows_by_key(right, keys)
        rt = right.get("ts")[1]
        for rows in d.values():
            rows.sort(key=lambda j: tk(rt[j]))
        sel = []
        for j in range(n):
            rows = find(left, j)
            if not rows:
                sel.append([])
                continue
            p = win(form, [tk(rt[z]) for z in rows], tk(w0[j]), tk(w1[j])) if len(rows) < 200 or j < 40 or not big else None
            if p is None:
                sel.append(None)
                continue
            sel.append([rows[z] for z in p])
            stat["boundary_rows"] += sum(tk(rt[rows[z]]) in (tk(w0[j]), tk(w1[j])) for z in p)
        stat["windows"] += n
        stat["nonempty_windows"] += sum(bool(x) for x in sel)
        names, cols = list(left.names), [(X, list(xs)) for X, xs in left.cols]
        parts = []
        for op, V, nm in aggs:
            xs = right.get(nm)[1]
            names.append("r" + nm)

            def jd(x, op=op, V=V, xs=xs, n=n, sel=sel):
                if len(x) != 2 or not isinstance(x[1], (list, str)) or len(x[1]) != n:
                    return "want %d elements, got %s" % (n, show(x))
                for j, s in enumerate(sel):
                    if s is None:
                        continue
                    y = x[1][j] if x[0] == "list" else (x[0].lower(), x[1][j])
                    vs = [xs[z] for z in s]
                    if op == "collect":
                        w = mk(V, vs)
                    elif not vs and op in ("sum", "first", "last"):
                        # no rows: nothing to sum or to pick
                        if y[1] in (None, 0, "\0"):
                            continue
                        return "row %d: want nothing for an empty window, got %s" % (j, show(y))
                    else:
                        w = agg(op, V, vs)
                        if op == "sum" and V == "I16" and w:
                            w = ("i16", w[1])
                        if op in ("first", "last"):
                            # nulls are skipped in windows
                            pass
                    if w is None:
                        continue
                    why = w(y) if callable(w) else None if same(w, y) else "want %s" % show(w)
                    if why:
                        return "row %d (%d rows in the window): %s, got %s" % (j, len(vs), why, show(y))
                return None
            cols.append(jd)
            parts.append("r%s: %s" % (nm, nm if op == "collect" else "(%s %s)" % (op, nm)))
        binds = [("l", left.val()), ("r", right.val()), ("ks", ("SYMBOL", ks)), ("w", ("list", [(WT, w0), (WT, w1)]))]
        e = "(window-join%s ks w l r {%s})" % ("1" if form else "", " ".join(parts))
        if r.random() < 0.03:
            stat["errors"] += 1
            z = r.randrange(4)
            bad = [("list", [(WT, w0)]), ("list", [(WT, w0 + [1]), (WT, w1)]), ("list", [("F64", [1.0] * n), ("F64", [1.0] * n)]), ("list", [("i64", 1), ("i64", 2)])][z]
            q.add("window bad", binds[:3] + [("w", bad)], e, err, key="window join with bad windows")
            continue
        q.add("window%d %s by %s" % (form, T, kt[0] if nk == 1 else "%d keys" % nk), binds, e, judge_table(names, cols, []), key="window-join%d" % form)
        if i % 7 == 0:
            q.add("source", [], "(list l r ks w)", ("list", [left.val(), right.val(), ("SYMBOL", ks), ("list", [(WT, w0), (WT, w1)])]), key="join changed its source", ident=i)
    for q in (R, A, R4, A3):
        q.close()
    c.extra["observed"] = stat
    return c.finish(300)


main(run)
