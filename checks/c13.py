"""C13: insert, upsert and update against a model of tables as Python columns, over histories of operations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from tabm import *

KEYT = ["I64", "SYMBOL", "GUID", "TIMESTAMP", "DATE", "I32", "U8", "C8"]
NUL = {"B8": 0, "U8": 0, "C8": "\0"}


def fresh(r, n0=None):
    n = r.choice([0, 1, 2, 3, 5, 8, 20, 60]) if n0 is None else n0
    nc = r.randrange(1, 6)
    names, cols = [], []
    for j in range(nc):
        T = r.choice(ALLT[:-1]) if j or r.random() < 0.3 else r.choice(KEYT)
        names.append("c" + "abcdefgh"[j])
        cols.append((T, list(col(r, T, n))))
    names.append("num")
    cols.append(("I64", [None if r.random() < 0.1 else r.randrange(-50, 50) for _ in range(n)]))
    names.append("flt")
    cols.append(("F64", [None if r.random() < 0.1 else r.randrange(-400, 400) / 4 for _ in range(n)]))
    return Tab(names, cols)


def copy(t):
    return Tab(t.names, [(T, list(xs)) for T, xs in t.cols])


def atom(T, x):
    return (T.lower(), x)


def rows(r, t, m, given):
    """values by column for m rows (None: one record of atoms)"""
    out = {}
    for c in given:
        T, xs = t.get(c)
        k = m if m is not None else 1
        v = []
        for _ in range(k):
            if c in ("num", "flt") and T in ("I64", "F64"):
                w = r.randrange(-50, 50)
                v.append(None if r.random() < 0.1 else w / 4 if T == "F64" else w)
                continue
            v.append(r.choice(xs) if len(xs) and r.random() < 0.4 else elem(r, T, "small", 0.1))
        out[c] = v
    return out


def data(r, t, vals, m):
    """(binds, text of the data argument) in one of its forms"""
    form = r.random()
    order = list(vals)
    if form < 0.4:      # list, by position: a prefix of the columns
        src = order
        v = ("list", [mk(t.get(c)[0], vals[c]) if m is not None else atom(t.get(c)[0], vals[c][0]) for c in src])
        return [("q", v)], "q"
    r.shuffle(order)
    v = [mk(t.get(c)[0], vals[c]) if m is not None else atom(t.get(c)[0], vals[c][0]) for c in order]
    if form < 0.7 or m is None:
        return [("q", ("list", v)), ("qn", ("SYMBOL", order))], "(dict qn q)"
    return [("q", ("list", v)), ("qn", ("SYMBOL", order))], "(table qn q)"


def append(t, vals, i):
    for j, c in enumerate(t.names):
        T, xs = t.cols[j]
        xs.append(vals[c][i] if c in vals else NUL.get(T))


def keyof(T, x):
    return x


def op_insert(r, t):
    m = None if r.random() < 0.4 else r.choice([1, 2, 3, 7, 30])
    given = t.names if r.random() < 0.6 else t.names[:r.randrange(1, len(t.names) + 1)]
    vals = rows(r, t, m, given)
    if r.random() < 0.3 and len(given) > 1:
        vals = {c: vals[c] for c in r.sample(given, r.randrange(1, len(given)))}
        b, d = data(r, t, vals, m)
        if d == "q":      # by position only a prefix can be given
            b = [("q", ("list", [mk(t.get(c)[0], vals[c]) if m is not None else atom(t.get(c)[0], vals[c][0]) for c in vals])), ("qn", ("SYMBOL", list(vals)))]
            d = "(dict qn q)"
    else:
        b, d = data(r, t, vals, m)
    u = copy(t)
    for i in range(1 if m is None else m):
        append(u, vals, i)
    return b, "(insert %%s %s)" % d, u


def op_upsert(r, t):
    n = t.n()
    if t.cols[0][0] not in KEYT:
        return None
    kmax = 1
    while kmax < len(t.names) and t.cols[kmax][0] in KEYT and kmax < 3:
        kmax += 1
    keys = r.randrange(1, kmax + 1)
    m = None if r.random() < 0.4 else r.choice([1, 2, 3, 7, 20])
    k = r.randrange(keys, len(t.names) + 1)
    given = t.names[:k]
    vals = rows(r, t, m, given)
    cnt = 1 if m is None else m
    # whole keys of present rows, and new ones
    for i in range(cnt):
        if n and r.random() < 0.5:
            j = r.randrange(n)
            for c in given[:keys]:
                vals[c][i] = t.get(c)[1][j]
        elif r.random() < 0.5:
            for c in given[:keys]:
                vals[c][i] = elem(r, t.get(c)[0], "full") if c != "num" else r.randrange(-90, 90)
    kt = lambda i: tuple(vals[c][i] for c in given[:keys])
    have = {}
    for i in range(n):
        have.setdefault(tuple(t.get(c)[1][i] for c in given[:keys]), i)
    seen, keep = set(), []
    for i in range(cnt):
        if kt(i) in have or kt(i) not in seen:
            keep.append(i)
            seen.add(kt(i))
    vals = {c: [vals[c][i] for i in keep] for c in given}
    if m is not None:
        m = len(keep)
    u = copy(t)
    for i in range(len(keep)):
        j = have.get(kt(i))
        if j is None:
            append(u, vals, i)
        else:
            for c in given[keys:]:
                u.get(c)[1][j] = vals[c][i]
    b, d = data(r, t, vals, m)
    return b, "(upsert %%s %d %s)" % (keys, d), u


def value(r, t, ids):
    """(text, type, values at ids, atom?) of an update expression over the rows ids"""
    k = r.random()
    c = r.choice(["num", "flt"])
    T, xs = t.get(c)
    if k < 0.6 and (t.get("num")[0], t.get("flt")[0]) != ("I64", "F64"):
        k = 0.7
    if k < 0.3:
        w = r.randrange(-5, 6)
        return "(+ %s %d)" % (c, w), T, [None if xs[i] is None else xs[i] + w for i in ids], False
    if k < 0.45:
        return "(* 2 (- num 3))", "I64", [None if t.get("num")[1][i] is None else 2 * (t.get("num")[1][i] - 3) for i in ids], False
    if k < 0.6:
        op = r.choice(["max", "min", "count", "first", "last"]) if c == "flt" else r.choice(["sum", "max", "min", "count"])
        w = agg(op, T, [xs[i] for i in ids])
        if w is None:
            return None
        return "(%s %s)" % (op, c), w[0].upper(), [w[1]] * len(ids), True
    d = r.choice(t.names)
    T, xs = t.get(d)
    if k < 0.8:
        return d, T, [xs[i] for i in ids], False
    x = elem(r, T, "small", 0.1)
    return ("const", atom(T, x)), T, [x] * len(ids), True


def op_update(r, t, i):
    n = t.n()
    g = Gen(r, t)
    parts, ids = [], list(range(n))
    where = r.random() < 0.6
    if where:
        w, m = g.where()
        ids = [j for j in range(n) if m[j]]
        parts.append("where: " + w)
    by = r.random() < 0.35 and n and ids
    gs = [ids]
    if by:
        kc = [c for c, (T, _) in zip(t.names, t.cols) if T in ("B8", "U8", "C8", "I64", "TIMESTAMP", "SYMBOL", "GUID")]
        k = r.random()
        if k < 0.6 and kc:
            c = r.choice(kc)
            parts.append(r.choice(["by: %s", "by: {g: %s}"]) % c)
            gs = groups([t.get(c)[1]], ids)
        else:
            kc = [c for c in t.names if t.get(c)[0] != "F64"]
            cs = r.sample(kc, min(len(kc), r.choice([2, 2, 3])))
            if len(cs) < 2:
                return None
            parts.append("by: {%s}" % " ".join("g%d: %s" % (j, c) for j, c in enumerate(cs)))
            gs = groups([t.get(c)[1] for c in cs], ids)
    u = copy(t)
    done = set()
    new = 0
    for _ in range(r.choice([1, 1, 2])):
        v = []
        seed = r.random()
        for q in gs:
            import random
            v.append(value(random.Random(seed), t, q))
        if any(x is None for x in v) or not v:
            return None
        e, T = v[0][0], v[0][1]
        if isinstance(e, tuple):
            e = g.const(T, v[0][2][0] if v[0][2] else None)
            if not v[0][2]:
                return None
        same_t = [c for c in t.names if t.get(c)[0] == T and c not in done]
        if not where and not by:
            c = r.choice(t.names)            # whole column: any type
            if c in done:
                continue
            if v[0][3] and T == "C8" and n == 0:
                return None
            u.cols[u.names.index(c)] = (T, list(v[0][2]))
        elif same_t and r.random() < 0.75:
            c = r.choice(same_t)
            for q, x in zip(gs, v):
                for j, y in zip(q, x[2]):
                    u.get(c)[1][j] = y
        else:
            if T == "C8" or T in ("B8", "U8"):
                return None
            c = "new%d" % (i * 2 + new)
            new += 1
            xs = [None] * n
            for q, x in zip(gs, v):
                for j, y in zip(q, x[2]):
                    xs[j] = y
            u.names.append(c)
            u.cols.append((T, xs))
        done.add(c)
        parts.append("%s: %s" % (c, e))
    if not done:
        return None
    # columns are added in the order they are written
    order = [p.split(":")[0] for p in parts if p.split(":")[0] in done]
    rest = [p for p in parts if p.split(":")[0] not in done]
    mp = [p for p in parts if p.split(":")[0] in done]
    r.shuffle(rest)
    return g.binds, "(update {%s})" % " ".join(["from: %s"] + (rest + mp if r.random() < 0.5 else mp + rest)), u


def bad(r, t):
    """an operation which must fail and change nothing: binds, text"""
    n = t.n()
    k = r.randrange(7)
    T = t.cols[0][0]
    if k == 0:
        return [], "(insert %s (list))"
    if k == 1:
        vals = rows(r, t, 2, t.names)
        v = [mk(t.get(c)[0], vals[c]) for c in t.names]
        j = r.randrange(len(v))
        v[j] = (v[j][0], v[j][1][:1])
        return [("q", ("list", v))], r.choice(["(insert %s q)", "(upsert %s 1 q)"])
    if k == 2:
        vals = rows(r, t, None, t.names)
        v = [atom(t.get(c)[0], vals[c][0]) for c in t.names] + [("i64", 1)]
        return [("q", ("list", v))], r.choice(["(insert %s q)", "(upsert %s 1 q)"])
    if k == 3:
        vals = rows(r, t, 3, t.names)
        v = [mk(t.get(c)[0], vals[c]) for c in t.names]
        fl = [j for j, (T, _) in enumerate(t.cols) if T == "F64"]
        if not fl:
            return [], "(insert %s (list))"
        j = r.choice(fl)
        v[j] = r.choice([("SYMBOL", ["a", "b", "c"]), ("I64", [1, 2, 3]), ("list", [("i64", 1)] * 3), ("f64", 1.0)])
        return [("q", ("list", v))], r.choice(["(insert %s q)", "(upsert %s 1 q)"])
    if k == 4:
        return [("q", ("list", [("i64", 1)])), ("qn", ("SYMBOL", ["nosuch"]))], r.choice(["(insert %s (dict qn q))", "(upsert %s 1 (dict qn q))"])
    if k == 5:
        return [], r.choice(["(update {from: %s num: (+ nosuch 1)})", "(update {from: %s num: [1 2 3 4 5 6 7 8 9 10 11 12 13] where: (> num 0)})" if n != 13 else "(insert %s 5)",
                             "(update {from: %s where: (> num 0) num: 'sym})" if n else "(insert %s 5)",
                             "(update {from: %s by: num num: 'sym})" if n else "(insert %s 5)", "(update {from: %s where: (> num nosuch) num: 1})",
                             "(update {from: %s})", "(insert %s 'x)"])
    vals = rows(r, t, None, t.names)
    return [("q", ("list", [atom(t.get(c)[0], vals[c][0]) for c in t.names]))], r.choice(["(upsert %s 0 q)", "(upsert %s -1 q)", "(upsert %s 99 q)"])


def run():
    c = Check("C13")
    c.rule = "one insert, upsert or update compared with the model of the table, or the table and its aliases compared after it; distinct by operation and table"
    r = c.sub("gen")
    R, A = Run(c, "rel", 1, batch=60), Run(c, "asan", 1, batch=60)
    R4 = Run(c, "rel", 4, batch=20)
    N = c.scale(900, 9000)
    for h in range(N):
        q = A if h % 3 == 0 else R4 if h % 29 == 1 else R
        t = fresh(r, r.choice([17000, 20000]) if q is R4 else None)
        q.add("setup", [("t", t.val())] + ([("endom", ("SYMBOL", sorted({x for T, xs in t.cols if T == "SYMBOL" for x in xs if x})))] if 0 else []),
              "t", t.val(), ident=(h, "s"), nontrivial=False)
        if r.random() < 0.3:      # parts of the table stay known by other names
            q.add("setup", [], "(do (set parts (value t)) (set nms (key t)) 0)", ("i64", 0), ident=(h, "p"), nontrivial=False)
            parts = (("list", [mk(*x) for x in t.cols]), ("SYMBOL", list(t.names)))
        else:
            parts = None
        for s in range(2 if q is R4 else r.choice([2, 4, 7, 12])):
            k = r.random()
            inplace = r.random() < 0.5
            if k < 0.2:
                b, e = bad(r, t)
                arg = "'t" if inplace else "t"
                q.add("rejected", b, e % arg, lambda got: None if got and got[0] == "err" else "not rejected", key="invalid %s accepted" % e.split(" ")[0][1:])
                q.add("after-failure", [], "t", t.val(), ident=(h, s, "a"), key="failed %s changed the table" % e.split(" ")[0][1:])
                continue
            if k < 0.45:
                o = op_insert(r, t)
            elif k < 0.7:
                o = op_upsert(r, t)
            else:
                o = op_update(r, t, s)
            if o is None:
                continue
            b, e, u = o
            nm = e.split(" ")[0][1:]
            how = r.random()
            if inplace:
                al = r.random() < 0.4
                if al:
                    q.add("setup", [], "(do (set other t) 0)", ("i64", 0), ident=(h, s, "al"), nontrivial=False)
                q.add(nm + "-inplace", b, e % "'t", ("symbol", "t"), key=nm + " in place")
                q.add(nm, [], "t", u.val(), ident=(h, s), key=nm)
                if al:
                    q.add("alias", [], "other", t.val(), ident=(h, s, "alias"), key=nm + " in place changed an alias")
                t = u
            elif how < 0.3:
                q.add(nm, b, "((fn [x] %s) t)" % (e % "x"), u.val(), key=nm)
                q.add("source", [], "t", t.val(), ident=(h, s, "src"), key=nm + " changed its source")
            else:
                q.add(nm, b, e % "t", u.val(), key=nm)
                q.add("source", [], "t", t.val(), ident=(h, s, "src"), key=nm + " changed its source")
                if how < 0.7:
                    q.add("setup", b, "(do (set t %s) 0)" % (e % "t"), ("i64", 0), ident=(h, s, "set"), nontrivial=False)
                    t = u
            if t.n() > 1500 and q is not R4:
                break
        if parts:
            q.add("alias", [], "parts", parts[0], ident=(h, "parts"), key="the columns of the table changed under another name")
            q.add("alias", [], "nms", parts[1], ident=(h, "nms"), key="the names of the table changed under another name")
    for q in (R, A, R4):
        q.close()
    return c.finish(300)


main(run)
