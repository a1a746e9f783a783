"""C25: tables on disk, splayed and parted, against the table in memory (a Python model of it)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from tabm import *
import calmod as cal

COLT = ["B8", "U8", "C8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID", "list"]
PT = ["U8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "GUID", "B8", "list"]


def mat(v, syms):
    """a stored column as the vector it stands for"""
    t = v[0]
    if t == "enumx":
        return ("SYMBOL", [None if i is None or i < 0 else syms[i] if i < len(syms) else "?%d" % i for i in
                           (None if x == NULLI["I64"] else x for x in v[2])])
    if t == "enum":
        return ("SYMBOL", [None if i is None else syms[i] for i in v[2][1]])
    if t == "maplist":
        return v[1] if v[1][0] == "list" else v[1]
    if t == "t74":
        T, xs = v[1][0]
        return (T, [x for x, k in zip(xs, v[1][1][1]) for _ in range(k)])
    if t[0] == "t" and t[1:].isdigit():
        ch = [mat(x, syms) for x in v[1]]
        if not ch:
            return v
        if ch[0][0] == "C8":
            return ("C8", "".join(c[1] for c in ch))
        return (ch[0][0], [x for c in ch for x in c[1]])
    if t in ("table", "dict"):
        return (t, mat(v[1], syms), ("list", [mat(x, syms) for x in v[2][1]]) if v[2][0] == "list" else mat(v[2], syms))
    if t == "list":
        return (t, [mat(x, syms) for x in v[1]])
    return v


def weak(v):
    """lists of equal atoms and vectors of them are told apart only by their elements"""
    return v


def column(r, T, n):
    if T == "list":
        dom = [("C8", s) for s in strs(r, 10) + ["", "x" * r.choice([1, 100, 5000])]]
        xs = [r.choice(dom) for _ in range(n)]
        return xs
    if T == "SYMBOL":
        dom = names(r, r.choice([2, 8, 60]))
        return [None if r.random() < 0.02 else r.choice(dom) for _ in range(n)]
    xs = list(col(r, T, n))
    return xs


def main_c25():
    chk = Check("C25")
    chk.rule = ("distinct (table, way of storing, query) cases; the answer on the disk-backed table is compared with the same "
                "query evaluated in Python on the rows that were written")
    top = tempfile.mkdtemp(prefix="rf-c25-")
    runs = {"a": Run(chk, "asan", 1, batch=30, timeout=300), "r": Run(chk, "rel", 1, batch=30, timeout=300),
            "r4": Run(chk, "rel", 4, batch=6, timeout=300), "a3": Run(chk, "asan", 3, batch=6, timeout=300)}
    count = [0]
    refused = {True: 0, False: 0}

    def fresh():
        count[0] += 1
        d = os.path.join(top, "d%d" % count[0])
        os.mkdir(d)
        return d

    def clean():
        for q in runs.values():
            q.flush()
        for x in os.listdir(top):
            shutil.rmtree(os.path.join(top, x), ignore_errors=True)

    def want_mat(w, lenient=False):
        """judge for the answer (list <query> <sym vector>); lenient: the query may be refused"""
        def f(a):
            if a[0] == "err":
                refused[lenient] += 1
                return None if lenient else "refused: %s" % (a,)
            if a[0] != "list" or len(a[1]) != 2:
                return "unexpected shape %s" % show(a)
            syms = a[1][1][1] if a[1][1][0] == "SYMBOL" else []
            g = mat(a[1][0], syms)
            if callable(w):
                return w(g)
            return None if same(w, g, 0) else diff(w, g)
        return f

    SYMS = "(try (get 'sym) (fn [e] 0))"

    # ---------- splayed
    def splayed(r, rk, n):
        run = runs[rk]
        k = r.choice([1, 2, 4, 8])
        nm = ["c%d" % i if r.random() < 0.6 else "".join(r.choice(ALNUM + "-_") for _ in range(r.choice([1, 5, 60]))) for i in range(k)]
        nm = [x if x[0].isalpha() else "z" + x for x in nm]
        if len(set(nm)) < k:
            nm = ["c%d" % i for i in range(k)]
        t = Tab(nm, [(T, column(r, T, n)) for T in [r.choice([x for x in COLT if n or x not in ("list",)]) for _ in range(k)]])
        d = fresh()
        p = d + "/t/"
        shared = r.random() < 0.5
        sf = d + "/sym"
        setx = "(set-splayed %s t %s)" % (strlit(p), strlit(sf)) if shared else \
            r.choice(["(set-splayed %s t)", "(set %s t)"]) % strlit(p)
        getx = "(get-splayed %s %s)" % (strlit(p), strlit(sf)) if shared else "(get-splayed %s)" % strlit(p)
        v = t.val()
        ident = "%s|%d|%s|%s" % ([c[0] for c in t.cols], n, shared, r.random())
        m = r.random()
        if m < 0.5:
            run.add("splayed-read", [("t", v)], "(do %s (set u %s) (list u %s))" % (setx, getx, SYMS), want_mat(v), ident=ident, key="splayed-read")
        elif m < 0.6:
            # as one serialised file
            run.add("file-read", [("t", v)], "(do (set %s t) (get %s))" % (strlit(d + "/blob"), strlit(d + "/blob")), v, ident=ident, key="file-read")
        elif m < 0.7:
            # one vector as a file
            T, xs = t.cols[0]
            if T == "SYMBOL" or T == "list":
                xs = xs or [("C8", "a")] if T == "list" else xs
            w = mk(T, xs)
            run.add("vector-file", [("t", w)], "(do (set %s t) (set u (get %s)) (list u %s))" % (strlit(d + "/vec"), strlit(d + "/vec"), SYMS),
                    want_mat(w), ident=ident, key="vector-file %s" % T)
        else:
            # queries on it
            g = Gen(r, t)
            ids = list(range(n))
            parts = ["from: u"]
            if r.random() < 0.8:
                w, mask = g.where()
                ids = [j for j in ids if mask[j]]
                parts.append("where: " + w)
            q = r.random()
            if q < 0.4:
                res = t.take(ids).val()
            elif q < 0.7:
                cs = [r.choice(t.names) for _ in range(r.choice([1, 2]))]
                parts += ["x%d: %s" % (i, c) for i, c in enumerate(cs)]
                res = ("table", ("SYMBOL", ["x%d" % i for i in range(len(cs))]), ("list", [pick(*t.get(c), ids) for c in cs]))
            else:
                by = [c for c, (T, _) in zip(t.names, t.cols) if T in ("I64", "SYMBOL", "U8", "TIMESTAMP")]
                if not by or not ids:
                    return
                b = r.choice(by)
                T, xs = t.get(b)
                gs = groups([xs], ids)
                parts += ["by: " + b, "x0: (count %s)" % b]
                res = ("table", ("SYMBOL", [b, "x0"]), ("list", [pick(T, xs, [x[0] for x in gs]), ("I64", [len(x) for x in gs])]))
            run.add("splayed-query", [("t", v)] + g.binds, "(do %s (set u %s) (list (select {%s}) %s))" % (setx, getx, " ".join(parts), SYMS),
                    want_mat(res), ident=ident, key="splayed-query")

    # ---------- parted
    def parted(r, rk, rows, big=False):
        run = runs[rk]
        np = r.choice([1, 2, 3, 5, 9])
        days = sorted(r.sample(range(8700, 8800), np))
        k = r.choice([1, 3, 5])
        kinds = [r.choice(PT if not big else ["I64", "F64", "I32", "SYMBOL", "I16", "DATE"]) for _ in range(k)]
        if "I64" not in kinds:
            kinds[0] = "I64"
        nm = ["c%d" % i for i in range(k)]
        sizes = [rows if big else r.choice([1, 2, 3, 8, rows]) for _ in days]
        full = {T: None for T in kinds}
        parts = []
        doms = {}
        for day, n in zip(days, sizes):
            cols = []
            for i, T in enumerate(kinds):
                if T == "F64":
                    xs = [None if r.random() < 0.1 else r.randrange(-4000, 4000) / 8 for _ in range(n)]
                elif T == "I64":
                    xs = [None if r.random() < 0.1 else r.randrange(-5000, 5000) for _ in range(n)]
                elif T == "list":
                    xs = [("C8", "s%d" % r.randrange(9)) for _ in range(n)]
                else:
                    xs = column(r, T, n)
                cols.append((T, xs))
            parts.append(Tab(nm, cols))
        t = Tab(["Date"] + nm, [("DATE", [d for d, n in zip(days, sizes) for _ in range(n)])] +
                [(T, [x for p in parts for x in p.cols[i][1]]) for i, T in enumerate(kinds)])
        n = t.n()
        d = fresh()
        order = list(range(np))
        r.shuffle(order)
        binds, setx = [], []
        sf = d + "/sym"
        for j in order:
            y, m, dd = cal.ymd(days[j])
            binds.append(("p%d" % j, parts[j].val()))
            setx.append("(set-splayed %s p%d %s)" % (strlit("%s/%04d.%02d.%02d/a/" % (d, y, m, dd)), j, strlit(sf)))
        head = "(do %s (set t (get-parted %s 'a)) " % (" ".join(setx), strlit(d + "/"))
        g = Gen(r, t)
        ident = "%s|%s|%s" % (kinds, sizes, r.random())
        for q in range(r.choice([3, 5, 8])):
            m = r.random()
            g.binds = []
            ids = list(range(n))
            cls = None
            simple = False
            if m < 0.1:
                cls, e, w = "parted-read", "t", t.val()
            elif m < 0.2:
                c = r.choice(nm)
                cls, e, w = "parted-column", "(value (at t '%s))" % c, mk(*t.get(c))
            elif m < 0.25:
                i = r.randrange(n)
                cls, e = "parted-row", "(at t %d)" % i
                def w(a, i=i, t=t):
                    if a[0] != "dict" or a[1] != ("SYMBOL", t.names):
                        return "not a row: %s" % show(a)
                    for x, (T, xs) in zip(els(a[2]) if a[2][0] != "list" else a[2][1], t.cols):
                        y = xs[i] if T == "list" else (T.lower(), xs[i])
                        if not same(x, y):
                            return "column of type %s: want %s, got %s" % (T, show(y), show(x))
            elif m < 0.28:
                cls, e, w = "parted-count", "(count t)", ("i64", n)
            else:
                wh = ""
                dates = False
                z = r.random()
                if z < 0.3:
                    # by the partition
                    dates = True
                    kk = r.choice(["==", "in", "<", ">=", "!=", "not", "within"])
                    x = r.choice(days + [8699, 8801])
                    if kk == "in" or kk == "not":
                        ds = r.sample(days + [8699], r.choice([1, min(2, np), min(3, np)]))
                        g.binds.append(("q0", ("DATE", ds)))
                        wh, keep = ("(in Date q0)", lambda y: y in ds) if kk == "in" else ("(not (in Date q0))", lambda y: y not in ds)
                    elif kk == "within":
                        lo, hi = sorted([x, r.choice(days)])
                        g.binds += [("q0", ("date", lo)), ("q1", ("date", hi))]
                        wh, keep = "(and (>= Date q0) (<= Date q1))", lambda y: lo <= y <= hi
                    else:
                        g.binds.append(("q0", ("date", x)))
                        wh, keep = "(%s Date q0)" % kk, lambda y: OPS[kk](y, x)
                    ids = [i for i in ids if keep(t.cols[0][1][i])]
                elif z < 0.6:
                    tt = Tab(nm, [c for c in t.cols[1:]]) if r.random() < 0.6 else t
                    g.tab = tt
                    wh, mask = g.where(r.choice([0, 0, 1, 2]))
                    ids = [i for i in ids if mask[i]]
                    cls = "where-data"
                ws = [("where: " + wh)] if wh else []
                pre = "where-date" if dates else "where-data" if wh else "all"
                if m < 0.5:
                    cls, e, w = "parted-rows:" + pre, "(select {%s})" % " ".join(["from: t"] + ws), t.take(ids).val()
                else:
                    # aggregates, over everything or by partition
                    by = r.random() < 0.5
                    gs = groups([t.cols[0][1]], ids) if by else [ids]
                    if not ids:
                        continue
                    aggs = []
                    for _ in range(r.choice([1, 2, 3])):
                        op = r.choice(["sum", "min", "max", "avg", "dev", "med", "count", "first", "last"])
                        c = r.choice(nm)
                        T, xs = t.get(c)
                        ok = {"sum": [x for x in SUMT_ if x != "I16"], "avg": AVGT_, "dev": AVGT_, "med": ["I64"], "min": MMT_, "max": MMT_}.get(op, [T])
                        if op == "dev" and T == "I32" and any(x is not None and abs(x) > 100000 for x in xs):
                            continue   # cancellation
                        if T not in ok or (T in ("list", "C8", "B8") and op != "count"):
                            continue
                        if op in ("first", "last") and T != "U8" and any(xs[x[0 if op == "first" else -1]] is None for x in gs):
                            continue
                        ws_ = [agg(op, T, [xs[i] for i in x]) for x in gs]
                        if any(x is None for x in ws_):
                            continue
                        aggs.append((op, c, ws_))
                    if not aggs:
                        continue
                    e = "(select {%s})" % " ".join(["from: t"] + ws + (["by: Date"] if by else []) +
                                                   ["x%d: (%s %s)" % (i, op, c) for i, (op, c, _) in enumerate(aggs)])
                    cls = "parted-%s:%s" % ("by" if by else "total", pre)
                    def w(a, aggs=aggs, by=by, gs=gs, t=t):
                        nmz = (["Date"] if by else []) + ["x%d" % i for i in range(len(aggs))]
                        if a[0] != "table" or a[1] != ("SYMBOL", nmz):
                            return "want a table of %s, got %s" % (nmz, show(a))
                        cs = a[2][1]
                        if by:
                            kd = [t.cols[0][1][x[0]] for x in gs]
                            if not same(cs[0], ("DATE", kd)):
                                return "groups: want %s got %s" % (kd, show(cs[0]))
                            cs = cs[1:]
                        for c, (op, cn, ws_) in zip(cs, aggs):
                            x = els(c)
                            if len(x) != len(ws_):
                                return "(%s %s): want %d values, got %s" % (op, cn, len(ws_), show(c))
                            for g_, w_ in zip(x, ws_):
                                if callable(w_):
                                    y = w_(g_)
                                elif g_[0] != w_[0] and g_[0] in ("i32", "i64") and (op == "sum" or w_[0] in ("date", "time", "timestamp")) \
                                        and g_[1] == w_[1]:   # given as numbers
                                    y = None
                                else:
                                    y = None if same(g_, w_) else "want %s got %s" % (show(w_), show(g_))
                                if y:
                                    return "(%s %s): %s" % (op, cn, y)
            run.add(cls, binds + g.binds, head + "(list %s %s))" % (e, SYMS), want_mat(w, cls.split(":")[0] in ("parted-total", "parted-by") or cls == "parted-rows:where-data" and not simple), ident=ident + "|" + e,
                    key="%s %s" % (cls, e.split("{")[0][:10]))

    try:
        r = chk.sub("splayed")
        for i in range(chk.scale(400, 5000)):
            splayed(r, r.choice(["a", "r"]), r.choice([0, 1, 2, 5, 20, 100, 300]))
            if i % 100 == 99:
                clean()
        r = chk.sub("parted")
        for i in range(chk.scale(220, 3000)):
            parted(r, r.choice(["a", "r"]), r.choice([1, 5, 20, 100]))
            if i % 60 == 59:
                clean()
        for i in range(chk.scale(4, 40)):
            parted(r, ["r4", "a3"][i % 2], r.choice([9000, 17000, 20000]), True)
            splayed(r, ["r4", "a3"][i % 2], r.choice([16384, 20000, 40000]))
            clean()
        clean()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return chk.finish(min_cases=600)


from aggm import SUMT as SUMT_, AVGT as AVGT_, MMT as MMT_

if __name__ == "__main__":
    main(main_c25)
