"""C32: structural operations against the same operation on plain Python lists."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from chk import Check, main
from fun import Run
from gen import *
from val import same
from c16 import elems, VT
from c16 import pack as pack0

def uniq(xs):
    return list(firsts(xs))


NULLS = {"B8": 0, "U8": 0, "C8": "\0"}
SIZES = [0, 1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 40, 100]


def pack(xs, empty=("list", [])):
    return pack0(xs, empty)


def mk(T, es):
    """collection of type T from element values"""
    if T == "list":
        return ("list", es)
    return (T, "".join(e[1] for e in es) if T == "C8" else [e[1] for e in es])


def atom_null(T):
    return ("null",) if T == "list" else (T.lower(), NULLS.get(T))


def glob(p):
    """pattern -> compiled regular expression, or None for an unmatched bracket"""
    o, i = "", 0
    while i < len(p):
        c = p[i]
        if c == "*":
            o += ".*"
        elif c == "?":
            o += "."
        elif c == "[":
            j = p.find("]", i + 1)
            if j < 0:
                return None
            s = p[i + 1:j]
            inv = s[:1] == "^"
            s = s[1:] if inv else s
            if s:
                o += "[%s%s]" % ("^" if inv else "", re.escape(s))
            else:
                o += "." if inv else "(?!)"
            i = j
        else:
            o += re.escape(c)
        i += 1
    return re.compile(o, re.S)


def alike(xs, ys):
    return len(xs) == len(ys) and all(same(x, y) for x, y in zip(xs, ys))


def run():
    c = Check("C32")
    c.rule = "one structural operation compared with its definition on Python lists; distinct by operation and arguments"
    r = c.sub("gen")
    R, A, R4 = Run(c, "rel", 1, batch=300), Run(c, "asan", 1, batch=300), Run(c, "rel", 4, batch=200)
    st = {"elements": 0, "expected_errors": 0, "like_matches": 0, "like_misses": 0, "largest": 0}
    err = lambda g: None if g[0] == "err" else "want an error"

    def size():
        x = r.random()
        return r.choice(SIZES) if x < 0.97 else r.choice([4095, 4096, 16383, 16384, 16385, 40000])

    def vec(T=None, n=None):
        T = T or r.choice(VT + ["list"])
        n = size() if n is None else n
        if T == "list":
            n = min(n, 3000)
            if r.random() < 0.5:
                return ("list", [atom() if r.random() < 0.7 else vec(r.choice(VT), r.randrange(4)) for _ in range(n)])
        x = col(r, T, n)
        return (T, x if T == "C8" else list(x))

    def atom(T=None):
        T = T or r.choice(VT)
        return (T.lower(), col(r, T, 1)[0])

    def table(k=None, n=None, T=None):
        k = k or r.randrange(1, 5)
        n = r.choice([0, 1, 2, 3, 5, 17]) if n is None else n
        cols = ["c%d" % i for i in range(k)]
        r.shuffle(cols)
        return ("table", ("SYMBOL", cols), ("list", [vec(None if T is None else T[i], n) for i in range(k)]))

    def dic(n=None):
        K = r.choice(["SYMBOL", "I64", "I32", "DATE", "TIMESTAMP", "U8"])
        n = r.choice([0, 1, 2, 3, 5, 9, 20]) if n is None else n
        ks = uniq(col(r, K, 4 * n + 1, 0))[:n]
        return ("dict", (K, ks), vec(r.choice(VT + ["list"]), len(ks)))

    def idx(n):
        x = r.random()
        return r.choice([0, n - 1, n, -1, -n, -n - 1, n + 5, 2**40, -2**40]) if x < 0.3 else r.randrange(-n - 2, n + 3)

    def at1(v, i):
        es = elems(v)
        n = len(es)
        if i < 0:
            i += n
        if 0 <= i < n:
            return es[i]
        return ("null",) if v[0] in ("list", "GUID") else atom_null(v[0])

    def takes(n, k):
        """positions taken"""
        if n == 0:
            return []
        if isinstance(k, tuple):
            s, m = k
            s = max(0, n + s) if s < 0 else min(s, n)
            return list(range(s, min(n, s + m)))
        if k >= 0:
            return [i % n for i in range(k)]
        return [i % n for i in range((n + k) % n, (n + k) % n - k)]

    def cnt(n):
        x = r.random()
        if x < 0.45:
            k = r.choice([0, 1, 2, n, n + 1, max(0, n - 1), 2 * n + 1, r.randrange(30)])
            return k if r.random() < 0.6 else -k
        return (r.choice([0, 1, n - 1, n, n + 1, -1, -n, -n - 1, r.randrange(-40, 40)]), r.choice([0, 1, 2, n, n + 1, 100, 2**62]))

    def concat(x, y):
        tx, ty = x[0], y[0]
        ax, ay = tx.lower() == tx and tx.upper() in VT, ty.lower() == ty and ty.upper() in VT
        vx, vy = tx in VT, ty in VT
        if (ax or vx) and (ay or vy) and tx.upper() == ty.upper():
            return mk(tx.upper(), (elems(x) if vx else [x]) + (elems(y) if vy else [y]))
        if tx == "list":
            return ("list", x[1] + (y[1] if ty == "list" else [y]))
        if ty == "list":
            return ("list", [x] + y[1])
        return ("list", [x, y])

    def any_():
        x = r.random()
        return vec() if x < 0.55 else atom() if x < 0.9 else r.choice([dic(), table(), ("null",)])

    N = c.scale(9000, 200000)
    for it in range(N):
        q = [R, A, R4][r.randrange(3)]
        z = r.randrange(100)
        B, want, e, cls = [], None, None, None
        if z < 16:
            cls = "concat"
            m = r.random()
            if m < 0.62:
                T = r.choice(VT)
                x, y = (vec(T) if r.random() < 0.7 else atom(T)), (vec(T) if r.random() < 0.7 else atom(T))
                want = concat(x, y)
            elif m < 0.82:
                x, y = any_(), any_()
                if (x[0], y[0]) in (("dict", "dict"), ("table", "table")):
                    continue
                want = concat(x, y)
            elif m < 0.91:
                cls = "concat dict"
                x, y = dic(), dic()
                if r.random() < 0.7:
                    T = x[1][0]
                    ks = uniq([k for k in x[1][1] if r.random() < 0.5] + col(r, T, r.randrange(5), 0))
                    r.shuffle(ks)
                    y = ("dict", (T, ks), vec(r.choice([x[2][0]] * 3 + ["I64", "list"]), len(ks)))
                if x[1][0] != y[1][0] and "SYMBOL" not in (x[1][0], y[1][0]):
                    continue    # integer keys of different types find each other
                kx, vx, ky, vy = elems(x[1]), elems(x[2]), elems(y[1]), elems(y[2])
                kx, vx = list(kx), list(vx)
                for k, v in zip(ky, vy):
                    if k in kx:
                        vx[kx.index(k)] = v
                    else:
                        kx.append(k)
                        vx.append(v)
                def want(g, kx=kx, vx=vx):
                    if g[0] != "dict":
                        return "want a dictionary"
                    if not alike(elems(g[1]), kx) or not alike(elems(g[2]), vx):
                        return "keys %r values %r" % (kx[:20], vx[:20])
            else:
                cls = "concat table"
                x = table(T=None)
                Ts = [v[0] for v in x[2][1]]
                y = table(len(Ts), None, Ts)
                names_ = list(x[1][1])
                perm = list(range(len(names_)))
                r.shuffle(perm)
                y = ("table", ("SYMBOL", [names_[p] for p in perm]), ("list", [y[2][1][p] for p in perm]))
                inv = [perm.index(p) for p in range(len(perm))]
                want = ("table", x[1], ("list", [concat(a, y[2][1][inv[i]]) for i, a in enumerate(x[2][1])]))
            B, e = [("x", x), ("y", y)], "(concat x y)"
        elif z < 22:
            cls = "raze"
            n = r.randrange(1, 6)
            m = r.random()
            T = r.choice(VT)
            if m < 0.4:
                xs = [vec(T, r.choice(SIZES)) for _ in range(n)]
                want = mk(T, [a for x in xs for a in elems(x)])
            else:
                xs = [r.choice([vec(T, r.randrange(4)), atom(T), ("list", [atom(T) for _ in range(r.randrange(3))])] + [any_()] * (m > 0.75)) for _ in range(n)]
                fl = [a for x in xs for a in (elems(x) if elems(x) is not None else [x])]
                if all(x[0] == xs[0][0] and x[0] in VT for x in xs):
                    want = mk(xs[0][0], fl)
                else:
                    want = pack(fl)
            B, e = [("x", ("list", xs))], "(raze x)"
        elif z < 28:
            cls = "enlist"
            n = r.randrange(1, 6)
            T = r.choice(VT)
            m = r.random()
            xs = [atom(T) if m < 0.5 else vec(T, r.randrange(5)) if m < 0.7 else any_() for _ in range(n)]
            w = r.choice(["enlist", "list"])
            want = pack(xs) if w == "enlist" else ("list", xs)
            B, e = [("x%d" % i, x) for i, x in enumerate(xs)], "(%s %s)" % (w, " ".join("x%d" % i for i in range(n)))
            cls = w
        elif z < 42:
            cls = "take"
            m = r.random()
            x = vec() if m < 0.7 else atom() if m < 0.78 else dic() if m < 0.88 else table()
            n = len(elems(x)) if elems(x) is not None else len(x[1][1]) if x[0] == "dict" else len(x[2][1][0][1]) if x[0] == "table" else 1
            k = cnt(n)
            if r.random() < 0.04:
                k = (r.randrange(5), -r.randrange(1, 9))
                want = err
                if x[0] not in VT + ["list"]:
                    continue
            elif x[0] in VT + ["list"]:
                es = elems(x)
                want = mk(x[0], [es[i] for i in takes(n, k)])
            elif x[0] == "dict":
                ks, vs = elems(x[1]), elems(x[2])
                ids = takes(n, k)
                want = ("dict", mk(x[1][0], [ks[i] for i in ids]), mk(x[2][0], [vs[i] for i in ids]))
            elif x[0] == "table":
                ids = takes(n, k)
                want = ("table", x[1], ("list", [mk(v[0], [elems(v)[i] for i in ids]) for v in x[2][1]]))
            else:
                if isinstance(k, tuple):
                    if k[1] > 100:
                        k = (k[0], 7)
                    want = mk(x[0].upper(), [x] * k[1])
                else:
                    want = mk(x[0].upper(), [x] * abs(k))
            if isinstance(k, tuple):
                kv = ("I64", list(k))
            else:
                kv = (r.choice(["i64", "i64", "i32", "i16"]) if abs(k) < 32768 else "i64", k)
            B, e = [("x", x), ("k", kv)], "(take x k)"
        elif z < 56:
            m = r.random()
            if m < 0.35:
                cls = "at"
                x = vec()
                i = idx(len(x[1]))
                want = at1(x, i)
                B, e = [("x", x), ("i", ("i64", i))], "(at x i)"
            elif m < 0.6:
                cls = "at vector"
                x = vec()
                ids = [idx(len(x[1])) for _ in range(r.choice([1, 2, 3, 9, 40]))]
                want = pack([at1(x, i) for i in ids])
                B, e = [("x", x), ("i", ("I64", ids))], "(at x i)"
            elif m < 0.8:
                cls = "at dict"
                x = dic()
                ks = elems(x[1])
                K = x[1][0]
                def one(k):
                    return elems(x[2])[ks.index(k)] if k in ks else atom_null(x[2][0])
                k = r.choice(ks) if ks and r.random() < 0.75 else atom(K)
                if k[1] is None:
                    continue
                if r.random() < 0.6:
                    want, kv = one(k), k
                else:
                    kk = [k] + [r.choice(ks) for _ in range(r.randrange(5)) if ks]
                    want, kv = pack([one(a) for a in kk]), mk(K, kk)
                B, e = [("x", x), ("k", kv)], "(at x k)"
            else:
                cls = "at table"
                x = table()
                n = len(elems(x[2][1][0]))
                m = r.random()
                if m < 0.5:
                    i = idx(n)
                    j = i + n if i < 0 else i
                    if 0 <= j < n:
                        vs = [elems(v)[j] for v in x[2][1]]
                    else:
                        vs = [atom_null(v[0]) for v in x[2][1]]
                    def want(g, vs=vs, x=x):
                        if g[0] != "dict" or g[1] != x[1] or not alike(elems(g[2]), vs):
                            return "want row %r" % (vs,)
                    B, e = [("x", x), ("i", ("i64", i))], "(at x i)"
                else:
                    k = r.randrange(len(x[1][1]))
                    want = x[2][1][k]
                    B, e = [("x", x)], "(at x '%s)" % x[1][1][k]
        elif z < 62:
            cls = r.choice(["first", "last", "count", "reverse"])
            x = vec()
            es = elems(x)
            if cls == "count":
                x = r.choice([x, dic(), table(), atom()])
                want = ("i64", len(elems(x)) if elems(x) is not None else len(x[1][1]) if x[0] == "dict" else len(elems(x[2][1][0])) if x[0] == "table" else 1)
            elif cls == "reverse":
                want = mk(x[0], es[::-1])
            else:
                want = at1(x, 0 if cls == "first" else -1)
            B, e = [("x", x)], "(%s x)" % cls
        elif z < 67:
            cls = "remove"
            x = vec()
            n = len(x[1])
            i = idx(n)
            es = list(elems(x))
            if 0 <= i < n:
                del es[i]
            want = ("list", [mk(x[0], es), x])
            B, e = [("x", x), ("i", ("i64" if r.random() < 0.7 or abs(i) > 2**30 else "i32", i))], "(list (remove x i) x)"
        elif z < 70:
            cls = "til"
            n = r.choice([0, 1, 2, 3, 100, 4095, 4096, 16383, 16384, 16385, 32768, 32769, 49153, 65536, 100001])
            x = r.random()
            want = ("I64", list(range(n)))
            e = "(til %d)" % n
            if x < 0.3:
                want, e = ("i64", n * (n - 1) // 2), "(sum (til %d))" % n
            elif x < 0.4:
                want, e = err, "(til -%d)" % (n + 1)
        elif z < 78:
            cls = "split"
            al = r.choice(["ab,", "a-b.", "aab", "xyz ,;"])
            s = "".join(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 7, 20, 60])))
            d = "".join(r.choice(al) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))
            x = ("C8", s)
            if r.random() < 0.25 and s:
                x = ("symbol", s)
            dv = ("c8", d) if len(d) == 1 and r.random() < 0.5 else ("C8", d)
            want = ("list", [("C8", p) for p in s.split(d)])
            B, e = [("x", x), ("d", dv)], "(split x d)"
        elif z < 83:
            cls = "cut"
            x = vec()
            n = len(x[1])
            if n == 0 or n > 5000:
                continue
            k = r.randrange(1, min(n, 9) + 1)
            ids = sorted(r.randrange(n) for _ in range(k))
            bad = r.random() < 0.15
            if bad:
                ids[r.randrange(k)] = r.choice([n, n + 3, -1, 2**31 - 1])
                ok = all(a <= b for a, b in zip(ids, ids[1:])) and 0 <= ids[0] < n and ids[-1] <= n
            es = elems(x)
            if bad and not ok:
                want = err
            else:
                parts = [es[a:b] for a, b in zip(ids, ids[1:] + [n])]
                want = ("list", [pack(p) if x[0] == "list" else mk(x[0], p) for p in parts])
            B, e = [("x", x), ("i", (r.choice(["I64", "I64", "I32"] + ["I16"] * (max(ids) < 30000)), ids))], "(split x i)"
        elif z < 92:
            cls = "like"
            al = r.choice(["ab", "abc", "a.b*"])
            def text():
                return "".join(r.choice(al.replace("*", "x")) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])))
            p = "".join(r.choice(list(al.replace("*", "")) + ["*", "*", "?", "[ab]", "[^a]", "[b]"]) for _ in range(r.randrange(7)))
            if r.random() < 0.3:    # a pattern made from the text
                s = text()
                p = "".join(r.choice([ch] * 4 + ["?", "*", "*" + ch, "[%s]" % ch, "[^%s]" % ch]) for ch in s)
            else:
                s = text()
            g = glob(p)
            if g is None:
                continue
            f = lambda t: 1 if g.fullmatch(t) else 0
            if r.random() < 0.5:
                w = f(s)
                want, B = ("b8", w), [("x", ("C8", s)), ("p", ("C8", p))]
                st["like_matches" if w else "like_misses"] += 1
            else:
                ss = [s] + [text() for _ in range(r.randrange(6))]
                want, B = ("B8", [f(t) for t in ss]), [("x", ("list", [("C8", t) for t in ss])), ("p", ("C8", p))]
            e = "(like x p)"
        elif z < 96:
            m = r.randrange(5)
            if m == 0:
                cls = "dict"
                x = dic()
                if r.random() < 0.2:
                    want, B, e = err, [("k", ("I64", [1, 2])), ("v", vec(None, r.choice([0, 1, 3])))], "(dict k v)"
                else:
                    want, B, e = ("list", [x, x[1], x[2]]), [("k", x[1]), ("v", x[2])], "(do (set d (dict k v)) (list d (key d) (value d)))"
            elif m == 1:
                cls = "key value"
                x = r.choice([vec(), atom(), table()])
                want = ("list", [x[1], x[2]] if x[0] == "table" else [x, x])
                B, e = [("x", x)], "(list (key x) (value x))"
            elif m == 2:
                cls = "table"
                n = r.choice([0, 1, 2, 5])
                k = r.randrange(1, 5)
                cols = [vec(None, n) if r.random() < 0.7 else atom() for _ in range(k)]
                nr = n if any(elems(x) is not None for x in cols) else 1
                names_ = ["c%d" % i for i in range(k)]
                want = ("table", ("SYMBOL", names_), ("list", [x if elems(x) is not None else mk(x[0].upper(), [x] * nr) for x in cols]))
                if r.random() < 0.25:
                    cols.append(vec(None, n + 1 + r.randrange(2)))
                    names_.append("z")
                    r.shuffle(cols)
                    want = err if any(elems(x) is not None and len(elems(x)) == n for x in cols) else None
                    if want is None:
                        continue
                B, e = [("n", ("SYMBOL", names_)), ("v", ("list", cols))], "(table n v)"
            elif m == 3:
                cls = "enum"
                dom = uniq(col(r, "SYMBOL", 30, 0))
                x = [r.choice(dom) for _ in range(r.choice(SIZES))]
                k = cnt(len(x))
                ids = takes(len(x), k)
                i = idx(len(x))
                i = 0 if not -len(x) <= i < len(x) else i
                want = ("list", [("SYMBOL", x), ("SYMBOL", [x[j] for j in ids]), ("symbol", x[i]) if x else ("null",), ("i64", len(x)), ("SYMBOL", x + x) if x else ("null",)])
                B = [("dom", ("SYMBOL", dom)), ("x", ("SYMBOL", x)), ("k", ("I64", list(k)) if isinstance(k, tuple) else ("i64", k))]
                e = "(do (set en (enum 'dom x)) (list (value en) (value (take en k)) %s (count en) %s))" % (("(at en %d)" % i, "(raze (list en x))") if x else ("null", "null"))
            else:
                cls = "unify diverse"
                x = vec(None, r.choice(SIZES[1:]))
                es = elems(x)
                want = ("list", [pack(es), ("list", es) if x[0] != "list" else ("list", es), x])
                B, e = [("x", x)], "(list (unify x) (diverse x) x)"
        else:
            cls = "rand"
            n, m = r.choice([0, 1, 5, 100, 16384, 40000]), r.choice([1, 2, 10, 1000, 2**31, 2**62])
            def want(g, n=n, m=m):
                if g[0] != "I64" or len(g[1]) != n:
                    return "want %d numbers" % n
                if any(x is None or not 0 <= x < m for x in g[1]):
                    return "a number outside 0..%d" % m
                if n >= 100 and m >= 10 and len(set(g[1])) < 5:
                    return "nearly constant"
            e = "(rand %d %d)" % (n, m)
        ne = sum(len(b[1][1]) if elems(b[1]) is not None else 1 for b in B)
        st["elements"] += ne
        st["largest"] = max(st["largest"], ne)
        st["expected_errors"] += want is err
        q.add(cls, B, e, want, key=cls)
    for q in (R, A, R4):
        q.close()
    c.extra["observed"] = st
    return c.finish(3000)


if __name__ == "__main__":
    main(run)
