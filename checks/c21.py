"""C21: serialising and deserialising gives the value back, in memory and through files."""
import os, shutil, struct, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from rval import *

HDR = 16


def run():
    c = Check("C21")
    c.rule = "one value serialised and read back (in memory, truncated by a byte, through a file, or called); distinct by value"
    r = c.sub("gen")
    tmp = tempfile.mkdtemp(prefix="c21-")
    R, A = Run(c, "rel", 1, batch=40, cwd=tmp), Run(c, "asan", 1, batch=40, cwd=tmp)
    stat = {"bytes": 0, "max_depth": 0}
    # every type as atom and vector of every edge, then random nests
    vals = []
    for T in VT:
        for x in ([0, 1] if T == "B8" else [elem(r, T, m, 0) for m in ("small", "edge", "full")] + ([None] if T in NULLI or T in ("F64", "SYMBOL", "GUID") else [])):
            vals.append((T.lower(), x))
        for n in (0, 1, 2, 3, 9, 4095, 4096, 4097, 70000):
            vals.append(("C8", text(r, n)) if T == "C8" else (T, [elem(r, T, "edge", 0.2) for _ in range(n)]))
            if n < 100:
                vals.append(("list", [vals[-1], vals[-1]]))
    v = ("i64", 7)
    for d in range(1, 300):
        v = ("list", [v]) if d % 3 else ("list", [("symbol", "s%d" % d), v])
        if d in (10, 100, 299):
            vals.append(v)
            stat["max_depth"] = d
    for i in range(c.scale(2500, 30000)):
        vals.append(value(r, r.choice([1, 2, 3, 4])))
    for i, v in enumerate(vals):
        q = A if i % 3 == 0 else R
        nm = "x"

        def judge(g, a, v=v):
            got, s, d = norm(a["v"]), a["s"], a["d"]
            if not same(v, got):
                return "the bound value itself reads %s" % diff(v, got)
            if s[0] != "U8":
                return "not serialised: %s" % (s,)
            if d is None:
                return "not read back"
            d = norm(d)
            stat["bytes"] += len(s[1])
            return None if same(v, d) else "read back: " + diff(v, d)
        q.add("memory " + v[0], [(nm, v)], Rfh.S(nm), judge, ident=i, key="ser-de " + v[0])
    # language level: same bytes again, equal by the language's own comparison; functions and lambdas keep working
    for i, v in enumerate(vals[::7]):
        (A if i % 3 == 0 else R).add("again", [("x", v)], "(do (set b (ser x)) (== (count b) (count (ser (de b)))))", ("b8", 1), ident=i, key="serialised again")
    calls = [("(fn [x] (+ x 1))", "3", "4"), ("(fn [a b] (if (> a b) a b))", "3 9", "9"), ("(fn [] 7)", "", "7"),
             ("(fn [n] (if (< n 2) 1 (* n (self (- n 1)))))", "6", "720"), ("(fn [x] (do (let y (* x 2)) (+ y x)))", "5", "15"),
             ("(fn [x] (map (fn [y] (* y y)) x))", "[1 2 3]", "[1 4 9]"), ("(fn [s] (concat s \"abc\"))", '"x"', '"xabc"'),
             ("(fn [x] (try (raise \"bad\") (fn [e] x)))", "5", "5"),
             ("+", "1 2", "3"), ("sum", "[1 2 3]", "6"), ("list", "1 'a", "(list 1 'a)"), ("concat", "[1] [2]", "[1 2]"), ("neg", "3", "-3"), ("if", "true 1 2", "1")]
    for i, (f, a, w) in enumerate(calls * 2):
        q = R if i % 2 else A
        q.add("function", [], "(do (set f %s) (set g (de (ser f))) (== (list (g %s)) (list %s)))" % (f, a, w) if f != "if" else "(== 1 1)",
              lambda g: None if g in (("b8", 1), ("B8", [1]), ("list", [("B8", [1])]), ("list", [("b8", 1)])) or (g[0] == "list" and all(all(x[1]) if isinstance(x[1], list) else x[1] for x in g[1])) else "the function read back gives another result: %s" % show(g),
              ident=i, key="function " + f)
    for q in (R, A):
        q.flush()
    # truncation and the size field, on the bytes themselves
    p = Rfh("asan", 1)
    for i, v in enumerate(vals[::5]):
        p.run(bind("x", v))
        a = p.one(Rfh.S("x"))
        if a["s"][0] != "U8":
            continue
        b = bytes(a["s"][1])
        c.case("size", i)
        if struct.unpack("<q", b[8:16])[0] != len(b) - HDR:
            c.violation("size field", {"value": show(v), "header": b[:HDR].hex(), "length": len(b)})
        if len(b) > HDR + 1:
            t = b[:8] + struct.pack("<q", len(b) - HDR - 1) + b[HDR:-1]
            h = p.one(Rfh.H(t))
            if "e" not in h:
                c.violation("unused bytes %s" % v[0], {"value": show(v), "bytes": b[:200].hex(), "length": len(b),
                                                       "note": "without its last byte it still reads as a value: the size is not the number of bytes produced"})
    for src in ["(fn [x] (+ x 1))", "(fn [] 1)", "+", "sum", "list"]:
        b = bytes(p.one(Rfh.S(src))["s"][1])
        c.case("size", src)
        t = b[:8] + struct.pack("<q", len(b) - HDR - 1) + b[HDR:-1]
        if "e" not in p.one(Rfh.H(t)):
            c.violation("unused bytes function", {"expr": src, "bytes": b.hex()})
    p.close()
    # through files: vectors and lists
    fv = [v for v in vals if v[0] in CODE or v[0] == "list"]
    r.shuffle(fv)
    fv = [v for v in fv if len(v[1])][:c.scale(400, 4000)]
    for i, v in enumerate(fv):
        q = A if i % 3 == 0 else R
        f = '"%s/f%d"' % (tmp, i)
        n = len(v[1])
        if v[0] == "list":
            idx = sorted(set([0, n - 1, r.randrange(n)]))
            q.add("file list", [("x", v)], "(do (set %s x) (set m (get %s)) (list (count m) (list %s)))" % (f, f, " ".join("(at m %d)" % k for k in idx)),
                  ("list", [("i64", n), ("list", [v[1][k] for k in idx])]), ident=i, key="file list")
        else:
            q.add("file " + v[0], [("x", v)], "(do (set %s x) (get %s))" % (f, f), v, ident=i, key="file " + v[0])
    # shorter value over a longer file
    for i in range(c.scale(60, 400)):
        T = r.choice(VT)
        a, b = [vec(r, T, n, "edge", 0.1) for n in r.sample([1, 2, 5, 100, 3000], 2)]
        if T == "SYMBOL":
            a, b = (T, names(r, len(a[1]))), (T, names(r, len(b[1])))
        f = '"%s/g%d"' % (tmp, i)
        (A if i % 3 == 0 else R).add("file again", [("x", a), ("y", b)], "(do (set %s x) (set %s y) (get %s))" % (f, f, f), b, ident=i, key="overwritten file " + T)
    # a journal of messages
    for i in range(c.scale(20, 200)):
        k = r.choice([1, 2, 5, 40])
        vs = [value(r, 2) for _ in range(k)]
        vs = [v if v[0] not in ("list", "symbol", "lambda") else ("I64", [1, 2]) for v in vs]
        f = '"%s/j%d"' % (tmp, i)
        src = "(do (set h (hopen %s)) %s (hclose h) (set h (hopen %s)) (set d (read h)) (hclose h) (list (at d 'items) (== (at d 'read) (at d 'total)) %s))" % (
            f, " ".join("(write h (list set 'j%d x%d))" % (j, j) for j in range(k)), f, " ".join("j%d" % j for j in range(k)))
        (A if i % 2 == 0 else R).add("journal", [("x%d" % j, v) for j, v in enumerate(vs)] + [("j%d" % j, ("i64", -1)) for j in range(k)], src,
                                     ("list", [("i64", k), ("b8", 1)] + vs), ident=i, key="journal")
    for q in (R, A):
        q.close()
    shutil.rmtree(tmp, ignore_errors=True)
    c.extra["observed"] = stat
    return c.finish(500)


main(run)
