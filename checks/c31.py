"""C31: casts against the value they must preserve, atom against vector, text both ways."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from fun import Run
from val import *

NUM = ["B8", "U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
INTS = [t for t in NUM if t != "F64"]


def conv(S, T, x):
    """value of casting element x of S to T; ... = not decided by the property"""
    if x is None:
        return None if T in NULLI or T == "F64" else ...
    if S == "F64":
        if math.isinf(x):
            return x if T == "F64" else ...
        if T == "F64":
            return x
        if T == "B8":
            return int(x != 0)
        x = int(x)
    if T == "F64":
        return float(x)
    if T == "B8":
        return int(x != 0)
    lo, hi = rng_int(T)
    return x if lo <= x <= hi else ...


def gen(r, S, T):
    """mostly representable in T"""
    m = r.random()
    if S in NULLI or S == "F64":
        if m < 0.12:
            return None
    if S == "B8":
        return r.randrange(2)
    lo, hi = rng_int(S) if S != "F64" else (-2**53, 2**53)
    l2, h2 = rng_int(T) if T != "F64" else (lo, hi)
    lo, hi = max(lo, l2), min(hi, h2)
    if m < 0.3:
        v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1])
    elif m < 0.6:
        v = r.randrange(max(lo, -200), min(hi, 200) + 1)
    else:
        v = r.randint(lo, hi)
    if S == "F64":
        if v > 2**53 or v < -2**53:
            v = r.randint(-2**53, 2**53)
        f = float(v)
        if m > 0.75 and abs(v) < 2**40:
            f += r.choice([0.5, -0.5, 0.25, 0.999, -0.75])
        if T == "F64" and m > 0.9:
            f = r.choice([1e300, -1e-300, 0.1, 1 / 3.0])
        return 0.0 if f == 0 else f
    return v


def text(r):
    k = r.random()
    if k < 0.3:
        return "".join(r.choice("abcXYZ019_") for _ in range(r.randrange(1, 10)))
    if k < 0.6:
        return "".join(chr(r.randrange(32, 127)) for _ in range(r.randrange(1, 30)))
    if k < 0.8:
        return "".join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 20)))
    if k < 0.9:
        return r.choice("ab ") * r.randrange(1, 600)
    return r.choice(["1", "nan", "0Nl", " ", "\n", "true", "'", "\\", "\"", "\x7f", "null", "0x"])


def guidtxt(h):
    return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def run():
    c = Check("C31")
    c.rule = "one cast of a generated value judged element by element; distinct by type pair, form and data"
    r = c.sub("gen")
    R, A, R4, A3 = Run(c, "rel", 1), Run(c, "asan", 1), Run(c, "rel", 4), Run(c, "asan", 3)

    def few():
        return r.choice([R, R, A])
    # every pair of numeric types
    for S in NUM:
        for T in NUM:
            if {S, T} == {"DATE", "TIMESTAMP"} or {S, T} == {"DATE", "TIME"} or {S, T} == {"TIME", "TIMESTAMP"}:
                continue                    # reinterprets the count of another unit; nothing documents it
            if {S, T} == {"B8", "U8"}:
                vecs = False                # vectors of these two do not convert
            else:
                vecs = True
            for i in range(c.scale(14, 200)):
                x = gen(r, S, T)
                w = conv(S, T, x)
                if w is not ...:
                    few().add("atom", [("x", (S.lower(), x))], "(as '%s x)" % T.lower(), (T.lower(), w), key="%s to %s atom" % (S, T))
                if not vecs:
                    continue
                n = r.choice([1, 2, 3, 7, 8, 9, 16, 33, 64, 65, 129])
                xs = [gen(r, S, T) for _ in range(n)]
                big = i == 0 or (c.thorough and i % 20 == 0)
                if big:
                    xs = (xs * (r.choice([16384, 20000, 33000]) // n + 1))
                ws = [conv(S, T, x) for x in xs]

                def judge(got, ws=ws, T=T):
                    if got[0] != T or len(got[1]) != len(ws):
                        return "want a %s vector of %d" % (T, len(ws))
                    for j, (a, b) in enumerate(zip(ws, got[1])):
                        if a is not ... and a != b:
                            return "at %d: want %r, got %r" % (j, a, b)
                for q in ((R4, A3) if big else (few(),)):
                    q.add("vector", [("x", (S, xs))], "(as '%s x)" % (T if i % 2 else T.lower()), judge, key="%s to %s vector" % (S, T), ident=(S, T, i, q.cores))
                if i % 4 == 1:          # there and back again keeps what fits
                    ys = [x for x in xs[:50] if x is not None and conv(S, T, x) is not ... and conv(T, S, conv(S, T, x)) == x]
                    if ys:
                        few().add("round trip", [("x", (S, ys))], "(as '%s (as '%s x))" % (S, T), (S, ys), key="%s to %s and back" % (S, T))
                if i % 4 == 2:          # of a temporary
                    if S in ("I64", "F64", "I32"):
                        z = [None if x is None else x for x in xs[:9]]
                        wz = [conv(S, T, x) for x in z]
                        if all(v is not ... for v in wz):
                            few().add("temporary", [("x", (S, z))], "(as '%s (concat x x))" % T, (T, wz + wz), key="%s to %s temporary" % (S, T))
            if vecs:
                for t in (T, T.lower()):
                    few().add("empty", [("x", (S, []))], "(type (as '%s x))" % T, ("symbol", T), key="%s to %s empty" % (S, T), ident=t)
    # numbers from text
    for T in ("I16", "I32", "I64"):
        lo, hi = rng_int(T)
        for i in range(c.scale(60, 800)):
            v = r.choice([lo, hi, 0, -1, lo + 1, hi - 1, 10**(i % 19), -10**(i % 19), r.randint(lo, hi), r.randint(lo, hi) >> r.randrange(40)])
            if not lo <= v <= hi:
                continue
            s = ("0" * r.choice([0, 0, 0, 1, 3]) + str(v)) if v >= 0 else str(v)
            s = r.choice(["", "", " ", "  "]) + s
            few().add("number text", [], "(as '%s %s)" % (T.lower(), strlit(s)), (T.lower(), v), key="text to " + T)
            vs = [r.randint(lo, hi) for _ in range(r.randrange(1, 5))]
            if T != "I16" or i % 3 == 0:
                few().add("number texts", [], "(as '%s (list %s))" % (T, " ".join(strlit(str(x)) for x in vs)), (T, vs), key="texts to " + T)
        for s in ("abc", "", "-", " ", "x1", "--1", "+-3", ".", "e5"):
            if s:
                few().add("not a number", [], "(as '%s %s)" % (T.lower(), strlit(s)), (T.lower(), None), key="bad text to " + T)
    for i in range(c.scale(150, 3000)):
        k = i % 5
        v = [r.uniform(-1000, 1000), r.uniform(-1, 1) * 10.0 ** r.randrange(-30, 30), float(r.randrange(-10**15, 10**15)), float(r.randrange(-99, 99)), r.random()][k]
        s = r.choice(["%r", "%.17g", "%.6f", "%.3e", "%d.", "%.12g"])
        s = s % (int(v) if s == "%d." else v)
        w = float(s)

        def judge(got, w=w):
            if got[0] != "f64" or got[1] is None or not close(w, got[1], 1e-12, 1e-300):
                return "want %r" % w
        few().add("real text", [], "(as 'f64 %s)" % strlit(s), judge, key="text to F64")
    # symbols, strings
    for i in range(c.scale(250, 4000)):
        s = text(r).replace("\0", "")
        q = few()
        q.add("string to symbol", [("s", ("C8", s))], "(as 'symbol s)", ("symbol", s), key="C8 to symbol")
        q.add("string to symbol and back", [("s", ("C8", s))], "(as 'C8 (as 'symbol s))", ("C8", s), key="C8 to symbol and back")
        ss = [text(r) for _ in range(r.randrange(1, 6))]
        q.add("strings to symbols", [("s", ("list", [("C8", x) for x in ss]))], "(as 'SYMBOL s)", ("SYMBOL", ss), key="list to SYMBOL")
        q.add("characters", [("s", ("C8", s))], "(as 'c8 (at s %d))" % (i % len(s)), ("c8", s[i % len(s)]), key="c8 to c8")
        h = "%032x" % (r.getrandbits(128) | 1)
        g = guidtxt(h)
        q.add("guid text", [], "(as 'guid \"%s\")" % r.choice([g, g.upper()]), ("guid", h), key="C8 to guid")
        q.add("guid symbol", [("g", ("guid", h))], "(as 'C8 (as 'symbol g))", ("C8", g), key="guid to symbol")
        n = r.choice([0, 1, -1, 7, 2**31, -2**62, 2**63 - 1, r.getrandbits(62), -r.getrandbits(50)])
        q.add("number symbol", [("n", ("i64", n))], "(as 'symbol n)", ("symbol", str(n)), key="i64 to symbol")
        q.add("number symbols", [("n", ("I64", [n, n // 3, 5]))], "(as 'SYMBOL n)", ("SYMBOL", [str(n), str(n // 3), "5"]), key="I64 to SYMBOL")
        for T in ("U8", "I16", "I32"):
            lo, hi = rng_int(T)
            n = r.randint(lo, hi)
            q.add("number symbol", [("n", (T.lower(), n))], "(as 'symbol n)", ("symbol", str(n)), key=T + " to symbol")
        n = r.randint(-2**62, 2**62)
        q.add("number string", [("n", ("i64", n))], "(as 'i64 (as 'C8 n))", ("i64", n), key="i64 to C8 and back")
        ds = [r.choice([None, r.randrange(-30000, 90000)]) for _ in range(3)]
    for s in ("zz", "0f0f0f0f-0f0f-0f0f-0f0f-0f0f0f0f0f0", "0f0f0f0f-0f0f-0f0f-0f0f-0f0f0f0f0f0g"):
        few().add("not a guid", [], "(as 'guid %s)" % strlit(s), ("guid", None), key="bad text to guid")
    # containers
    for i in range(c.scale(30, 300)):
        k = ["k%d" % j for j in range(r.randrange(1, 5))]
        n = r.randrange(1, 4)
        cols = [vec(r, r.choice(["I64", "F64", "SYMBOL", "DATE"]), n, "small", 0.2) for _ in k]
        t = ("table", ("SYMBOL", k), ("list", cols))
        d = ("dict", ("SYMBOL", k), ("list", cols))
        few().add("table to dict", [("t", t)], "(as 'DICT t)", d, key="table to dict")
        few().add("dict to table", [("t", d)], "(as 'TABLE t)", t, key="dict to table")
    for T in list(CODE):
        for i in range(3):
            v = vec(r, T, r.choice([1, 5, 40]), "small", 0.2)
            few().add("identity", [("x", v)], "(as '%s x)" % T, v, key="%s to itself" % T)
    # names that are no type
    for e in ("(as 'nosuch 1)", "(as 5 1)", "(as \"I64\" 1)", "(as 'I64)", "(as 'GUID [1 2])", "(as 'date 'x)"):
        few().add("refused", [], e, lambda got: None if got[0] == "err" else "want an error", key="refused " + e)
    for q in (R, A, R4, A3):
        q.close()
    return c.finish(3000)


main(run)
