"""C24: the text of a value reads back as that value."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from drv import Rfh
from fun import Run
from val import *
import calmod as cal

EXACT = ["B8", "U8", "I64", "DATE", "TIME", "TIMESTAMP", "C8"]
D1, D2 = cal.days(1, 1, 1), cal.days(9999, 12, 31)


def one(r, T, null=0.08):
    """an element of T that has a literal form"""
    if T in NULLI or T in ("F64", "SYMBOL"):
        if r.random() < null:
            return None
    if T == "DATE":
        return r.choice([D1, D2, 0, -1, 59, 60, cal.days(1900, 2, 28), cal.days(2024, 2, 29), r.randrange(D1, D2), r.randrange(-40000, 40000)])
    if T == "TIME":
        lim = 100 * 3600000 - 1
        return r.choice([0, 1, -1, 999, 1000, 86399999, 86400000, lim, -lim, r.randrange(-lim, lim), r.randrange(86400000)])
    if T == "TIMESTAMP":
        lo, hi = cal.days(1708, 1, 1) * 86400 * 10 ** 9, cal.days(2291, 12, 31) * 86400 * 10 ** 9
        return r.choice([0, 1, -1, -10 ** 9, 86400 * 10 ** 9 - 1, lo, hi, r.randrange(lo, hi), r.randrange(-10 ** 12, 10 ** 12)])
    if T == "SYMBOL":
        A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        return r.choice(["", "q", "true", "null", "_", "x."]) + r.choice(A) + "".join(r.choice(A + "0123456789+-*/%&|^~<>!=._?") for _ in range(r.choice([0, 1, 5, 30])))
    if T == "F64":
        return elem(r, "F64", r.choice(["small", "mid", "mid", "full", "full", "edge"]))
    if T == "C8":
        return chr(r.randrange(256))
    return elem(r, T, r.choice(["small", "mid", "full", "edge"]))


def fine(x):
    return x is None or x == x and abs(x) != float("inf")


def fclose(a, b, prec):
    """a printed with prec digits (fixed from 0.1 to 1e6, else scientific) and read back as b"""
    if a is None or b is None:
        return a is None and b is None
    if a == b:
        return True
    h = 0.5000001 * 10.0 ** -prec
    if 0.0999 <= abs(a) <= 1000001:
        return abs(a - b) <= h + abs(a) * 4e-16 or (abs(a) < 0.11 or abs(a) > 999990) and abs(a - b) <= abs(a) * 10 * h + h
    if abs(a) > 1.79e308:
        return True
    return abs(a - b) <= abs(a) * (h + 4e-16) + 5e-324


def like(a, b, prec):
    """value b, read back, against a"""
    if a[0] in ("f64", "F64"):
        if a[0] != b[0]:
            # a whole vector of floats whose text has no point only with precision 0
            if prec == 0 and b[0] == a[0].replace("F64", "I64").replace("f64", "i64"):
                b = (a[0], [None if x is None else float(x) for x in b[1]] if a[0] == "F64" else (None if b[1] is None else float(b[1])))
            else:
                return False
        if a[0] == "f64":
            return fclose(a[1], b[1], prec)
        return len(a[1]) == len(b[1]) and all(fclose(x, y, prec) for x, y in zip(a[1], b[1]))
    if a[0] == "list" and b[0] == "list":
        return len(a[1]) == len(b[1]) and all(like(x, y, prec) for x, y in zip(a[1], b[1]))
    if a[0] == "dict" and b[0] == "dict":
        return same(a[1], b[1]) and like(a[2], b[2], prec)
    if a[0] in ("i16", "i32"):
        return b == (a if a[1] is None else ("i64", a[1]))
    if a[0] in ("I16", "I32"):
        return b == ("I64", a[1]) or b == a
    return same(a, b)


def value(r, depth=0):
    """a value all of whose parts have a literal form inside a list"""
    k = r.random()
    if depth <= 0 or k < 0.4:
        T = r.choice(["B8", "U8", "I64", "F64", "DATE", "TIME", "TIMESTAMP", "I16", "I32"])
        while True:
            x = one(r, T)
            if fine(x) if T == "F64" else True:
                return (T.lower(), x)
    if k < 0.6:
        T = r.choice(["B8", "U8", "I64", "F64", "DATE", "TIME", "TIMESTAMP"])
        n = r.choice([1, 2, 3])
        xs = [x for x in (one(r, T) for _ in range(n)) if T != "F64" or fine(x)] or [one(r, "B8") and 1]
        return (T, xs) if T != "F64" or xs != [1] else ("I64", [1])
    if k < 0.85:
        return ("list", [value(r, depth - 1) for _ in range(r.choice([2, 3, 5]))])
    ks = ["k%d" % i for i in range(r.choice([1, 2, 4]))]
    return ("dict", ("SYMBOL", ks), ("list", [value(r, depth - 1) for _ in ks]))


def run():
    c = Check("C24")
    c.rule = "one value formatted (complete text) and the text parsed; distinct by value"
    u = Run(c, "rel", batch=500)
    san = Run(c, "asan", batch=500)
    r = c.sub("v")
    n = [0]

    def back(cls, v, prec=2, full=3, width=100000, run=None, key=None):
        run = run or (san if n[0] % 4 == 0 else u)
        n[0] += 1

        def judge(got, a, v=v, prec=prec):
            f, p = norm(a["f"]), norm(a["p"])
            if f[0] != "C8":
                return "no text: %r" % (f,)
            if got != v and not same(got, v):
                return "setup: %s" % show(got)
            if not like(v, p, prec):
                return "text %r reads as %s, was %s" % (f[1][:400], show(p, 300), show(v, 300))
            return None
        run.add(cls, [b"W %d %d\n" % (prec, width)] + bind("x", v), Rfh.R("x", full), judge, ident=(v, prec), key=key or cls)

    # atoms
    for T in EXACT + ["I16", "I32", "F64"]:
        for i in range(c.scale(1500, 6000)):
            x = one(r, T)
            if T == "F64":
                if not fine(x):
                    continue
                back("atom F64", ("f64", x), r.choice([0, 1, 2, 2, 6, 12, 17]), r.choice([1, 3]))
            else:
                back("atom " + T, (T.lower(), x), full=r.choice([1, 3]))
    # every char
    for i in range(256):
        back("atom C8", ("c8", chr(i)), full=1)
    # symbols and guids: the text is the name
    for i in range(c.scale(600, 3000)):
        s = one(r, "SYMBOL", 0)
        u.add("atom SYMBOL", bind("x", ("symbol", s)), Rfh.R("x", 1),
              lambda g, a, s=s: None if norm(a["f"]) == ("C8", s) else "text %r of %r" % (a["f"], s), ident=s)
        g = elem(r, "GUID", "full")
        u.add("atom GUID", bind("x", ("guid", g)), "(as 'guid (as 'C8 x))", ("guid", g), ident=g)
        u.add("atom GUID", bind("x", ("guid", g)), Rfh.R("x", 1),
              lambda v, a, g=g: None if norm(a["f"]) == ("C8", "%s-%s-%s-%s-%s" % (g[:8], g[8:12], g[12:16], g[16:20], g[20:])) else "text %r of %r" % (a["f"], g), ident=("t", g))
    # text through the casts of the language
    for i in range(c.scale(2000, 8000)):
        T = r.choice(["I64", "I32", "I16", "DATE", "TIME", "TIMESTAMP", "SYMBOL", "F64"])
        x = one(r, T, 0)
        if T == "F64":
            x = r.randrange(-10 ** 6, 10 ** 6) / 4.0
        if T == "F64" and round(x, 2) != x:
            continue
        u.add("cast of the text", [b"W 2 80\n"] + bind("x", (T.lower(), x)), "(as '%s (as 'C8 x))" % T.lower(), (T.lower(), x), ident=(T, x))
    # vectors
    for T in ["B8", "U8", "I64", "F64", "DATE", "TIME", "TIMESTAMP", "SYMBOL", "I16", "I32", "C8"]:
        for i in range(c.scale(400, 1500)):
            m = r.choice([1, 1, 2, 3, 10, 40, 200])
            null = r.choice([0, 0.2]) if T not in ("I16", "I32") else 0
            if T == "C8":
                back("string", ("C8", "".join(one(r, T) if r.random() < 0.5 else r.choice("ab\\\"\n\t%\0\r'") for _ in range(m - 1))))
                continue
            xs = [one(r, T, null) for _ in range(m)]
            p = 2
            if T == "F64":
                xs = [x for x in xs if fine(x)]
                if not xs:
                    continue
                p = r.choice([1, 2, 2, 6, 15])
            if T == "SYMBOL":
                xs = [x for x in xs if x not in ("true", "false", "null")] or ["a"]
            back("vector " + T, (T, xs), p)
    back("vector I64", ("I64", []))
    back("string", ("C8", ""))
    # lists and dictionaries
    for i in range(c.scale(2500, 10000)):
        v = value(r, r.choice([1, 2, 3]))
        if v[0] in ("list", "dict"):
            back(v[0], v)
    for i in range(c.scale(500, 2000)):
        m = r.choice([1, 3, 30, 49, 50])
        back("dict", ("dict", ("SYMBOL", ["d%d" % j for j in range(m)]), ("list", [value(r, 0) for _ in range(m)])))

    # short text: a beginning of the complete text that says it is one
    for i in range(c.scale(1200, 5000)):
        T = r.choice(["I64", "F64", "DATE", "SYMBOL", "C8", "TIMESTAMP", "B8"])
        m = r.choice([1, 5, 20, 60, 100])
        v = ("C8", "".join(r.choice("abcdef ") for _ in range(m))) if T == "C8" else (T, [one(r, T) for _ in range(m)])
        if T == "F64":
            v = (T, [x if fine(x) else 0.5 for x in v[1]])
        width = r.choice([20, 40, 80, 80])

        def cut(got, a, b, width=width):
            pass

        def judge(got, a, v=v, width=width, T=T):
            t = norm(a["f"])[1]
            whole = text(v)
            if t == whole:
                return None if len(t) <= width + 2 else "text of %d characters, the width is %d" % (len(t), width)
            m = re.fullmatch(r'(.*?)(?:\.\.)?\.\.[\]"]', t, re.S)
            if not m or not whole.startswith(m.group(1)):
                return "%r is no beginning of %r" % (t, whole)
            if len(whole) <= width - 3:
                return "%r cut though it fits %d" % (t, width)
            if len(t) < width or len(t) > width + 60:
                return "cut to %d characters, the width is %d" % (len(t), width)
            return None
        u.add("short text", [b"W 2 %d\n" % width] + bind("x", v), Rfh.R("x", 1), judge, ident=(v, width))

    # templates
    for i in range(c.scale(1200, 5000)):
        k = r.randrange(0, 4)
        parts = ["".join(r.choice("ab c:\\\"\n{}[]#$") for _ in range(r.choice([0, 1, 5, 40]))) for _ in range(k + 1)]
        vs = []
        for _ in range(k):
            T = r.choice(["I64", "DATE", "TIME", "SYMBOL", "STR", "VEC", "B8"])
            vs.append(("C8", "".join(r.choice("xyz %") for _ in range(r.randrange(1, 9)))) if T == "STR" else ("I64", [one(r, "I64") for _ in range(3)]) if T == "VEC"
                      else (T.lower(), one(r, T, 0)))
        want = parts[0] + "".join((v[1] if v[0] in ("C8", "symbol") else text(v)) + p for v, p in zip(vs, parts[1:]))
        if not k:
            continue
        u.add("template", [b"W 2 80\n"] + bind("f", ("C8", "%".join(parts))) + sum([bind("x%d" % j, v) for j, v in enumerate(vs)], []),
              "(format f %s)" % " ".join("x%d" % j for j in range(k)), ("C8", want), ident=(parts, vs))

    # tables: each cell's text in its row and column
    for i in range(c.scale(500, 2000)):
        cols = r.randrange(1, 8)
        rows = r.choice([1, 2, 3, 10, 20, 30])
        full = r.choice([1, 3])
        Ts = [r.choice(["I64", "F64", "DATE", "TIME", "SYMBOL", "B8", "TIMESTAMP"]) for _ in range(cols)]
        data = []
        for T in Ts:
            xs = [one(r, T) for _ in range(rows)]
            if T == "F64":
                xs = [x if fine(x) else 0.5 for x in xs]
            if T == "SYMBOL":
                xs = [x and x[:20] for x in xs]
            data.append((T, xs))
        t = ("table", ("SYMBOL", ["col%d" % j for j in range(cols)]), ("list", data))

        def judge(got, a, cols=cols, rows=rows, Ts=Ts, data=data, full=full):
            s = norm(a["f"])[1].encode("latin1").decode("utf8")
            lines = s.split("\n")
            body = [[x.strip() for x in l[1:-1].split("\u2502")] for l in lines[1:] if l.startswith("\u2502")]
            if body[0] != ["col%d" % j for j in range(cols)]:
                return "header %r" % (body[0],)
            if body[1] != Ts:
                return "types %r" % (body[1],)
            cells, foot = body[2:-1], body[-1]
            shown = rows if full == 3 else min(rows, 20)
            if len(cells) != shown:
                return "%d rows shown, not %d" % (len(cells), shown)
            if foot[0] != "%d rows (%d shown) %d columns (%d shown)" % (rows, shown, cols, cols):
                return "footer %r" % (foot,)
            idx = list(range(rows)) if shown == rows else list(range(10)) + list(range(rows - 10, rows))
            for l, i in zip(cells, idx):
                w = [text((T.lower(), xs[i])) for T, xs in data]
                if l != w:
                    return "row %d shows %r, is %r" % (i, l, w)
            if len({len(l) for l in lines if l}) != 1 and not (full == 1 and rows > 20):
                return "ragged lines"
            return None
        u.add("table", [b"W 2 80\n"] + bind("x", t), Rfh.R("x", full), judge, ident=(t, full))
    u.close()
    san.close()
    c.extra["monitors"] = ["value read back from the text", "an independent formatter for the text of elements", "AddressSanitizer on a quarter of the cases"]
    c.assumptions = ["16- and 32-bit integers print without their type and are compared as numbers", "symbols print as their bare name",
                     "infinite floats, dates outside the years 1-9999 and times of 100 hours and more have no literal form",
                     "strings inside lists print unquoted and are not read back"]
    return c.finish(3000)


def ftext(x, prec=2):
    import math
    if x is None:
        return "0Nf"
    if x == 0:
        return "%.*f" % (prec, 0.0)
    o = math.log10(abs(x))
    return ("%.*e" if o > 6 or o < -1 else "%.*f") % (prec, x)


def text(v):
    """the text of atoms and flat vectors, written from the documentation of the types"""
    t, x = v
    if t == "C8":
        return '"' + x + '"'
    if t.isupper():
        return "[" + " ".join(text((t.lower(), e)) for e in x) + "]"
    T = t.upper()
    if x is None:
        return NULLSYM[T]
    if T == "B8":
        return "true" if x else "false"
    if T == "U8":
        return "0x%02x" % x
    if T == "F64":
        return ftext(x)
    if T == "DATE":
        return "%04d.%02d.%02d" % cal.ymd(x)
    if T == "TIME":
        a = abs(x)
        return "%s%02d:%02d:%02d.%03d" % ("-" if x < 0 else "", a // 3600000, a // 60000 % 60, a // 1000 % 60, a % 1000)
    if T == "TIMESTAMP":
        d, ns = divmod(x, 86400 * 10 ** 9)
        return "%04d.%02d.%02dD" % cal.ymd(d) + "%02d:%02d:%02d.%09d" % (ns // (3600 * 10 ** 9), ns // (60 * 10 ** 9) % 60, ns // 10 ** 9 % 60, ns % 10 ** 9)
    return str(x)


if __name__ == "__main__":
    main(run)
