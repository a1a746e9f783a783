"""C26: read-csv against a Python model of the same text; write-csv and back."""
import os, shutil, struct, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from drv import Rfh
from fun import Run
from val import *
from gen import names, col
import calmod as cal

TYPES = ["B8", "U8", "I16", "I32", "I64", "DATE", "TIME", "TIMESTAMP", "F64", "SYMBOL", "C8", "GUID"]
EMPTY = {"B8": 0, "U8": 0, "C8": ("C8", "")}
DAY = 86400 * 10**9
# text that is no value of the type: a letter or a lone mark first
BAD = ["abc", "x1", "--", "?", "null", "_", "NaN", "/"]


def rnd_int(r, lo, hi):
    k = r.random()
    if k < 0.4:
        return max(lo, min(hi, r.randrange(-100, 100)))
    if k < 0.6:
        return r.choice([lo, hi, lo + 1, hi - 1, 0])
    if k < 0.8:
        n = r.choice([-1, 1]) * r.randrange(10 ** r.randrange(1, 19))
        return n if lo <= n <= hi else r.randint(lo, hi)
    return r.randint(lo, hi)


def intcell(r, bits):
    lim = 2 ** (bits - 1) - 1
    if r.random() < 0.05:
        if bits < 64:
            n = r.choice([lim + 1, -lim - 2, 2 ** bits, 2 ** bits + 7, 2 ** 32, 2 ** 32 + 1, -2 ** 40, 10 ** 17])
        else:
            n = r.choice([2 ** 63, 2 ** 64 + 5, 10 ** 19, 10 ** 25, -2 ** 63 - 5])
        return str(n), None
    n = rnd_int(r, -lim, lim)
    s = str(n)
    if r.random() < 0.05:
        s = " " * r.randrange(1, 3) + s
    elif n >= 0 and r.random() < 0.04:
        s = "0" * r.randrange(1, 5) + s
    return s, n


def datecell(r):
    if r.random() < 0.06:
        return r.choice(["2021.13.01", "2021.00.10", "2021.02.30", "2023.02.29", "1900.02.29", "2021.04.31", "2020.01.32", "2020.01.00",
                         "2020.01", "2020", "2021-02-29", "20210203"]), None
    n = r.choice([r.randrange(-3000, 12000), r.randrange(-60000, 60000), r.randrange(-365 * 1990, 365 * 7900)])
    if r.random() < 0.15:
        n = cal.days(r.choice([2000, 2024, 1900, 1996, 2100, 2400, 1972]), 2, 28) + r.randrange(3)
    y, m, d = cal.ymd(n)
    sp = r.choice([".", ".", "-", "/"])
    return "%04d%s%02d%s%02d" % (y, sp, m, sp, d), n


def timecell(r):
    if r.random() < 0.06:
        return r.choice(["10:60:00.000", "10:00:60.000", "10:00", "10", "1:2:3:4:5", "10:99:99", "10:00:00.1000", "aa:00:00", "10:0-0:00"]), None
    n = r.randrange(86400000)
    sg = r.choice([1, 1, 1, -1]) if n else 1
    h, m, s, ms = n // 3600000, n // 60000 % 60, n // 1000 % 60, n % 1000
    if r.random() < 0.3:
        ms = 0
        return ("-" if sg < 0 else "") + "%02d:%02d:%02d" % (h, m, s), sg * (n - n % 1000)
    return ("-" if sg < 0 else "") + "%02d:%02d:%02d.%03d" % (h, m, s, ms), sg * n


def tscell(r):
    if r.random() < 0.08:
        return r.choice(["2021.13.01D10:00:00.000000000", "2021.02.30D10:00:00.000000000", "2021.01.01D24:00:00.000000000",
                         "2021.01.01D10:60:00.000000000", "2021.01.01D10:00:60.000000000", "2021-02-30", "2021-02-03T25:00:00",
                         "2021-02-03T10:61:00Z", "2021-00-03", "2021-2-3", "9999.01.01D00:00:00.000000000", "2021.01",
                         "2023-02-29T00:00:00", "2021-02-03T10:0:00"]), None
    d = r.choice([r.randrange(-3000, 12000), r.randrange(-100000, 100000), cal.days(r.choice([2000, 2024, 1900, 1999]), 3, 1) - r.randrange(2)])
    y, m, dd = cal.ymd(d)
    n = r.choice([0, DAY - 1, r.randrange(DAY), r.randrange(86400) * 10**9])
    s = n // 10**9
    hms = "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    k = r.randrange(6)
    if k < 2:
        return "%04d.%02d.%02dD%s.%09d" % (y, m, dd, hms, n % 10**9), d * DAY + n
    if k == 2:
        return "%04d%s%02d%s%02d" % ((y, ".", m, ".", dd) if r.random() < 0.5 else (y, "-", m, "-", dd)), d * DAY
    fr, fv = "", 0
    if r.random() < 0.6:
        fr = ".%s" % "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 6, 9, 9, 12])))
        fv = int((fr[1:] + "0" * 9)[:9])
    tz, tv = "", 0
    if r.random() < 0.7:
        if r.random() < 0.3:
            tz = r.choice("Zz")
        else:
            hh, mm, sg = r.randrange(15), r.choice([0, 30, 45, 0]), r.choice([1, -1])
            form = r.randrange(3)
            if form == 2:
                mm = 0
            tz = ("+" if sg > 0 else "-") + ("%02d:%02d" % (hh, mm) if form == 0 else "%02d%02d" % (hh, mm) if form == 1 else "%02d" % hh)
            tv = sg * (hh * 60 + mm) * 60 * 10**9
    return "%04d-%02d-%02d%s%s%s%s" % (y, m, dd, r.choice("T "), hms, fr, tz), d * DAY + s * 10**9 + fv - tv


def f64cell(r):
    k = r.randrange(6)
    if k == 0:
        x = float(r.randrange(-10**6, 10**6))
    elif k == 1:
        x = r.randrange(-10**9, 10**9) / 1000.0
    elif k == 2:
        x = struct.unpack("d", struct.pack("Q", r.getrandbits(64) & ~(1 << 62)))[0]
    elif k == 3:
        x = r.uniform(-1, 1)
    elif k == 4:
        x = r.choice([0.1, 1e22, 1e23, 1e-7, 123456789.123456789, 1e300, 1e-300, 0.3, 2.5])
    else:
        x = r.uniform(-1e15, 1e15)
    s = r.choice([repr(x), "%.17g" % x, "%.3f" % x if abs(x) < 1e15 else repr(x), "%g" % x])
    v = float(s)
    return s, 0.0 if v == 0 else v


def textcell(r, nonempty=False):
    k = r.randrange(10)
    if k < 6:
        s = "".join(r.choice("abcdefgh XYZ019_.") for _ in range(r.randrange(1, 13)))
    elif k == 6:
        s = "".join(r.choice("ab,;|\t") for _ in range(r.randrange(1, 6)))
    elif k == 7:
        s = "".join(chr(r.randrange(33, 256)) for _ in range(r.randrange(1, 8)))
    elif k == 8:
        s = "w" * r.choice([1, 31, 32, 33, 200, 1500])
    else:
        s = r.choice(['"', 'a"b', '""', '"x"', "a'b", "say \"hi\", you", "#", "\\n"])
    return s.replace("\n", "").replace("\r", "")


def cell(r, T):
    """(text, value) before quoting"""
    if r.random() < 0.05:
        return "", EMPTY.get(T)
    if T not in ("SYMBOL", "C8", "B8", "U8") and r.random() < 0.03:
        return r.choice(BAD), None
    if T == "B8":
        return r.choice([("true", 1), ("false", 0), ("True", 1), ("TRUE", 1), ("FALSE", 0), ("0", 0), ("no", 0)])
    if T == "U8":
        n = r.randrange(256)
        return str(n), n
    if T in ("I16", "I32", "I64"):
        return intcell(r, BITS[T])
    if T == "DATE":
        return datecell(r)
    if T == "TIME":
        return timecell(r)
    if T == "TIMESTAMP":
        return tscell(r)
    if T == "F64":
        return f64cell(r)
    if T == "GUID":
        h = "%032x" % (r.getrandbits(128) | 1)
        s = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        if r.random() < 0.04:
            return s[:-1] + "z", None
        return (s.upper() if r.random() < 0.2 else s), h
    s = textcell(r)
    return s, (("C8", s) if T == "C8" else s)


def mkval(T, xs):
    return ("list", xs) if T == "C8" else (T, xs)


def header(r, k):
    out = []
    while len(out) < k:
        h = "c%d" % len(out) if r.random() < 0.5 else "".join(r.choice(ALNUM) for _ in range(r.choice([1, 4, 40, 300])))
        if h not in out:
            out.append(h)
    return out


def gen_text(r, types, rows, sep, nl, quoting, multiline):
    """(bytes, values by column)"""
    vals = [[] for _ in types]
    lines = []
    for _ in range(rows):
        parts = []
        for j, T in enumerate(types):
            s, v = cell(r, T)
            if T in ("SYMBOL", "C8") and multiline and r.random() < 0.05:
                s += r.choice(["\n", "\r\n", "\n\n"]) + textcell(r)
                v = ("C8", s) if T == "C8" else s
            need = sep in s or s[:1] == '"' or "\n" in s or s[-1:] == "\r"
            if need or (quoting and s != "" and r.random() < 0.2):
                if not quoting:
                    s, v = "", EMPTY.get(T)
                else:
                    s = '"' + s.replace('"', '""') + '"'
            parts.append(s)
            vals[j].append(v)
        # trailing separators may be missing once everything after one is empty
        lines.append(sep.join(parts))
    return lines, vals


def main_c26():
    chk = Check("C26")
    chk.rule = ("distinct CSV texts (types, separator, line ending, quoting, number of lines, thread count) and written tables; "
                "each answer is compared cell by cell with a Python model of the text")
    d = tempfile.mkdtemp(prefix="rf-c26-")
    nfile = [0]
    try:
        runs = {("asan", 1): Run(chk, "asan", 1, batch=40, timeout=300), ("asan", 3): Run(chk, "asan", 3, batch=8, timeout=300),
                ("rel", 1): Run(chk, "rel", 1, batch=40, timeout=300), ("rel", 8): Run(chk, "rel", 8, batch=6, timeout=300),
                ("rel", 4): Run(chk, "rel", 4, batch=6, timeout=300)}

        def put(data):
            nfile[0] += 1
            p = os.path.join(d, "f%d.csv" % (nfile[0] % 400))
            if nfile[0] % 400 == 0:
                for q in runs.values():
                    q.flush()
            with open(p, "wb") as f:
                f.write(data)
            return p

        def read_case(r, rk, rows, cls):
            run = runs[rk]
            k = r.choice([1, 2, 3, 5, 8])
            types = [r.choice(TYPES) for _ in range(k)]
            sep = r.choice([",", ",", ",", ";", "|", "\t", ":"]) if not set(types) & {"TIME", "TIMESTAMP"} else r.choice(",,;|")
            nl = r.choice(["\n", "\n", "\r\n"])
            quoting, multi = r.random() < 0.5, r.random() < 0.3
            names_ = header(r, k)
            lines, vals = gen_text(r, types, rows, sep, nl, quoting, quoting and multi)
            end = r.random() < 0.7
            if not end and lines and lines[-1] == "":
                end = True
            data = sep.join(names_) + nl + nl.join(lines) + (nl if end and lines else "")
            if not end and len(data) % 4096 == 0:
                data += nl
            f = put(data.encode("latin1"))
            sp = "" if sep == "," and r.random() < 0.5 else " (at %s 0)" % strlit(sep)
            tn = "[" + " ".join(t if r.random() < 0.5 else t.lower() for t in types) + "]"
            want = ("table", ("SYMBOL", names_), ("list", [mkval(t, v) for t, v in zip(types, vals)]))
            run.add(cls, [], "(read-csv %s %s%s)" % (tn, strlit(f), sp), want,
                    ident="%s|%s|%s|%d|%s|%s" % (types, sep, repr(nl), rows, quoting, r.random()), key="%s:%s" % (cls, rk[0]))
            chk.case("cells", n=0)
            chk.extra["cells"] = chk.extra.get("cells", 0) + rows * k
            if rows == 3:
                chk.sample({"text": data[:300], "types": tn})

        def err_case(r, rk):
            """lines with the wrong number of fields; every answer is either the model's or an error, nothing leaks"""
            run = runs[rk]
            k = r.choice([2, 3, 5])
            types = [r.choice(["I64", "SYMBOL", "C8", "F64", "I32"]) for _ in range(k)]
            rows = r.choice([1, 2, 10, 60])
            lines, vals = gen_text(r, types, rows, ",", "\n", True, False)
            bad = r.randrange(rows)
            m = r.randrange(4)
            if m == 0:      # too few fields: refused
                lines[bad] = ",".join("1" for _ in range(k - 1))
                want = lambda a: None if a[0] == "err" else "a line with too few fields was read as %s" % show(a)
            elif m == 1:    # quoted field with no closing quote: refused
                lines[bad] = '"abc' + "," * (k - 1)
                want = lambda a: None if a[0] == "err" else "an unterminated quoted field was read as %s" % show(a)
            elif m == 2:    # fields beyond the last are not part of the table
                lines[bad] += ",extra,1"
                want = None
            else:           # nothing after a separator: the rest is empty
                lines[bad] = "7,"
                for j in range(k):
                    t = types[j]
                    vals[j][bad] = {"I64": 7, "I32": 7, "F64": 7.0, "SYMBOL": "7", "C8": ("C8", "7")}[t] if j == 0 else EMPTY.get(t)
                want = None
            if want is None:
                want = ("table", ("SYMBOL", ["h%d" % i for i in range(k)]), ("list", [mkval(t, v) for t, v in zip(types, vals)]))
            text = ",".join("h%d" % i for i in range(k)) + "\n" + "\n".join(lines) + "\n"
            f = put(text.encode("latin1"))
            run.add("line-shape", [], "(read-csv [%s] %s)" % (" ".join(types), strlit(f)), want,
                    ident="%d|%s|%d|%d" % (m, types, rows, bad), key="line-shape:%d" % m)

        def bad_types(r, rk):
            """header shorter than the types, wrong type names, missing files, empty files"""
            run = runs[rk]
            f = put(r.choice([b"a,b\n1,2\n", b"a\n", b"a", b"\n", b"\n\n", b'"a\n1\n']))
            want = lambda a: None if a[0] in ("err", "table") else show(a)
            run.add("odd-files", [], "(read-csv [%s] %s)" % (" ".join(r.choice(["I64", "F64", "C8", "nope"]) for _ in range(r.choice([1, 2, 3, 4]))),
                                                             strlit(r.choice([f, f, f, f + ".missing"]))), want)

        def round_case(r, rk, rows, cls):
            run = runs[rk]
            k = r.choice([1, 2, 4, 7])
            types = [r.choice(TYPES + ["I16", "SYMBOL"]) for _ in range(k)]
            cols = []
            for T in types:
                if T == "C8":
                    cols.append(("list", [("C8", "" if r.random() < 0.1 else textcell(r) + r.choice(["", "", "\n", ",", "\r", "\r\n"]))
                                          for _ in range(rows)]))
                    continue
                xs = list(col(r, T, rows)) if T not in ("SYMBOL", "DATE", "TIME", "TIMESTAMP", "F64") else None
                if T == "SYMBOL":
                    dom = [textcell(r) + r.choice(["", "", "", "\n", ",x", "\r"]) for _ in range(20)] + [n for n in names(r, 20) if n]
                    xs = [None if r.random() < 0.1 else r.choice(dom) for _ in range(rows)]
                elif T == "DATE":
                    xs = [None if r.random() < 0.1 else r.randrange(-365 * 1500, 365 * 5000) for _ in range(rows)]
                elif T == "TIME":
                    xs = [None if r.random() < 0.1 else r.randrange(-86399999, 86400000) for _ in range(rows)]
                elif T == "TIMESTAMP":
                    xs = [None if r.random() < 0.1 else r.randrange(-100000 * DAY, 100000 * DAY) for _ in range(rows)]
                elif T == "F64":
                    xs = [None if r.random() < 0.1 else f64cell(r)[1] for _ in range(rows)]
                cols.append((T, xs))
            names_ = header(r, k)
            sep = r.choice([",", ",", ";", "|", "\t"])
            t = ("table", ("SYMBOL", names_), ("list", cols))
            f = put(b"")
            s = "(at %s 0)" % strlit(sep)
            run.add(cls, [("t", t)], "(do (write-csv %s t %s) (read-csv [%s] %s %s))" % (strlit(f), s, " ".join(types), strlit(f), s), t,
                    ident="%s|%s|%d|%s" % (types, sep, rows, r.random()), key="%s:%s" % (cls, rk[0]))

        def enum_case(r, rk):
            run = runs[rk]
            dom = ["aa", "b b", "c,c", "d"]
            xs = [r.choice(dom) for _ in range(r.choice([1, 5, 30]))]
            ys = [r.randrange(100) for _ in xs]
            cs = "".join(r.choice("abc,\"x ") for _ in xs)
            f = put(b"")
            t = ("table", ("SYMBOL", ["s", "v", "w"]), ("list", [("SYMBOL", xs), ("I64", ys), ("list", [("C8", c) for c in cs])]))
            run.add("write-kinds", [("sx", ("SYMBOL", dom)), ("xs", ("SYMBOL", xs)), ("ys", ("I64", ys)), ("cs", ("C8", cs))],
                    "(do (set ed sx) (write-csv %s (table [s v w] (list (enum 'ed xs) ys cs))) (read-csv [SYMBOL I64 C8] %s))" % (strlit(f), strlit(f)),
                    t, ident="%s%s" % (xs, cs), key="write-kinds")

        # ---- small texts
        r = chk.sub("small")
        for i in range(chk.scale(450, 6000)):
            read_case(r, r.choice([("asan", 1), ("rel", 1)]), r.choice([1, 1, 2, 3, 3, 8, 20, 60, 200]), "read-small")
        for i in range(chk.scale(120, 1500)):
            err_case(r, ("asan", 1))
            bad_types(r, ("asan", 1))
        for i in range(chk.scale(200, 3000)):
            round_case(r, r.choice([("asan", 1), ("rel", 1)]), r.choice([1, 2, 5, 30, 150]), "round-trip")
        for i in range(chk.scale(20, 200)):
            enum_case(r, ("asan", 1))
        # ---- texts cut into chunks for the threads
        r = chk.sub("big")
        for i in range(chk.scale(9, 120)):
            rk = [("rel", 8), ("rel", 4), ("asan", 3)][i % 3]
            base = r.choice([16383, 16384, 16385, 20000, 32768, 33333, 50000])
            read_case(r, rk, base, "read-parallel")
        # lines of very different lengths, empty lines
        for i in range(chk.scale(3, 30)):
            rk = [("rel", 8), ("asan", 3), ("rel", 4)][i % 3]
            n = r.choice([16390, 40001, 65537])
            xs = [("x" * r.choice([0, 0, 1, 3, 300, 3]) if i % 5 else "y%d" % i) for i in range(n)]
            ys = list(range(n))
            cr = r.choice(["\n", "\r\n"])
            data = "s,n" + cr + cr.join("%s,%d" % p for p in zip(xs, ys)) + (cr if r.random() < 0.5 else "")
            f = put(data.encode())
            t = ("table", ("SYMBOL", ["s", "n"]), ("list", [("SYMBOL", [x or None for x in xs]), ("I64", ys)]))
            runs[rk].add("read-parallel", [], "(read-csv [SYMBOL I64] %s)" % strlit(f), t, ident="len%d|%d" % (n, i), key="read-parallel:lengths")
        # a bad line somewhere in a parallel read: an error, and no crash
        for i in range(chk.scale(2, 20)):
            rk = [("asan", 3), ("rel", 8)][i % 2]
            n = 33000
            lines = ["str%d,%d" % (j, j) for j in range(n)]
            for _ in range(r.choice([1, 3])):
                lines[r.randrange(n)] = "1"
            f = put(("s,n\n" + "\n".join(lines) + "\n").encode())
            runs[rk].add("bad-line-parallel", [], "(read-csv [C8 I64] %s)" % strlit(f),
                         lambda a: None if a[0] == "err" else "a line with too few fields was accepted", ident=i)
        for q in runs.values():
            q.flush()
        # ---- blocks released
        p = runs[("asan", 1)].proc()
        good = put(b'a,b,c\n1,"x ""y""",z\n2,,w\n')
        bad = put(b'a,b,c\n1,"x ""y""",z\n2,"q,w\n')
        few = put(b'a,b,c\n1,"x ""y""",z\n2\n')
        out = put(b"")
        for e in ["(read-csv [I64 C8 SYMBOL] %s)" % strlit(good), "(read-csv [I64 C8 SYMBOL] %s)" % strlit(bad),
                  "(read-csv [I64 C8 C8] %s)" % strlit(few), "(read-csv [I64 C8 C8 C8] %s)" % strlit(good),
                  "(read-csv [I64 nope C8] %s)" % strlit(good), "(read-csv [I64 C8] %s)" % strlit(good + ".missing"),
                  "(write-csv %s (read-csv [I64 C8 SYMBOL] %s))" % (strlit(out), strlit(good)),
                  "(write-csv %s (table [a b] (list [1 2] (list 1 (list 2)))))" % strlit(out),
                  "(write-csv \"%s/no-such-dir/x/\" (table [a] (list [1])))" % d]:
            ans = p.run([Rfh.E(e)] * 4)
            chk.case("leak", e)
            leaks = [a.get("d", [0, 0])[0] for a in ans[1:]]
            if any(leaks):
                chk.violation("leak:" + e.split()[0], {"expr": e, "blocks left per call": leaks})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return chk.finish(min_cases=500)


if __name__ == "__main__":
    main(main_c26)
