"""C23: the parser is total and reads every literal as the value it denotes."""
import os, string, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main
from drv import Rfh
from fun import Run
from val import same, show
import calmod as cal

NAME1 = string.ascii_letters
NAMEC = string.ascii_letters + string.digits + "+-*/%&|^~<>!=._?"
RESERVED = {"true", "false", "null", "fn"}


# ---- literals: (text, value) or (text, None) when it must be refused
def lit_bool(r):
    b = r.randrange(2)
    return ("true", ("b8", 1)) if b else ("false", ("b8", 0))


def lit_u8(r):
    k = r.random()
    if k < 0.5:
        n = r.randrange(256)
        s = "%02x" % n
        return "0x" + (s.upper() if r.random() < 0.4 else s), ("u8", n)
    if k < 0.75:
        n = r.choice([0, 1, 255, 256, -1, 1000, 70000, r.randrange(-300, 600)])
        n = n or 7
        return "%dx" % n, ("u8", n) if 0 <= n <= 255 else None
    return r.choice(["0x", "0x1", "0xg1", "0x1g", "0xabc", "0x123", "0x0z"]), None


def bounded(r, suf, t, bits, docnull=True):
    lim = 2 ** (bits - 1)
    k = r.random()
    if k < 0.35:
        n = r.randrange(-1000, 1000)
    elif k < 0.6:
        n = r.choice([lim - 1, -lim + 1, lim, lim + 1, -lim - 1, 2 * lim, 2 * lim + 5, -2 * lim, 10 ** 12, -10 ** 15, 2 ** 62])
    else:
        n = r.randrange(-lim + 1, lim)
    z = "0" * r.choice([0, 0, 0, 1, 3]) if n >= 0 else ""
    s = "%s%d%s" % (z, n, suf)
    if z + str(n) == "0" and False:
        pass
    return s, (t, n) if -lim < n < lim else None


def lit_i16(r):
    return ("0Nh", ("i16", None)) if r.random() < 0.08 else bounded(r, "h", "i16", 16)


def lit_i32(r):
    return ("0Ni", ("i32", None)) if r.random() < 0.08 else bounded(r, "i", "i32", 32)


def lit_i64(r):
    k = r.random()
    if k < 0.06:
        return "0Nl", ("i64", None)
    n = r.choice([r.randrange(-10, 10), r.randrange(-10 ** 6, 10 ** 6), r.randrange(-2 ** 63 + 1, 2 ** 63),
                  int("%d" % r.randrange(1, 10) * r.randrange(1, 19)), 2 ** 63 - 1, -2 ** 63 + 1, 10 ** 18, 99999999, 100000000,
                  -12345678, 123456789012345678, 10 ** r.randrange(0, 19) - 1])
    n = n if abs(n) < 2 ** 63 else 7
    return "%d%s" % (n, r.choice(["", "", "", "l"])), ("i64", n)


def lit_f64(r):
    k = r.random()
    if k < 0.05:
        return "0Nf", ("f64", None)
    if k < 0.12:
        # an integer no 64-bit integer holds is a float
        n = r.choice([2 ** 63, 2 ** 63 + r.randrange(10 ** 9), 10 ** r.randrange(19, 40), -2 ** 63 - 1 - r.randrange(10 ** 9), -2 ** 63])
        return "%d" % n, ("f64", float(n))
    if k < 0.5:
        i = "%d" % r.choice([0, 1, 7, 123, 99999, r.randrange(10 ** 8), r.randrange(10 ** 15), r.randrange(10 ** 18)])
        f = "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 2, 3, 6, 9, 17, 25])))
        s = i + "." + f
    elif k < 0.9:
        i = "%d" % r.randrange(10 ** r.choice([1, 1, 3, 9, 17]))
        f = r.choice(["", ".", "." + "".join(r.choice("0123456789") for _ in range(r.randrange(1, 18)))])
        e = r.choice([0, 1, 5, 10, 15, 22, 23, 100, 200, 270, 280, r.randrange(280)]) * r.choice([1, -1])
        s = "%s%s%s%s%s" % (i, f, r.choice("eE"), r.choice(["", "+"]) if e >= 0 else "-", r.choice(["%d", "%02d", "%03d"]) % abs(e))
    elif k < 0.95:
        s = "%d" % r.randrange(1000)
        return "-" * (r.random() < 0.5) * (s != "0") + s + "f", ("f64", float(s))  # sign fixed up below
    else:
        s = r.choice(["0.", "1" * 300 + ".5", "0." + "0" * 310 + "1", "1." + "3" * 400, "0." + "9" * 60, "4.9e-324", "2.2250738585072011e-308",
                      "1.7976931348623157e308", "1e-400", "123456789012345678901234567890.25", "9007199254740993.0", "0.1e1", "8.5e-5"])
    if r.random() < 0.35:
        s = "-" + s
    return s, ("f64", float(s))


def fix_f64(r):
    s, v = lit_f64(r)
    if v[1] is not None and s.endswith("f") and not s.startswith("0N"):
        return s, ("f64", float(s[:-1]))
    return s, v


def lit_date(r):
    k = r.random()
    if k < 0.06:
        return "0Nd", ("date", None)
    if k < 0.15:
        return bounded(r, "d", "date", 32)
    if k < 0.4:
        y, m, d = r.choice([2024, 2023, 1900, 2000, 1999, 2100]), r.choice([0, 1, 2, 2, 4, 12, 13, 99]), r.choice([0, 1, 28, 29, 30, 31, 32, 99])
    else:
        y, m, d = r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 32)
    s = "%04d.%02d.%02d" % (y, m, d)
    ok = 1 <= m <= 12 and 1 <= d <= cal.mdays(y, m)
    return s, ("date", cal.days(y, m, d)) if ok else None


def lit_time(r):
    k = r.random()
    if k < 0.06:
        return "0Nt", ("time", None)
    if k < 0.15:
        return bounded(r, "t", "time", 32)
    h, m, s = r.choice([0, 9, 12, 23, 24, 99, r.randrange(100)]), r.choice([0, 59, 60, 99, r.randrange(60)]), r.choice([0, 59, 60, 61, 99, r.randrange(60)])
    ms = r.choice([None, 0, 1, 999, r.randrange(1000)])
    neg = r.random() < 0.2
    t = ("-" if neg else "") + "%02d:%02d:%02d" % (h, m, s) + ("" if ms is None else ".%03d" % ms)
    ok = m < 60 and s < 60
    v = ((h * 60 + m) * 60 + s) * 1000 + (ms or 0)
    return t, ("time", -v if neg else v) if ok else None


def lit_ts(r):
    if r.random() < 0.06:
        return "0Np", ("timestamp", None)
    y, m, d = r.randrange(1708, 2292), r.randrange(1, 13), r.randrange(1, 32)
    h, mi, s = r.choice([0, 23, 24, 60, r.randrange(24)]), r.choice([0, 59, 60, 99, r.randrange(60)]), r.choice([0, 59, 60, 99, r.randrange(60)])
    if r.random() < 0.1:
        m = r.choice([0, 13, 40])
    if r.random() < 0.1:
        d = r.choice([0, 31, 32])
    ns = r.choice([0, 1, 999999999, r.randrange(10 ** 9)])
    f = "%09d" % ns
    big = r.random() < 0.06
    if big:
        f = r.choice(["0000000001", "9999999999", "4294967296000", "123456789012345678901234"])
    t = "%04d.%02d.%02dD%02d:%02d:%02d.%s" % (y, m, d, h, mi, s, f)
    ok = 1 <= m <= 12 and 1 <= d <= cal.mdays(y, m) and h < 24 and mi < 60 and s < 60 and not big
    return t, ("timestamp", (cal.days(y, m, d) * 86400 + (h * 60 + mi) * 60 + s) * 10 ** 9 + ns) if ok else None


ESC = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\", '"': '\\"'}


def lit_str(r):
    k = r.random()
    if k < 0.08:
        return r.choice(['"\\q"', '"\\8"', '"\\0"', '"\\01"', '"\\777"', '"\\400"', '"\\x41"', '"\\ "', '"a\\', '"', '"abc', '"\\"', '"\\00z"']), None
    t, v = "", ""
    for _ in range(r.choice([0, 1, 2, 5, 20, 100])):
        c = chr(r.choice([r.randrange(32, 127), r.randrange(256), r.randrange(256), 34, 92, 10, 39, 59, 40, 93]))
        m = r.random()
        if c in '"\\':
            t += ESC[c] if m < 0.8 else "\\%03o" % ord(c)
        elif c in ESC and m < 0.5:
            t += ESC[c]
        elif c == "\0" or m < 0.15:
            t += "\\%03o" % ord(c)
        else:
            t += c
        v += c
    return '"' + t + '"', ("C8", v)


def lit_char(r):
    k = r.random()
    if k < 0.1:
        return r.choice(["'\\q'", "'\\8'", "'\\777'", "'\\400'", "'\\12'", "'\\", "'ab'", "'\\19a'"]), None
    c = chr(r.randrange(256)) if k < 0.6 else chr(r.randrange(32, 127))
    if c in "\n\r\t\\'\"":
        e = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\", "'": "\\'", '"': '\\"'}[c]
        return "'" + (e if r.random() < 0.7 else "\\%03o" % ord(c)) + "'", ("c8", c)
    if ord(c) < 32 or r.random() < 0.2:
        return "'\\%03o'" % ord(c), ("c8", c)
    return "'" + c + "'", ("c8", c)


def name(r):
    while True:
        k = r.random()
        if k < 0.12:
            s = r.choice(["true", "false", "null", "fn"]) + r.choice(["x", "1", "_", "able", "s", "?", "-", "."])
        else:
            s = r.choice(NAME1) + "".join(r.choice(NAMEC) for _ in range(r.choice([0, 1, 3, 7, 30])))
        # never a built-in: those read as the function itself
        s = "zq" + s if k >= 0.12 and r.random() < 0.999 else s + "_q"
        if s not in RESERVED:
            return s


def lit_sym(r):
    if r.random() < 0.06:
        return "0Ns", ("qsymbol", None)
    s = name(r)
    if r.random() < 0.3:
        s = "".join(r.choice(NAMEC) for _ in range(r.choice([1, 2, 5]))) + "q"
    return "'" + s, ("qsymbol", s)


LITS = {"b8": lit_bool, "u8": lit_u8, "i16": lit_i16, "i32": lit_i32, "i64": lit_i64, "f64": fix_f64, "date": lit_date, "time": lit_time,
        "timestamp": lit_ts, "string": lit_str, "c8": lit_char, "symbol": lit_sym}
VECS = ["b8", "u8", "i16", "i32", "i64", "f64", "date", "time", "timestamp", "symbol"]
DO = ("fn", "do")


def good(r, t):
    while True:
        s, v = LITS[t](r)
        if v is not None:
            return s, v


def ws(r, must=True):
    k = r.random()
    if not must and k < 0.4:
        return ""
    if k < 0.75:
        return " "
    return "".join(r.choice([" ", "\n", "\t", "\r\n", "  ", "; c )]}\"'\n", ";\n"]) for _ in range(r.choice([1, 1, 2])))  or " "


def vec_lit(r):
    t = r.choice(VECS)
    n = r.choice([0, 1, 2, 3, 10])
    if n == 0:
        return "[" + ws(r, False) + "]", ("I64", [])
    el = []
    for _ in range(n):
        s, v = good(r, t)
        if t == "symbol" and r.random() < 0.5 and v[1] is not None and v[1][0] in NAME1 and v[1] not in RESERVED:
            s = v[1]
        el.append((s, v))
    # integers turn into floats when a float is among them
    tt = t.upper()
    vals = [v[1] for s, v in el]
    if t in ("i64", "f64") and n > 1 and r.random() < 0.3:
        k = r.randrange(n)
        s2, v2 = good(r, "f64" if t == "i64" else "i64")
        if not any(v[1] is None for s, v in el) and v2[1] is not None:
            el[k] = (s2, v2)
            vals = [float(v[1]) for s, v in el]
            tt = "F64" if any(v[0] == "f64" for s, v in el) else "I64"
            if tt == "I64":
                vals = [int(x) for x in [v[1] for s, v in el]]
    return "[" + ws(r, False) + ws(r).join(s for s, v in el) + ws(r, False) + "]", (tt, vals)


def tree(r, depth):
    """-> (text, parsed value)"""
    k = r.random()
    if depth <= 0 or k < 0.3:
        m = r.random()
        if m < 0.6:
            return good(r, r.choice(list(LITS)))
        if m < 0.85:
            s = name(r)
            return s, ("symbol", s)
        return vec_lit(r)
    if k < 0.65:
        parts = [tree(r, depth - 1) for _ in range(r.choice([1, 2, 3, 5]))]
        if parts[0][1] == ("symbol", "fn"):
            parts[0] = ("zz", ("symbol", "zz"))
        if len(parts) == 1 and parts[0][0] == "":
            return good(r, "i64")
        return "(" + ws(r, False) + ws(r).join(p[0] for p in parts) + ws(r, False) + ")", ("list", [p[1] for p in parts])
    if k < 0.82:
        n = r.choice([1, 2, 4])
        ks = [name(r) for _ in range(n)]
        vs = [tree(r, depth - 1) for _ in range(n)]
        s = "{" + ws(r, False)
        for q, v in zip(ks, vs):
            s += q + ws(r, False) + ":" + ws(r, False) + v[0] + ws(r)
        return s + "}", ("dict", ("SYMBOL", ks), ("list", [v[1] for v in vs]))
    args = [name(r) for _ in range(r.choice([0, 1, 2, 4]))]
    body = [tree(r, depth - 1) for _ in range(r.choice([1, 1, 2, 3]))]
    b = body[0][1] if len(body) == 1 else ("list", [DO] + [p[1] for p in body])
    return "(fn" + ws(r) + "[" + " ".join(args) + "]" + ws(r) + ws(r).join(p[0] for p in body) + ws(r, False) + ")", ("lambda", ("SYMBOL", args), b)


def total(got, a):
    if a.get("leak"):
        return "parsing left %d blocks behind" % a["leak"]
    if a["st"][:2] != [0, 0]:
        return "interpreter state %r" % (a["st"],)
    return None


def run():
    c = Check("C23")
    c.rule = ("one text parsed four times under AddressSanitizer and leak accounting; literals and whole programs compared with what they "
              "denote, the rest only has to end in a value or an error; distinct by text")
    u = Run(c, "asan", batch=300)
    fl = Run(c, "rel", batch=600)

    def one(cls, text, want, run=u):
        def judge(got, a, want=want, cls=cls):
            t = total(got, a)
            if t:
                return t
            if want == "any":
                return None
            if want is None:
                return None if got[0] == "err" else "should be refused, read as %s" % show(got, 200)
            return None if same(want, got) else "want %s, got %s" % (show(want, 600), show(got, 600))
        run.add(cls, [], Rfh.T(text), judge, ident=text, key=cls)

    # literals alone and in every position
    r = c.sub("lit")
    for t in LITS:
        for i in range(c.scale(700, 6000)):
            s, v = LITS[t](r)
            k = r.randrange(7)
            x = v
            if k == 0 or (v is None and t in ("string", "c8")):
                pass
            elif k == 1:
                s, x = "(" + s + ")", v and ("list", [v])
            elif k == 2:
                s, x = ws(r) + s + ws(r), v
            elif k == 3:
                s, x = "(zz " + s + " 1)", v and ("list", [("symbol", "zz"), v, ("i64", 1)])
            elif k == 4:
                s, x = "{a:" + s + "}", v and ("dict", ("SYMBOL", ["a"]), ("list", [v]))
            elif k == 5 and t in VECS:
                s, x = "[" + s + "]", v and (t.upper(), [v[1]])
            elif k == 6:
                s, x = "(fn [] " + s + ")", v and ("lambda", ("SYMBOL", []), v)
            one("literal " + t + ("" if v is not None else ", refused"), s, x, u if i % 3 else fl)
    # programs
    r = c.sub("tree")
    for i in range(c.scale(3000, 20000)):
        s, v = tree(r, r.choice([1, 2, 3, 4]))
        if r.random() < 0.1:
            parts = [tree(r, 1) for _ in range(r.choice([2, 3]))]
            s, v = ws(r).join(p[0] for p in parts), ("list", [DO] + [p[1] for p in parts])
        s = ws(r, False) + s + ws(r, False)
        if r.random() < 0.05:
            s = "#!/usr/bin/rayforce " + "x" * r.randrange(5) + "\n" + s
        one("program", s, v, u if i % 4 else fl)
    # nesting
    for o, cl in (("(", ")"), ("[", "]"), ("{a:", "}"), ("(fn [x] ", ")"), ("(a ", " b)"), ("{(", "):1}"), ("([{", "")):
        for n in (1, 50, 500, 1000, 1100, 5000, 60000):
            if n <= 1000 and o == "(":
                want = ("i64", 1)
                for _ in range(n):
                    want = ("list", [want])
                one("nesting", o * n + "1" + cl * n, "any")
            else:
                one("nesting", o * n + "1" + cl * n, "any")
            one("nesting, open", o * n, "any")
    # broken programs
    r = c.sub("hostile")
    frag = ["(", ")", "[", "]", "{", "}", ":", "'", '"', "\\", ";", "\n", " ", "\0", "0N", "0Nx", "0x", "-", ".", "1", "1.", "1e", "2024.01.", "2024.01.01D", "12:", "fn", "(fn [x]", "true",
            "null", "'a", "\"a", "\\0", "\\q", "\xff", "\x80", "#!", "a", "select", "9" * 20, "+", "-0", "0N0", ",", "@", "$", "`", "\x01"]
    for i in range(c.scale(9000, 80000)):
        k = r.randrange(4)
        if k == 0:
            s = "".join(chr(r.randrange(256)) for _ in range(r.choice([1, 2, 3, 8, 40, 200])))
        elif k == 1:
            s = "".join(r.choice(frag) + (" " if r.random() < 0.3 else "") for _ in range(r.choice([1, 2, 3, 5, 12, 40])))
        else:
            s = tree(r, 3)[0]
            for _ in range(r.choice([1, 1, 2, 4])):
                m = r.randrange(5)
                p = r.randrange(len(s) + 1)
                if m == 0:
                    s = s[:p]
                elif m == 1:
                    s = s[:p] + s[p + 1:]
                elif m == 2:
                    s = s[:p] + r.choice(frag) + s[p:]
                elif m == 3 and s:
                    s = s[:p] + chr(r.randrange(256)) + s[p + 1:]
                else:
                    q = r.randrange(len(s) + 1)
                    s = s[:p] + s[min(p, q):max(p, q)] + s[p:]
        one("hostile text", s, "any")
    u.close()
    fl.close()
    c.extra["monitors"] = ["AddressSanitizer and UBSan over the parser and the value it makes", "live heap blocks after parsing", "value model of literals and programs"]
    c.assumptions = ["source locations (spans) are not compared", "a name equal to a built-in reads as the built-in and is not generated",
                     "fractions of a second with fewer than all digits are not generated"]
    return c.finish(5000)


if __name__ == "__main__":
    main(run)
