"""Expressions over data whose sizes lie around and beyond the thresholds of the parallel paths."""
import subprocess
from drv import Rfh
from val import bind

SIZES = (16383, 16384, 16385, 40003, 100003)
T1 = ["I64", "I32", "I16", "U8", "B8", "F64", "SYMBOL", "DATE", "TIME", "TIMESTAMP", "C8"]
ORD = ["I64", "I32", "I16", "U8", "F64", "DATE", "TIME", "TIMESTAMP"]
NUM = ["I64", "I32", "I16", "U8", "F64"]
L = {"I64": "i", "I32": "j", "I16": "h", "U8": "u", "B8": "b", "F64": "f", "SYMBOL": "s", "DATE": "d", "TIME": "t", "TIMESTAMP": "p", "C8": "c",
     "GUID": "g", "LIST": "l", "ENUM": "e", "STR": "r"}
NULLABLE = {"I64": "0Nl", "I32": "0Ni", "I16": "0Nh", "F64": "0Nf", "SYMBOL": "0Ns", "DATE": "0Nd", "TIME": "0Nt", "TIMESTAMP": "0Np"}
ATOM = {"I64": ["0", "1", "-3", "40", "0Nl", "1000003"], "I32": ["0i", "7i", "-20i", "0Ni"], "I16": ["0h", "5h", "-9h", "0Nh"], "U8": ["0x00", "0x07", "0x64"],
        "B8": ["true", "false"], "F64": ["0.0", "1.5", "-2.25", "0Nf"], "SYMBOL": ["'a", "'bb", "'zz", "0Ns"], "DATE": ["2024.01.20", "0Nd", "1990.01.01"],
        "TIME": ["10:00:00.000", "0Nt"], "TIMESTAMP": ["2024.01.01D10:00:00.000000000", "0Np"], "C8": ["'x'", "'b'"]}


def prelude(r, sizes=SIZES):
    """pools of base values and index vectors; every name ends in the number of its size"""
    fr = []
    k = 997

    def pool(T, few):
        m = 7 if few else k
        out = []
        for _ in range(m):
            if T in ("I64", "TIMESTAMP"):
                x = r.randrange(-40, 40) if few else r.randrange(-10**6, 10**6)
                if T == "TIMESTAMP":
                    x = 757382400000000000 + x * 10**9
            elif T in ("I32", "DATE", "TIME"):
                x = r.randrange(0, 90) if few else r.randrange(-20000, 20000) if T != "TIME" else r.randrange(0, 80000000)
            elif T == "I16":
                x = r.randrange(-30, 30) if few else r.randrange(-3000, 3000)
            elif T == "U8":
                x = r.randrange(0, 9) if few else r.randrange(256)
            elif T == "B8":
                x = r.randrange(2)
            elif T == "F64":
                x = r.randrange(-4000, 4000) / 4
            elif T == "SYMBOL":
                x = "".join(r.choice("abc") for _ in range(r.randrange(1, 3 if few else 6)))
            elif T == "C8":
                x = r.choice("abcdxyz ")
            if T in NULLABLE and r.random() < 0.1:
                x = None
            out.append(x)
        return (T, out) if T != "C8" else ("C8", "".join(out))
    for T in T1:
        fr += bind("P" + L[T], pool(T, False)) + bind("Q" + L[T], pool(T, True))
    fr += [Rfh.E("(set sy [a b c d])")]
    fr += bind("Pg", ("GUID", ["%032x" % (r.getrandbits(120) + 1) for _ in range(k)]))
    fr += bind("Pr", ("list", [("C8", "".join(r.choice("abx*") for _ in range(r.randrange(0, 6)))) for _ in range(60)]))
    fr += bind("Pl", ("list", [("I64", [1, 2]), ("i64", 5), ("C8", "abc"), ("symbol", "q"), ("F64", [1.5])]))
    fr += bind("Pe", ("SYMBOL", ["abcd"[r.randrange(4)] for _ in range(k)]))
    for j, n in enumerate(sizes):
        a, b = 48271 + 2 * j, 7919 + 2 * j
        fr += [Rfh.E("(set x%d (%% (* (til %d) %d) %d))" % (j, n, a, k)), Rfh.E("(set y%d (%% (+ 3 (* (til %d) %d)) 7))" % (j, n, b))]
        for T in T1:
            fr.append(Rfh.E("(set %s%d (at P%s x%d))" % (L[T], j, L[T], j)))
            fr.append(Rfh.E("(set %s%d_ (at Q%s y%d))" % (L[T], j, L[T], j)))
        fr += [Rfh.E("(set n%d (%% (* (til %d) 1299709) 15485863))" % (j, n)), Rfh.E("(set o%d (til %d))" % (j, n)), Rfh.E("(set g%d (at Pg x%d))" % (j, j)),
               Rfh.E("(set r%d (at Pr (%% x%d 60)))" % (j, j)), Rfh.E("(set l%d (at Pl (%% x%d 5)))" % (j, j)),
               Rfh.E("(set e%d (enum 'sy (at Pe x%d)))" % (j, j)),
               Rfh.E("(set T%d (table [k q d a f j h u b t p n s g e] (list s%d_ i%d_ d%d_ i%d f%d j%d h%d u%d b%d t%d p%d n%d s%d g%d e%d)))" % ((j,) * 16))]
    j = len(sizes)
    fr += [Rfh.E("(set U (table [k w x] (list (distinct Qs) (til (count (distinct Qs))) (* 1.5 (til (count (distinct Qs)))))))"),
           Rfh.E("(set V (table [n z] (list (* 3 (til 9000)) (til 9000))))"),
           Rfh.E("(set W (table [s t y] (list (at Ps (% (til 5000) 900)) (asc (at Pt (% (* 31 (til 5000)) 997))) (til 5000))))")]
    # answer with nothing, so that no large value is written out
    return [f if f[:1] != b"E" else Rfh.E("(do %s 0)" % f.split(b"\n", 1)[1].decode()) for f in fr]


AGG = {"sum": "ijhufto", "avg": "ijhufo", "min": "ijhufdtpo", "max": "ijhufdtpo", "count": "*", "first": "*", "last": "*", "med": "ihuo", "dev": "ijhufto"}
GAGG = {"sum": "qafjhtn", "avg": "qafjhn", "min": "qdafjhtpn", "max": "qdafjhtpn", "count": "*", "first": "*", "last": "*", "med": "qafjhn", "dev": "qafjhn"}
ANY = "ijhubfsdtpcglerxno"
COLS = "kqdafjhubtpnsge"
UNS = {"asc": "ijhubfsdtpcno", "desc": "ijhubfsdtpcno", "iasc": "ijhubfsdtpcno", "idesc": "ijhubfsdtpcno", "rank": "ijhubfsdtpcno", "distinct": "ijhubsdtpcglen", "group": "iubfspcgleno",
       "reverse": "ijhubfsdtpcglno", "where": "b", "not": "b", "nil?": "*", "neg": "ijhbfn", "ser": "ijhubfsdtpcgln", "round": "ijfdtp", "floor": "ijfdtp", "ceil": "ijfdtp",
       "unify": "*", "raze": "*", "value": "e", "key": "e", "enlist": "ij", "type": "l", "count": "*"}
BIN = {"+": "ii ij ih iu ib if id it ip ji jj jh ju jf jd jt jp hi hj hh hf ui uj uu uf bi fi fj fh fu ff di dj dt ti tj td tt tp pi pj pt",
       "-": "ii ij ih iu if it ji jj jh ju jf jt hi hj hh hf ui uj uu uf fi fj fh fu ff di dj dd dt ti tj tt pi pj pt pp",
       "*": "ii ij ih iu ib if it ji jj jh ju jf jt hi hj hh hf ui uj uu uf bi fi fj fh fu ff ti tj",
       "/": "ii ij ih iu if ji jj jh ju jf hi hj hh hf ui uj uu uf fi fj fh fu ff ti tj tf",
       "%": "ii ij ih iu if ji jj jh ju jf hi hj hh ui uj uu fi fj ff ti tj",
       "div": "ii ij if ji jj jf fi fj ff", "xbar": "ii ij if ji jj jf fi fj ff di dj ti tj tt pi pj pt"}
CMP = "ii ij ih if ji jj jh jf hi hj hh hf fi fj fh ff ss dd dp tt pd pp cc ii jj hh ff ss dd tt pp".split()
T_OF = {v: k for k, v in L.items()}
AS = {"I64": "ijhubfdtp", "I32": "ijhubfdtp", "I16": "ijhubfdtp", "U8": "ijhufdtp", "B8": "ijhbfdtp", "F64": "ijhubfdtp", "DATE": "ijhubfdtp", "TIME": "ijhubfdtp", "TIMESTAMP": "ijhubfdtp",
      "SYMBOL": "s", "C8": "ijfs"}


class Big:
    def __init__(self, r, sizes=SIZES):
        self.r, self.sizes = r, sizes

    def v(self, j, ls="*"):
        """a variable whose letter is one of ls"""
        c = self.r.choice(ANY if ls == "*" else ls)
        return "%s%d%s" % (c, j, self.r.choice(["", "_"]) if c in "ijhubfsdtpc" else "")

    def num(self, j, depth=1, cs="ijhuftpd"):
        """(expression of numbers, its letter)"""
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            c = r.choice(cs)
            if c == "i" and r.random() < 0.4:
                return r.choice(["n%d", "o%d", "x%d"]) % j, "i"
            return self.v(j, c), c
        if r.random() < 0.12:
            a, c = self.num(j, depth - 1, "ijhf")
            return ("(neg %s)" % a, c) if c in "ijf" else (a, c)
        op = r.choice(list(BIN)) if r.random() < 0.5 else r.choice("+-*")
        m = r.random()
        a, c = self.num(j, depth - 1)
        ps = [p for p in BIN[op].split() if p[0] == c]
        if not ps:
            return a, c
        p = r.choice(ps)
        if m < 0.5 and p[1] in "ijhuftpd":
            b = self.v(j, p[1])
        else:
            b = r.choice(ATOM[T_OF[p[1]]])
        # the type of the result is not tracked beyond what is needed to go on
        if op in ("/",) or "f" in p:
            t = "f"
        elif p in ("dd", "tt", "pp") and op == "-":
            t = {"dd": "z", "tt": "t", "pp": "i"}[p]
        elif "p" in p:
            t = "p"
        elif p in ("dt", "td"):
            t = "p"
        elif "d" in p:
            t = "d"
        elif "t" in p:
            t = "t"
        else:
            t = p[0] if op in ("%", "div", "xbar") else "i" if "i" in p else "j" if "j" in p else p[0]
        return "(%s %s %s)" % (op, a, b), "z" if t in "hu" else t

    def pred(self, j, depth=1):
        r = self.r
        m = r.random()
        if depth > 0 and m < 0.3:
            return "(%s %s)" % (r.choice(["and", "or"]), " ".join(self.pred(j, depth - 1) if r.random() < 0.9 else r.choice(["true", "false"]) for _ in range(r.choice([2, 2, 3]))))
        if m < 0.36:
            return "(not %s)" % self.pred(j, depth - 1) if depth > 0 else "b%d" % j
        if m < 0.44:
            c = r.choice("ijhubfsdtpc")
            return "(in %s%d Q%s)" % (c, j, c)
        if m < 0.5:
            return "(within i%d%s %s)" % (j, r.choice(["", "_"]), r.choice(["[-3 20]", "[0 5000]", "[-100000 -7]"]))
        if m < 0.55:
            return "(nil? %s)" % self.v(j, "ijhfsdtp")
        p = r.choice(CMP)
        a = self.v(j, p[0])
        b = self.v(j, p[1]) if r.random() < 0.45 else r.choice(ATOM[T_OF[p[1]]])
        return "(%s %s %s)" % (r.choice("== != < > <= >=".split()), a, b)

    def agg(self, by=False):
        r = self.r
        f = r.choice(list(GAGG))
        cs = GAGG[f]
        c = r.choice(COLS if cs == "*" else cs)
        m = r.random()
        if m < 0.72:
            return "(%s %s)" % (f, c)
        if m < 0.85 and c in "qafn":
            return "(%s (%s %s %s))" % (f, r.choice("+*-"), c, r.choice(["a", "f", "n", "2", "j"]))
        if m < 0.89:
            return "(count (distinct %s))" % r.choice("kqajbtpsn")
        if m < 0.93 and by:
            return c
        return "(%s (%s a) (%s f))" % (r.choice("+-*"), r.choice(["sum", "avg", "min", "max", "count"]), r.choice(["sum", "avg", "min", "max", "count"]))

    def cpred(self, depth=1):
        r = self.r
        if depth and r.random() < 0.25:
            return "(%s %s %s)" % (r.choice(["and", "or"]), self.cpred(0), self.cpred(0))
        c, T = r.choice([("a", "I64"), ("f", "F64"), ("j", "I32"), ("h", "I16"), ("t", "TIME"), ("p", "TIMESTAMP"), ("d", "DATE"), ("q", "I64"), ("n", "I64"), ("k", "SYMBOL"), ("s", "SYMBOL")])
        if r.random() < 0.15:
            return "(in %s Q%s)" % (c, L[T])
        if T == "SYMBOL":
            return "(%s %s %s)" % (r.choice(["==", "!="]), c, r.choice(ATOM[T]))
        return "(%s %s %s)" % (r.choice("< > <= >= == !=".split()), c, r.choice(ATOM[T]))

    def select(self, j):
        r = self.r
        p = ["from: T%d" % j]
        if r.random() < 0.45:
            p.append("where: " + self.cpred())
        by = r.random() < 0.75
        if by:
            k = r.random()
            p.append("by: " + (r.choice("kqafubpnsge") if k < 0.5 else
                               "{%s}" % " ".join("%s: %s" % (a, b) for a, b in zip("ABC", r.sample(COLS, r.choice([2, 2, 3])))) if k < 0.85 else
                               "(%s %s %s)" % (r.choice(["xbar", "%", "div"]), r.choice("aqn"), r.choice(["7", "100", "100000"]))))
        upd = r.random() < 0.12
        if by or upd or r.random() < 0.7:
            for i in range(r.choice([1, 1, 2, 3])):
                p.append("z%d: %s" % (i, self.agg(not upd) if by or r.random() < 0.5 and not upd else r.choice(["(+ a n)", "(* f 2)", "(- p p)", "s", "(> a j)", "(as 'I32 h)", "(if (> a 3) 1 2)", "(neg f)"])))
        return "(%s {%s})" % ("update" if upd else "select", " ".join(p))

    def one(self):
        r = self.r
        j = r.choices(range(len(self.sizes)), [2, 3, 3, 3, 2][:len(self.sizes)])[0]
        n = self.sizes[j]
        m = r.random()
        if m < 0.12:
            return self.num(j, r.choice([1, 2, 3]))[0]
        if m < 0.18:
            return self.pred(j, 2)
        if m < 0.28:
            f = r.choice(list(AGG))
            if r.random() < 0.25 and f != "med":
                return "(%s %s)" % (f, self.num(j, 1, "ijf")[0])
            x = self.v(j, AGG[f])
            if r.random() < 0.3:
                x = r.choice(["(filter %s %s)" % (x, self.pred(j)), "(at %s (where %s))" % (x, self.pred(j)), "(take %s %d)" % (x, r.choice([n + 100, 3 * n, -n + 2, 16384])), "(at %s (iasc n%d))" % (x, j)])
            return "(%s %s)" % (f, x)
        if m < 0.34:
            f = r.choice(list(UNS))
            return "(%s %s)" % (f, self.v(j, UNS[f]))
        if m < 0.37:
            # vectors that carry the marks of being sorted or distinct
            x = r.choice(["(asc %s)" % self.v(j, "ijfsdtpn"), "(desc %s)" % self.v(j, "ijfsdtpn"), "o%d" % j, "(desc o%d)" % j, "(distinct n%d)" % j, "(desc (distinct n%d))" % j, "(asc (distinct n%d))" % j,
                          "(reverse o%d)" % j, "(iasc n%d)" % j, "(idesc o%d)" % j, "(idesc (asc n%d))" % j])
            f = r.choice(["iasc", "idesc", "asc", "desc", "rank", "distinct", "group", "xrank", "min", "max", "bin", "reverse"])
            return "(xrank %s %d)" % (x, r.choice([2, 7, 100])) if f == "xrank" else "(bin %s [-5 0 7 9999])" % x if f == "bin" else "(%s %s)" % (f, x)
        if m < 0.41:
            f = r.choice("in find union sect except concat".split())
            c = r.choice({"find": "ijubfsdtpcgl", "sect": "is", "except": "is"}.get(f, "ijhubfsdtpcg"))
            b = self.v(r.randrange(len(self.sizes)) if r.random() < 0.3 else j, c) if c in "gl" or r.random() < 0.6 else r.choice("PQ") + c
            return "(%s %s %s)" % (f, self.v(j, c), b)
        if m < 0.46:
            return r.choice(["(at %s (where %s))" % (self.v(j), self.pred(j)), "(filter %s %s)" % (self.v(j), self.pred(j)), "(at %s (%% n%d %d))" % (self.v(j), j, n),
                             "(take %s %d)" % (self.v(j), r.choice([-3, 5, 20000, 300000, -16384, 50000])), "(at T%d (where %s))" % (j, self.pred(j)), "(filter T%d %s)" % (j, self.pred(j)),
                             "(at %s n%d)" % (self.v(j), j), "(at %s x%d)" % (self.v(j), j), "(where %s)" % self.pred(j), "(til %d)" % r.choice([16384, 16385, 200000]),
                             "(take T%d %d)" % (j, r.choice([5, -7, n + 9])), "(count (rand %d 10))" % n])
        if m < 0.49:
            T = r.choice(list(AS))
            return "(as '%s %s)" % (T, self.v(j, AS[T]))
        if m < 0.52:
            return "(%s T%d %s)" % (r.choice(["xasc", "xdesc"]), j, "'" + r.choice("kqdafjhubtpnse") if r.random() < 0.5 else "[%s]" % " ".join(r.sample("kqdafjubs", 2)))
        if m < 0.53:
            return "(xrank %s %d)" % (self.v(j, "ijhfsdtpn"), r.choice([2, 4, 7, 100]))
        if m < 0.57:
            if r.random() < 0.25:
                w = r.choice(["-9 9", "-1000 0", "5 100000"])
                return "(%s [s t] (map-left + [%s] (at T%d 't)) T%d W {m0: (min y) m1: (count y) m2: (sum y)})" % (r.choice(["window-join", "window-join1"]), w, j, j)
            return r.choice(["(left-join [k] T%d U)", "(inner-join [k] T%d U)", "(left-join [n] T%d V)", "(inner-join [n] T%d V)", "(left-join [k] U T%d)", "(inner-join [n] V T%d)",
                             "(asof-join [s t] T%d W)", "(left-join [s] T%d W)", "(inner-join [s] W T%d)", "(left-join [s t] T%d W)", "(inner-join [s t] T%d W)"]) % j
        if m < 0.63:
            f = r.choice(["(fn [x] (+ x 1))", "(fn [x] (* x x))", "(fn [x] (if (> x 5) x 0))", "neg", "(fn [x] (list x x))", "(fn [x] (sum (til 3)))", "(fn [x] (% x 3))", "(fn [x] (let q (+ x 1)) (* q q))",
                          "(fn [x] (format \"%\" x))", "(fn [x] (as 'symbol (format \"m%\" x)))", "(fn [x] (if (> x 1000000) (raise \"e\") x))", "(fn [x] (try (raise \"e\") (fn [y] x)))"])
            return "(%s %s %s)" % (r.choice(["map", "pmap", "pmap", "pmap"]), f, r.choice(["o0", "o1", "o2", "n1", "i1_", "f1", "j2", "(til 300)", "(til 20)"]))
        if m < 0.67:
            return r.choice(["(fold + %s)" % self.v(j, "ijhfn"), "(fold (fn [x y] (+ x y)) %s)" % self.v(0, "ijn"), "(scan + 0 %s)" % self.v(j, "in"), "(fold max %s)" % self.v(j, "ijfn"),
                             "(like r%d \"%s\")" % (j, r.choice(["a*", "*b", "?x*", "ab"])), "(== l%d l%d)" % (j, j), "(count (distinct r%d))" % j, "(apply + %s %s)" % ((self.v(j, "ijf"),) * 2),
                             "(pmap (fn [x y] (+ x y)) %s %s)" % ((self.v(0, "ijf"),) * 2), "(sum (map count (value (group %s))))" % self.v(j, "iusn"),
                             "(bin (asc (distinct Qi)) %s)" % self.v(j, "in"), "(bin [1 5 9 100] n%d)" % j, "(de (ser %s))" % self.v(j, "ijhubfsdtpcgln"),
                             "(pmap %s r%d)" % (r.choice(["count", "first", "distinct", "type", "reverse"]), j), "(pmap count (value (group %s)))" % self.v(j, "isn"), "(de (ser T%d))" % j,
                             "(do (write-csv \"c%d.csv\" (take (select {a: a f: f s: s j: j k: k from: T%d}) %d)) (read-csv [I64 F64 SYMBOL I32 SYMBOL] \"c%d.csv\"))" % (j, j, n, j)])
        if m < 0.69:
            return "(do (set z %s) (set z (+ z 1)) (sum z))" % self.num(j, 1, "ijf")[0]
        return self.select(j)


def sites(pool_answers, exe):
    """{'function file:line': [runs, tasks]} from the answers of O frames"""
    tot = {}
    for a in pool_answers:
        for at, runs, tasks in a["sites"]:
            t = tot.setdefault(at, [0, 0])
            t[0] += runs
            t[1] += tasks
    if not tot:
        return {}
    ks = list(tot)
    p = subprocess.run(["addr2line", "-f", "-e", exe] + [hex(int(k, 16) - 1) for k in ks], stdout=subprocess.PIPE)
    ls = p.stdout.decode().splitlines()
    out = {}
    for i, k in enumerate(ks):
        fn, where = ls[2 * i], ls[2 * i + 1].split("/")[-1].split(" ")[0]
        o = out.setdefault("%s %s" % (fn, where), [0, 0])
        o[0] += tot[k][0]
        o[1] += tot[k][1]
    return out
