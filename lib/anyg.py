"""Random programs over every builtin and every kind of value; only their ending is judged."""
import random

# names a workload must not call at random: they end the process, run commands, or use raw descriptors
NEVER = {"exit", "system", "loadfn", "hclose", "write", "hopen", "timer", "os-set-var", "read", "load", "pid", "started",
         "modify", "timeit"}
IO = {"set-splayed", "get-splayed", "set-parted", "get-parted", "read-csv", "write-csv", "get", "set"}
NONDET = {"rand", "guid", "timeit", "memstat", "gc", "rc", "env", "internals", "sysinfo", "date", "time", "timestamp", "os-get-var", "pid", "started"}

UNARY = "get quote raise parse eval type til reverse distinct group sum avg med dev min max round floor ceil first last count not " \
        "iasc idesc rank asc desc guid neg where key value ser de rc select update date time timestamp nil? resolve show meta " \
        "os-get-var unify raze diverse row".split()
BINARY = "try set let at == < > <= >= != + - * % / div like dict table find concat remove filter take in within sect except union " \
         "rand as xasc xdesc xrank enum xbar split bin binr".split()
VARY = "do and or env memstat gc list enlist format print println apply map pmap map-left map-right fold fold-left fold-right scan " \
       "scan-left scan-right args alter insert upsert read-csv write-csv left-join inner-join asof-join window-join window-join1 if " \
       "return set-splayed get-splayed set-parted get-parted internals sysinfo timeit".split()
TYPES = "b8 u8 i16 i32 i64 symbol date time timestamp f64 guid c8 B8 U8 I16 I32 I64 SYMBOL DATE TIME TIMESTAMP F64 GUID C8 String LIST list TABLE DICT LAMBDA LISTS nope".split()

ATOMS = ["true", "false", "0x00", "0x07", "0xff", "0h", "1h", "-3h", "32767h", "0Nh", "0i", "1i", "-2i", "13i", "0Ni", "0", "1", "2", "-1",
         "3", "5", "-4", "17", "100", "0Nl", "9223372036854775807", "-9223372036854775807", "0.0", "1.5", "-2.25", "1e300", "-1e-300", "0Nf",
         "'a", "'b", "'k", "'x", "'t", "'nosuch", "0Ns", "'sym", "2024.01.01", "1969.12.31", "0Nd", "10:30:00.000", "0Nt",
         "2024.01.01D10:30:00.000000000", "0Np", "0Ng", "'q'", "null", "(first d)", "(guid 1)",
         "\"\"", "\"a\"", "\"abc\"", "\"x\"", "\"a*c?\"", "\"a,b,,c\"", "\"(+ 1 2)\"", "\"(\"", "\"% and %\"", "\"2024.01.01\"", "\"12\"", "\"zz/\""]
VECS = ["[]", "[true]", "[true false true]", "[false false]", "(take [true] 0)", "(as 'U8 [1 2 3])", "[0x01 0x02 0x01]", "(as 'I16 [3 1 2])",
        "(as 'I16 [0Nl 1])", "(as 'I32 [3 1 2 2])", "(as 'I32 [1 0Nl])", "[1]", "[3 1 2]", "[1 2 3 4 5]", "[0Nl 2 0Nl]", "[-1 0 1]", "[0 1]", "[0 2 7]",
        "[9223372036854775807 -9223372036854775807]", "(til 20)", "(take [1] 0)", "[1.5 2.5]", "[0Nf 1.0 -1.0]", "(take [1.0] 0)", "[a b c]", "[a a b]",
        "[k v]", "[x y]", "(take [a] 0)", "(concat [a] 0Ns)", "[2024.01.01 2024.02.28]", "[2024.01.01 0Nd]", "(take [2024.01.01] 0)",
        "[10:00:00.000 11:00:00.000]", "[2024.01.01D00:00:00.000000000 0Np]", "(take [2024.01.01D00:00:00.000000000] 0)", "(guid 3)", "(take (guid 1) 0)", "(concat 0Ng 0Ng)",
        "(concat 'q' 'r')"]
LISTS = ["(list)", "(list 1 2.0 'a)", "(list 1 2 3)", "(list [1 2] [3 4 5])", "(list \"ab\" \"\" \"c\")", "(list null null)", "(list (list) (list 1))",
         "(list 'a \"b\" [1] (list 2))", "(list [1 2 3] [1.0 2.0 3.0])", "(list [a b] [c])", "(list 1 null)", "(list (list 1 2) (list 3 4))"]
DICTS = ["(dict [a b] [1 2])", "(dict [a b c] (list 1 \"x\" [1 2]))", "(dict [1 2] [a b])", "(dict (list) (list))", "(dict (take [a] 0) (list))",
         "{a: 1 b: [1 2]}", "{from: t}", "{from: t by: k}", "(dict [k v] (list [a b a] [1 2 3]))", "(dict (list \"a\" 1) (list 1 2))", "(dict (guid 2) [1 2])",
         "(dict [a a] [1 2])", "(group [1 2 1 3])", "(meta t)"]
TABS = ["(table [k v] (list [a b a c] [1 2 3 4]))", "(table [k v] (list [1 2 2] [1.0 0Nf 2.0]))", "(table [k v s] (list [1 2] [a b] (list \"x\" \"yy\")))",
        "(table [k v] (list (take [1] 0) (take [1.0] 0)))", "(table [x y] (list [1 2 3] (list 1 'a \"s\")))", "(table [k] (list [2024.01.01 0Nd]))",
        "(table (take [a] 0) (list))", "(table [k v] (list (enum 'sym [a b a]) [1 2 3]))", "(table [k v] (list [10:00:00.000 11:00:00.000] [1 2]))",
        "(table [k v w] (list [1 2 3] [a b c] (guid 3)))"]
FNS = ["(fn [x] x)", "(fn [x] (+ x 1))", "(fn [x y] (+ x y))", "(fn [x y] (list x y))", "(fn [] 1)", "(fn [x] (raise \"e\"))", "(fn [x y] y)",
       "(fn [x] (self x 1))", "(fn [x] (return 3) 4)", "(fn [x] (let y x) (+ y y))", "(fn [x] (if (== 0 (count x)) 1 2))", "(fn [x] nosuch)", "(fn [x] (set w x))",
       "(fn [x y z] (list x y z))", "+", "count", "neg", "list", "sum", "first", "concat", "til", "at", "==", "enlist", "and", "type", "str", "(fn [x] (map neg x))",
       "(fn [x] (fold + x))", "(fn [x] (try (sum x) (fn [e] e)))", "if", "do", "select", "set", "(at (list +) 0)", "format", "raze", "where", "as"]
ENUMS = ["(enum 'sym [a b a])", "(enum 'sym [a nosuch2 c])", "(enum 'sym (take [a] 0))", "(enum 'sym2 [x y x z])"]
NAMES = ["t", "t2", "d", "v", "l", "s", "f", "big", "e", "g", "n"]

PRELUDE = ["(set sym [a b c])", "(set sym2 [x y z])", "(set t (table [k v] (list [a b a c] [1 2 3 4])))",
           "(set t2 (table [k v w] (list [b c d] [10 20 30] [1.0 2.0 0Nf])))", "(set d (dict [a b c] (list 1 \"x\" [1 2])))",
           "(set v [3 1 2 2 0Nl])", "(set l (list 1 2.0 'a \"s\" [1 2]))", "(set s \"hello\")", "(set f (fn [x] (+ x 1)))",
           "(set big (til 300))", "(set e (enum 'sym [a b a]))", "(set g (guid 5))", "(set n 4)"]


class Any:
    def __init__(self, r, avoid=(), io=False, det=False):
        self.r = r
        self.avoid = set(avoid) | NEVER | (set() if io else IO - {"get", "set"}) | (NONDET if det else set())
        self.un = [x for x in UNARY if x not in self.avoid]
        self.bi = [x for x in BINARY if x not in self.avoid]
        self.va = [x for x in VARY if x not in self.avoid]
        self.det = det
        self.pools = {"atom": ATOMS, "vec": VECS, "list": LISTS, "dict": DICTS, "tab": TABS, "fn": FNS, "enum": ENUMS, "name": NAMES}
        if det:
            self.pools = {k: [x for x in p if "guid" not in x] for k, p in self.pools.items()}
        self.flat = [x for k in self.pools for x in self.pools[k]]

    def leaf(self, kinds=None):
        r = self.r
        k = r.choice(kinds) if kinds else r.choices(list(self.pools), [6, 6, 3, 2, 3, 3, 1, 4])[0]
        return r.choice(self.pools[k])

    def lit(self):
        """a vector literal or expression of random content and shape"""
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 4, 7])
        m = r.randrange(8)
        if m == 0:
            return "(take [%s] %d)" % (r.choice(["1", "1.0", "a", "2024.01.01", "true", "0x01"]), n)
        if m == 1:
            return "(as '%s [%s])" % (r.choice(["I16", "I32", "U8", "F64", "I64", "DATE", "TIME", "TIMESTAMP", "B8"]), " ".join(str(r.randrange(-3, 9)) for _ in range(max(1, n))))
        if m == 2:
            return "[%s]" % " ".join(r.choice(["0Nl", "1", "2", "3", "-1", "8"]) for _ in range(max(1, n)))
        if m == 3:
            return "[%s]" % " ".join(r.choice(["0Nf", "1.0", "2.5", "-1.0"]) for _ in range(max(1, n)))
        if m == 4:
            return "[%s]" % " ".join(r.choice("abckvxy") for _ in range(max(1, n)))
        if m == 5:
            return "(list %s)" % " ".join(self.leaf(["atom", "vec", "list", "name"]) for _ in range(n))
        if m == 6:
            return '"%s"' % "".join(r.choice("ab 12.,:%*?[]()") for _ in range(n))
        return "(list %s)" % " ".join(self.leaf(["atom"]) for _ in range(n))

    def sel(self, depth):
        r = self.r
        src = r.choice(["t", "t2", self.leaf(["tab"]), self.expr(depth - 1)])
        p = ["from: " + src]
        col = lambda: r.choice(["k", "v", "w", "x", "s", self.expr(0)])
        if r.random() < 0.5:
            p.append("where: " + r.choice(["(%s %s %s)" % (r.choice(["==", "<", ">=", "in", "!=", "like", "within", "find"]), col(), self.expr(depth - 1)), "(%s %s %s)" % (r.choice(["and", "or"]), "(> v 1)", "(== k %s)" % self.leaf()), self.expr(depth - 1)]))
        if r.random() < 0.5:
            p.append("by: " + r.choice([col(), "{k: k v: v}", "{k: %s}" % col(), "(xbar v %s)" % self.leaf(["atom"]), self.expr(depth - 1)]))
        for i in range(r.choice([0, 1, 1, 2])):
            p.append("%s: %s" % (r.choice(["k", "v", "z%d" % i, "w"]), r.choice(["(%s %s)" % (r.choice(self.un), col()), "(%s %s %s)" % (r.choice(self.bi), col(), col()), "(%s (%s %s))" % (r.choice(self.un), r.choice(self.un), col()), self.expr(depth - 1), "(map %s %s)" % (self.leaf(["fn"]), col())])))
        if r.random() < 0.15:
            p.append("take: " + self.leaf(["atom"]))
        r.random()
        return "(%s {%s})" % (r.choice(["select", "select", "select", "update"]), " ".join(p))

    def expr(self, depth):
        r = self.r
        if depth <= 0:
            return self.leaf() if r.random() < 0.75 else self.lit()
        m = r.random()
        sub = lambda: self.expr(depth - 1 if r.random() < 0.6 else 0)
        if m < 0.2:
            return "(%s %s)" % (r.choice(self.un), sub())
        if m < 0.5:
            return "(%s %s %s)" % (r.choice(self.bi), sub(), sub())
        if m < 0.62:
            return "(%s %s)" % (r.choice(self.va), " ".join(sub() for _ in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5]))))
        if m < 0.67:
            # any builtin with any number of arguments
            return "(%s %s)" % (r.choice(self.un + self.bi + self.va), " ".join(sub() for _ in range(r.randrange(7))))
        if m < 0.75:
            return self.sel(depth)
        if m < 0.82:
            return "(%s %s %s)" % (r.choice(["map", "pmap", "fold", "scan", "apply", "fold-left", "fold-right", "map-left", "map-right", "scan-left", "scan-right"]),
                                   self.leaf(["fn"]), " ".join(sub() for _ in range(r.choice([1, 1, 2, 3]))))
        if m < 0.88:
            ps = r.choice(["", "x", "x y", "x y z"])
            body = self.expr(depth - 1)
            if ps and r.random() < 0.7:
                body = "(%s %s)" % (r.choice(self.un), "x") if r.random() < 0.4 else "(%s x %s)" % (r.choice(self.bi), r.choice(ps.split() + [sub()]))
            return "((fn [%s] %s) %s)" % (ps, body, " ".join(sub() for _ in range(len(ps.split()) if r.random() < 0.9 else r.randrange(4))))
        if m < 0.91:
            return "(try %s %s)" % (sub(), r.choice(["(fn [x] x)", "0", self.leaf()]))
        if m < 0.94:
            return "(do (set w %s) %s)" % (sub(), r.choice(["(%s w %s)" % (r.choice(self.bi), sub()), "(insert 'w %s)" % sub(), "(upsert 'w 1 %s)" % sub(), "(update {from: 'w %s: %s})" % (r.choice("kvz"), sub()), "(alter 'w %s %s)" % (r.choice(["+", "set", "concat", "remove", "at"]), sub()),
                                                   "(alter 'w %s %s %s)" % (r.choice(["+", "set", "concat", "*"]), sub(), sub()), "w"]))
        if m < 0.96:
            return "(do (let y %s) (%s y))" % (sub(), r.choice(self.un))
        if m < 0.98:
            return "(if %s %s %s)" % (sub(), sub(), sub())
        return self.join(depth)

    def join(self, depth):
        r = self.r
        f = r.choice(["left-join", "inner-join", "asof-join"])
        tt = lambda: r.choice(["t", "t2", self.leaf(["tab"]), self.expr(0)])
        if r.random() < 0.8:
            return "(%s %s %s %s)" % (f, r.choice(["[k]", "[k v]", "[v]", "[nosuch]", self.leaf()]), tt(), tt())
        return "(%s [k v] %s %s %s {z: (%s w)})" % (r.choice(["window-join", "window-join1"]), r.choice(["(list [0 1 2 3] [5 6 7 8])", self.expr(0)]), tt(), tt(), r.choice(["sum", "max", "count", "first"]))
