"""C04: a lambda call against direct evaluation of its body, and against an interpreter written in Python."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, crash_key, main
from drv import Rfh, Died
from anyg import *
from anyrun import Fleet

PRE = [Rfh.E(x) for x in PRELUDE]
ZERO = [0, 0, 0, 0, 0]


# ---------------------------------------------------------------- a small interpreter: dynamic scope, copying values
class Err(Exception):
    pass


class Budget(Exception):
    pass


class Lam:
    def __init__(self, params, body):
        self.params, self.body = params, body


class Frame:
    def __init__(self, lam, args):
        self.lam, self.args, self.lets = lam, args, {}


class Interp:
    def __init__(self, globs):
        self.g, self.fr, self.steps = globs, [], 0

    def look(self, n):
        for f in reversed(self.fr):
            if n in f.args:
                return f.args[n]
            if n in f.lets:
                return f.lets[n]
        if n in self.g:
            return self.g[n]
        raise Err("name")

    def call(self, f, args):
        if not isinstance(f, Lam):
            raise Err("type")
        if len(args) != len(f.params):
            raise Err("length")
        if len(self.fr) > 150:
            raise Budget()
        self.fr.append(Frame(f, dict(zip(f.params, args))))
        depth = len(self.fr)
        try:
            v = None
            for e in f.body:
                v = self.ev(e)
            return v
        finally:
            del self.fr[depth - 1:]

    def ev(self, t):
        self.steps += 1
        if self.steps > 4000:
            raise Budget()
        k = t[0]
        if k == "int":
            return t[1]
        if k == "vec":
            return list(t[1])
        if k == "bool":
            return t[1]
        if k == "var":
            return self.look(t[1])
        if k == "op":
            a, b = self.ev(t[2]), self.ev(t[3])
            v = a + b if t[1] == "+" else a - b if t[1] == "-" else a * b if t[1] == "*" else a % b
            if abs(v) > 1 << 50:
                raise Budget()
            return v
        if k == "cmp":
            a, b = self.ev(t[2]), self.ev(t[3])
            return {"<": a < b, ">": a > b, "==": a == b, "!=": a != b, "<=": a <= b, ">=": a >= b}[t[1]]
        if k == "if":
            if self.ev(t[1]):
                return self.ev(t[2])
            return self.ev(t[3]) if len(t) > 3 else None
        if k == "do":
            v = None
            for e in t[1]:
                v = self.ev(e)
            return v
        if k == "let":
            v = self.ev(t[2])
            if not self.fr:
                self.g[t[1]] = v
            elif t[1] in self.fr[-1].args:
                self.fr[-1].args[t[1]] = v
            else:
                self.fr[-1].lets[t[1]] = v
            return v
        if k == "set":
            v = self.ev(t[2])
            self.g[t[1]] = v
            return v
        if k == "lam":
            return Lam(t[1], t[2])
        if k == "self":
            args = [self.ev(x) for x in t[1]]
            return self.call(self.fr[-1].lam, args)
        if k == "call":
            f = self.ev(t[1])           # the function first, then the arguments
            return self.call(f, [self.ev(x) for x in t[2]])
        if k == "raise":
            raise Err(t[1])
        if k == "try":
            n = len(self.fr)
            try:
                return self.ev(t[1])
            except Err as e:
                del self.fr[n:]
                if t[2][0] == "lam":
                    return self.call(self.ev(t[2]), [str(e)])
                return self.ev(t[2])
        if k == "map":
            f = self.ev(t[1])
            return [self.call(f, [x]) for x in self.ev(t[2])]
        if k == "fold":
            f, a = self.ev(t[1]), self.ev(t[2])
            for x in self.ev(t[3]):
                a = self.call(f, [a, x])
            return a
        if k == "mk":
            return [self.ev(x) for x in t[1]]
        if k == "at":
            v, i = self.ev(t[1]), t[2]
            return v[i]
        if k == "sum":
            return sum(self.ev(t[1]))
        if k == "apply":
            f = self.ev(t[1])
            return self.call(f, [self.ev(x) for x in t[2]])
        raise AssertionError(k)


def show(t):
    k = t[0]
    if k == "int":
        return str(t[1])
    if k == "vec":
        return "[" + " ".join(map(str, t[1])) + "]"
    if k == "bool":
        return "true" if t[1] else "false"
    if k == "var":
        return t[1]
    if k in ("op", "cmp"):
        return "(%s %s %s)" % (t[1], show(t[2]), show(t[3]))
    if k == "if":
        return "(if %s)" % " ".join(map(show, t[1:]))
    if k == "do":
        return "(do %s)" % " ".join(map(show, t[1]))
    if k in ("let", "set"):
        return "(%s %s %s)" % (k, t[1], show(t[2]))
    if k == "lam":
        return "(fn [%s] %s)" % (" ".join(t[1]), " ".join(map(show, t[2])))
    if k == "self":
        return "(self%s)" % "".join(" " + show(x) for x in t[1])
    if k == "call":
        return "(%s%s)" % (show(t[1]), "".join(" " + show(x) for x in t[2]))
    if k == "raise":
        return '(raise "%s")' % t[1]
    if k == "try":
        return "(try %s %s)" % (show(t[1]), show(t[2]))
    if k == "map":
        return "(map %s %s)" % (show(t[1]), show(t[2]))
    if k == "fold":
        return "(fold %s %s %s)" % (show(t[1]), show(t[2]), show(t[3]))
    if k == "mk":
        return "(map (fn [w] w) (list %s))" % " ".join(map(show, t[1]))
    if k == "at":
        return "(at %s %d)" % (show(t[1]), t[2])
    if k == "sum":
        return "(sum %s)" % show(t[1])
    if k == "apply":
        return "(apply %s %s)" % (show(t[1]), " ".join(map(show, t[2])))
    raise AssertionError(k)


INTS = ["a", "b", "c", "m"]          # every name has one kind wherever it is bound, since scope is dynamic
VECS = ["u", "v"]
FNS1 = ["p", "q"]


class Gen:
    def __init__(self, r, wild=False):
        self.r, self.wild = r, wild
        self.fns = []        # named functions so far: (name, number of parameters)
        self.lamdepth = 0

    def int(self, d):
        r = self.r
        if d <= 0:
            return r.choice([("int", r.randint(-9, 20)), ("var", r.choice(INTS)), ("var", r.choice(INTS))])
        k = r.random()
        if k < 0.22:
            return ("op", r.choice("+-*"), self.int(d - 1), self.int(d - 1))
        if k < 0.25:
            return ("op", "%", self.int(d - 1), ("int", r.randint(2, 9)))
        if k < 0.40:
            return ("if", self.bool(d - 1), self.int(d - 1), self.int(d - 1))
        if k < 0.52:
            return ("do", [self.stmt(d - 1) for _ in range(r.randint(0, 3))] + [self.int(d - 1)])
        if k < 0.62:
            ps = self.params()
            wrong = [k for k in range(5) if k != len(ps)]
            return ("call", self.lam(ps, d - 1), [self.arg(p, d - 1) for p in ps] if not self.wild or r.random() < 0.9 else [self.int(0)] * r.choice(wrong))
        if k < 0.72 and self.fns:
            f, ps = r.choice(self.fns)
            args = [self.arg(p, d - 1) for p in ps]
            if self.wild and r.random() < 0.1:
                args = [("var", "a")] * r.choice([k for k in range(6) if k != len(ps)])
            return ("call", ("var", f), args)
        if k < 0.76:
            return ("call", ("var", r.choice(FNS1)), [self.int(d - 1)])
        if k < 0.82:
            # counts its first parameter down
            n = r.randint(0, 10)
            ps = ["m"] + r.sample(["a", "b"], r.randint(0, 2))
            nxt = [("op", "-", ("var", "m"), ("int", 1))] + [self.int(0) for _ in ps[1:]]
            body = ("if", ("cmp", "<=", ("var", "m"), ("int", 0)), self.int(min(1, d - 1)), ("op", r.choice("+-"), self.int(0), ("self", nxt)))
            return ("call", ("lam", ps, [body]), [("int", n)] + [self.int(0) for _ in ps[1:]])
        if k < 0.87:
            return ("sum", self.vec(d - 1))
        if k < 0.91:
            return ("fold", self.lam(r.sample(INTS, 2), d - 1), self.int(d - 1), self.vec(d - 1))
        if k < 0.95:
            e = self.int(d - 1) if r.random() < 0.5 else ("do", [self.stmt(d - 1), ("if", self.bool(d - 1), ("raise", "err"), self.int(0))])
            return ("try", e, self.int(0) if r.random() < 0.4 else self.lam(["e"], d - 1))
        if k < 0.97:
            ps = r.sample(INTS, 2)
            return ("apply", self.lam(ps, d - 1), [self.int(0), self.int(0)])
        return ("let", r.choice(INTS), self.int(d - 1))

    def bool(self, d):
        r = self.r
        if r.random() < 0.08:
            return ("bool", r.random() < 0.5)
        if r.random() < 0.08:
            return self.int(max(0, d - 1))
        return ("cmp", r.choice(["<", ">", "==", "!=", "<=", ">="]), self.int(d - 1), self.int(d - 1))

    def vec(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return ("vec", [r.randint(-5, 9) for _ in range(r.randint(1, 4))]) if r.random() < 0.6 else ("var", r.choice(VECS))
        if k < 0.6:
            return ("map", self.lam([r.choice(INTS)], d - 1) if r.random() < 0.7 else ("var", r.choice(FNS1)), self.vec(d - 1))
        if k < 0.8:
            return ("mk", [self.int(d - 1) for _ in range(r.randint(1, 3))])
        if k < 0.9:
            return ("if", self.bool(d - 1), self.vec(d - 1), self.vec(d - 1))
        return ("do", [self.stmt(d - 1), self.vec(d - 1)])

    def params(self):
        r = self.r
        return r.sample(INTS + VECS + FNS1, r.choice([0, 1, 1, 2, 2, 3, 4]))

    def arg(self, p, d):
        return self.int(d) if p in INTS else self.vec(d) if p in VECS else self.fn1(d)

    def fn1(self, d):
        r = self.r
        if r.random() < 0.4:
            return ("var", r.choice(FNS1))
        return self.lam([r.choice(INTS)], min(d, 2))

    def lam(self, ps, d):
        r = self.r
        return ("lam", list(ps), [self.stmt(d - 1) for _ in range(r.choice([0, 0, 0, 1, 2]))] + [self.int(d)])

    def stmt(self, d):
        r = self.r
        k = r.random()
        if k < 0.45:
            return ("let", r.choice(INTS), self.int(d))
        if k < 0.6:
            return ("set", r.choice(["ga", "gb"] + INTS), self.int(d))
        if k < 0.7:
            return ("let", r.choice(VECS), self.vec(d))
        if k < 0.78:
            return ("let", r.choice(FNS1), self.fn1(d))
        if k < 0.9:
            return ("if", self.bool(d), ("let", r.choice(INTS), self.int(d)))
        return self.int(d)


def value(v):
    """-> what the harness reports for an interpreter value"""
    if v is None:
        return ["null"]
    if isinstance(v, bool):
        return ["b8", 1 if v else 0]
    if isinstance(v, int):
        return ["i64", v]
    return ["I64", v]


def main_c04():
    chk = Check("C04")
    chk.rule = "distinct (body, arguments); the lambda's value compared with direct evaluation or with a Python interpreter of the language core"
    obs = {"differential_same_value": 0, "differential_both_fail": 0, "values": 0, "errors": 0, "deep_ok": 0, "deep_limit": 0, "arity_errors": 0, "max_depth_ok": 0}

    def died(cls, variant, e, d):
        chk.violation("%s:%s" % (cls, crash_key(d.text, d.how)), {"class": cls, "variant": variant, "expr": e, "how": d.how, "report": d.text[-1500:]})

    # ---- bodies over the whole language: direct evaluation against calls
    def differential(cls, variant, cores, n):
        r = chk.sub(cls)
        g = Any(r, det=True, avoid={"set", "let", "return"})
        base = {k: [x for x in p if x not in ("set", "self", "'sym") and "(set " not in x and "return" not in x and "self" not in x] for k, p in g.pools.items()}
        cand = []
        while len(cand) < n:
            g.pools = base
            args = [g.leaf(["atom", "vec", "list", "dict", "tab", "enum", "name"]) for _ in range(2)]
            g.pools = dict(base, name=base["name"] + ["qa", "qb"] * 6)
            b = g.expr(r.choice([1, 2, 2, 3, 4]))
            if any(w in b for w in ("'t", "(set ", "(let ", "insert", "upsert", "alter", "self", "return", "'v", "env", "timeit")):
                continue
            cand.append((args, b))
        fl = Fleet(variant, cores, PRE, 6, 60)
        try:
            rs = fl.map([x for args, b in cand for x in (Rfh.X("(do (set qa %s) (set qb %s) 0)" % tuple(args)), Rfh.X(b))], 500)
            # most random bodies fail: keep few of those
            keep = [c for c, (x, _) in zip(cand, rs[1::2]) if x is not None and (x["t"] != 127 or r.random() < 0.06)]
        except BaseException:
            fl.close()
            raise
        frames, m = [], []
        for args, b in keep:
            forms = ["((fn [qa qb] %s) %s %s)" % (b, args[0], args[1]), "((fn [] %s))" % b]
            k = r.randint(0, 5)
            if k == 0:
                forms.append("((fn [qz] ((fn [qa qb] %s) qa qb)) 1)" % b)
            elif k == 1:
                forms.append("((fn [qn qa qb] (if (> qn 0) (self (- qn 1) qa qb) %s)) %d %s %s)" % (b, r.choice([1, 5, 40]), args[0], args[1]))
            elif k == 2:
                forms.append("(do (set qf (fn [qb qa] (do 1 %s))) (qf qb qa))" % b)
            elif k == 3:
                forms.append("((fn [qc] (do (let qa qc) (let qb %s) (if true %s 0))) %s)" % (args[1], b, args[0]))
            elif k == 4:
                forms.append("((fn [q1 qb] (do (let q2 q1) ((fn [qa] 1 2 %s) q2))) qa qb)" % b)
            else:
                forms.append("(apply (fn [qa qb q3 q4] (if q3 %s 5)) qa qb true 1)" % b)
            m.append((args, b, forms))
            frames += [Rfh.X("(do (set qa %s) (set qb %s) 0)" % tuple(args)), Rfh.X(b)] + [Rfh.X(f) for f in forms]
        try:
            rs = fl.map(frames, 500)
        finally:
            fl.close()
        for i, (args, b, forms) in enumerate(m):
            q = rs[5 * i:5 * i + 5]
            if any(d is not None for _, d in q):
                chk.inconclusive.append("died: %s" % b)          # memory safety is C01's
                continue
            q = [a for a, _ in q]
            if q[0]["t"] == 127:
                continue
            for f, a in zip(forms, q[2:]):
                chk.case(cls, f)
                same = q[1]["h"] == a["h"] if q[1]["t"] != 127 else a["t"] == 127
                obs["differential_both_fail" if q[1]["t"] == 127 else "differential_same_value"] += 1
                if not same and "apply" not in f:
                    chk.violation("differs:%s" % cls, {"class": cls, "variant": variant, "cores": cores, "arguments": args, "body": b, "call": f, "direct": q[1], "called": a})
                elif not same and not (q[1]["t"] == 127 and "e" in a):
                    chk.violation("differs:%s" % cls, {"class": cls, "variant": variant, "cores": cores, "arguments": args, "body": b, "call": f, "direct": q[1], "called": a})
                if a["st"] != ZERO:
                    chk.violation("state:%s" % cls, {"expr": f, "state": a["st"]})

    differential("whole-language", "rel", 1, chk.scale(14000, 250000))
    differential("whole-language-asan", "asan", 1, chk.scale(5000, 80000))
    differential("whole-language-cores", "rel", 4, chk.scale(3000, 60000))

    # ---- programs of the core against the interpreter
    def core(cls, variant, n, wild, depth):
        r = chk.sub(cls)
        cases = []
        while len(cases) < n:
            g = Gen(r, wild)
            globs = {"a": 3, "b": -2, "c": 7, "m": 4, "ga": 1, "gb": 2, "u": [1, 2, 3], "v": [5]}
            idl = ("lam", ["a"], [("op", "+", ("var", "a"), ("int", 1))])
            prog = [("set", "p", idl), ("set", "q", ("lam", ["b"], [("op", "*", ("var", "b"), ("int", 2))]))]
            for i in range(r.randint(0, 3)):
                ps = g.params()
                prog.append(("set", "f%d" % i, g.lam(ps, r.randint(1, depth))))
                g.fns.append(("f%d" % i, ps))
            prog += [g.stmt(depth) if r.random() < 0.3 else g.int(r.randint(1, depth)) for _ in range(r.randint(1, 4))]
            it = Interp(dict(globs))
            want = []
            ok = True
            for t in prog:
                it.steps = 0
                it.fr = []
                try:
                    v = it.ev(t)
                    want.append(None if isinstance(v, Lam) else value(v))
                except Err as e:
                    want.append("error")
                except (Budget, RecursionError):
                    ok = False
                    break
            if not ok:
                continue
            tail = ["a", "b", "c", "m", "ga", "gb", "u", "v"]
            src = [show(t) for t in prog] + tail
            if sum(map(len, src)) > 6000:
                continue
            want += [value(it.g[x]) for x in tail]
            init = ["(set %s %s)" % (k, v if isinstance(v, int) else show(("vec", v))) for k, v in globs.items()]
            cases.append((init, src, want))
        frames = []
        for init, src, want in cases:
            frames += [Rfh.E("(do %s)" % " ".join(init))] + [Rfh.E(s) for s in src]
        fl = Fleet(variant, 1, [], 6, 60)
        try:
            # a case must not be split between processes
            from concurrent.futures import ThreadPoolExecutor
            groups = [cases[i:i + 40] for i in range(0, len(cases), 40)]

            def one(cs):
                fs = []
                for init, src, want in cs:
                    fs += [Rfh.E("(do %s)" % " ".join(init))] + [Rfh.E(s) for s in src]
                return fl.batch(fs)
            with ThreadPoolExecutor(6) as ex:
                outs = list(ex.map(one, groups))
        finally:
            fl.close()
        for cs, out in zip(groups, outs):
            k = 0
            for init, src, want in cs:
                rs = out[k + 1:k + 1 + len(src)]
                k += 1 + len(src)
                chk.case(cls, repr(src))
                bad = [d for _, d in rs if d is not None]
                if bad:
                    died(cls, variant, src, bad[0])
                    continue
                for j, (s, w, (a, _)) in enumerate(zip(src, want, rs)):
                    if w is None:
                        continue
                    got = a["v"]
                    obs["errors" if w == "error" else "values"] += 1
                    if (got[0] != "err") if w == "error" else got != w:
                        chk.violation("core:%s" % cls, {"class": cls, "variant": variant, "program": src[:j + 1], "globals": init, "expr": s, "got": got, "want": w})
                        break
        chk.sample("%s: %s" % (cls, " ; ".join(cases[0][1])[:300]))

    core("core", "rel", chk.scale(4000, 80000), False, 4)
    core("core-wild", "rel", chk.scale(2500, 50000), True, 3)
    core("core-asan", "asan", chk.scale(1000, 20000), True, 4)

    # ---- depth of recursion
    SHAPES = {
        "plus": "((fn [n] (if (<= n 0) 0 (+ 1 (self (- n 1))))) %d)",
        "plus-left": "((fn [n] (if (<= n 0) 0 (+ (self (- n 1)) 1))) %d)",
        "acc": "((fn [n acc] (if (<= n 0) acc (self (- n 1) (+ acc 1)))) %d 0)",
        "named": "(do (set rf (fn [n] (if (<= n 0) 0 (+ 1 (rf (- n 1)))))) (rf %d))",
        "mutual": "(do (set ra (fn [n] (if (<= n 0) 0 (+ 1 (rb (- n 1)))))) (set rb (fn [n] (if (<= n 0) 0 (+ 1 (ra (- n 1)))))) (ra %d))",
        "let": "((fn [n] (do (let k (- n 1)) (let z 1) (if (<= n 0) 0 (+ z (self k))))) %d)",
        "five": "((fn [n a b c d] (if (<= n 0) (+ a (+ b (+ c d))) (+ 1 (self (- n 1) d a b c)))) %d 0 0 0 0)",
        "nested": "((fn [n] (if (<= n 0) 0 (+ 1 ((fn [k] k) (self (- n 1)))))) %d)",
        "map": "(do (set rm (fn [n] (if (<= n 0) 0 (+ 1 (at (map rm (list (- n 1))) 0))))) (rm %d))",
        "fold": "(do (set rq (fn [z n] (if (<= n 0) 0 (+ 1 (fold rq 0 (list (- n 1))))))) (rq 0 %d))",
        "apply": "(do (set rp (fn [n] (if (<= n 0) 0 (+ 1 (apply rp (- n 1)))))) (rp %d))",
        "inlet": "((fn [n] (do (let k (if (<= n 0) 0 (+ 1 (self (- n 1))))) k)) %d)",
        "try": "(do (set rt (fn [n] (if (<= n 0) 0 (+ 1 (try (rt (- n 1)) (fn [e] (raise e))))))) (rt %d))",
        "eval": "(do (set re (fn [n] (if (<= n 0) 0 (+ 1 (eval (list re (- n 1))))))) (re %d))",
        "select": "(do (set rs (fn [n] (if (<= n 0) 0 (+ 1 (at (at (select {z: (rs (- n 1)) from: (table [x] (list [1]))}) 'z) 0))))) (rs %d))",
        "list": "((fn [n] (if (<= n 0) 0 (+ 1 (at (list 0 0 0 (self (- n 1)) 0 0) 3)))) %d)",
    }
    # the shallowest depth every shape must reach (the stacks have 1024 entries)
    NEED = {"list": 100, "five": 100, "select": 20}
    for variant, cores in (("rel", 1), ("asan", 1)) + ((("rel", 4),) if chk.thorough else ()):
        for name, f in SHAPES.items():
            ds = [0, 1, 2, 3, 7, 20, 50, 100, 150, 200, 250, 300, 400, 500, 511, 512, 513, 700, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1500, 3000, 20000, 1000000]
            ds += [chk.sub(name).randint(1, 1100) for _ in range(chk.scale(4, 60))]
            try:
                with Rfh(variant, cores, timeout=120) as p:
                    rs = p.run([x for d in ds for x in (Rfh.X(f % d), Rfh.E(f % d), Rfh.E("((fn [x y] (let z (* x y)) (+ z 1)) 6 7)"))])
            except Died as d:
                died("depth-" + name, variant, f, d)
                continue
            for i, n in enumerate(ds):
                x, a, after = rs[3 * i:3 * i + 3]
                chk.case("depth", (variant, name, n))
                v = a["v"]
                if v[0] == "err":
                    obs["deep_limit"] += 1
                    if v[1] != "limit" and name != "try" or n <= NEED.get(name, 150):
                        chk.violation("depth:%s" % name, {"variant": variant, "expr": f % n, "got": v, "why": "not a limit error" if v[1] != "limit" else "too shallow for an error"})
                else:
                    obs["deep_ok"] += 1
                    obs["max_depth_ok"] = max(obs["max_depth_ok"], n)
                    if v != ["i64", max(n, 0)] or n >= 20000:
                        chk.violation("depth:%s" % name, {"variant": variant, "expr": f % n, "got": v})
                if x["st"] != ZERO or after["v"] != ["i64", 43]:
                    chk.violation("after-depth:%s" % name, {"variant": variant, "expr": f % n, "state": x["st"], "after": after})

    # ---- wrong numbers of arguments
    fr, meta = [], []
    for k in range(0, 6):
        ps = " ".join("abcdef"[:k])
        for j in range(0, 8):
            args = "".join(" %d" % i for i in range(1, j + 1))
            body = "(list 9 %s)" % ps
            fn = "(fn [%s] %s)" % (ps, body)
            for e in ["(%s%s)" % (fn, args), "(do (set wf %s) (wf%s))" % (fn, args), "((fn [z] (%s%s)) 1)" % (fn, args), "((fn [g] (g%s)) %s)" % (args, fn), "(do (set wf %s) ((fn [y] (wf%s)) 1))" % (fn, args),
                      "((fn [y] (if (> y 0) (wf%s) 1)) 1)" % args, "(do (let wg %s) (map (fn [y] (wg%s)) [1]))" % (fn, args), "(fold (fn [y w] (wf%s)) 0 [1])" % args]:
                fr += [Rfh.E("(set wf %s)" % fn), Rfh.E(e)]
                meta.append((k, j, e))
    for i in range(0, 5):               # self with another number of arguments
        for j in range(0, 6):
            e = "((fn [%s] (if (== 0 0) (if (> cnt 0) (do (set cnt (- cnt 1)) (self%s)) 5) 0))%s)" % (" ".join("abcdef"[:i]), " 1" * j, " 2" * i)
            fr += [Rfh.E("(set cnt 1)"), Rfh.E(e)]
            meta.append(("self", i, j, e))
    for b, good in (("neg", 1), ("+", 2), ("sum", 1), ("take", 2), ("at", 2), ("til", 1), ("count", 1), ("in", 2)):
        for j in range(0, 5):
            for e in ["(%s%s)" % (b, " 1" * j), "((fn [x] (%s%s)) 1)" % (b, " x" * j), "((fn [x f] (f%s)) 1 %s)" % (" x" * j, b)]:
                fr += [Rfh.E("0"), Rfh.E(e)]
                meta.append(("builtin", good, j, e))
    # a mistake in a branch not taken, or under try, is no mistake of the call
    for e, w in [("((fn [x] (if (> x 5) (neg x x) x)) 1)", 1), ("((fn [x] (if (> x 5) (+ x) x)) 1)", 1), ("((fn [x] (if (> x 5) (self) x)) 1)", 1), ("((fn [x] (if (> x 5) ((fn [y] y)) x)) 1)", 1), ("((fn [x] (try (neg x x) 7)) 1)", 7),
                 ("((fn [x] (try (if x) 7)) 1)", 7), ("((fn [x] (try (if x x x x) 7)) 1)", 7), ("((fn [x] (if (< x 5) x (if))) 1)", 1), ("((fn [x] (try (self 1 2) 3)) 1)", 3)]:
        fr += [Rfh.E("0"), Rfh.E(e)]
        meta.append(("fine", w, e))
    for variant in ("rel", "asan"):
        try:
            with Rfh(variant, 1, timeout=120) as p:
                rs = p.run(fr)[1::2]
        except Died as d:
            died("arity", variant, "?", d)
            continue
        for m, a in zip(meta, rs):
            v = a["v"]
            chk.case("arity", m)
            if m[0] == "self":
                wrong = m[1] != m[2]
            elif m[0] == "builtin":
                wrong = m[1] != m[2]
                if not wrong and v[0] == "err" and v[1] in ("type", "value"):
                    continue
            elif m[0] == "fine":
                if v != ["i64", m[1]]:
                    chk.violation("arity:fine", {"variant": variant, "expr": m[2], "got": v})
                continue
            else:
                wrong = m[0] != m[1]
            obs["arity_errors"] += wrong
            if wrong != (v[0] == "err"):
                chk.violation("arity:%s" % ("missing" if wrong else "spurious"), {"variant": variant, "expr": m[-1], "got": v})

    chk.extra["observed"] = obs
    return chk.finish(min_cases=5000)


if __name__ == "__main__":
    main(main_c04)
