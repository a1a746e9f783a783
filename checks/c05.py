"""C05: histories of aliasing and modifying operations against the same histories with every value copied on every read;
every name before and after operations that must not change it."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, crash_key, main
from drv import Rfh, Died
from anyg import *
from anyrun import Fleet

VEC, FLT, SYMS, STR, LST, DCT, TAB, ATOM = "v f y s l d t a".split()
NM = {VEC: ["va", "vb", "vc"], FLT: ["fa", "fb"], SYMS: ["ya", "yb"], STR: ["sa", "sb"], LST: ["la", "lb", "lc"], DCT: ["da", "db"],
      TAB: ["ta", "tb", "tc"], ATOM: ["na"]}
ALL = [n for k in NM for n in NM[k]]
KINDS = list(NM)
COPY = "(set cp (fn [x] (de (ser x))))"
FUNS = ["(set fv (fn [] [5 6 7]))", "(set fl (fn [] (list 1 [2 3] 'q)))", "(set fd (fn [] {a: 1 b: [1 2]}))", "(set ft (fn [] (table [k v] (list [a b] [7 8]))))"]


def start(r, n):
    """values every history begins with; n rows"""
    ms = " ".join(r.choice(["a", "b", "c", "dd"]) for _ in range(5))
    big = n > 10
    vec = "(til %d)" % n if big else "[%s]" % " ".join(str(r.randrange(-9, 9)) for _ in range(n))
    return ["(set va %s)" % vec, "(set vb %s)" % r.choice(["va", "[1 2 3 4 5]"]), "(set vc [9 0Nl 9])",
            "(set fa [1.5 2.5 0Nf])", "(set fb %s)" % r.choice(["fa", "[3.0 1.0]"]),
            "(set ya [%s])" % ms, "(set yb %s)" % r.choice(["ya", "[a b c]"]),
            "(set sa \"hello\")", "(set sb %s)" % r.choice(["sa", "\"wrld\""]),
            "(set la (list va fa 'a \"str\"))", "(set lb %s)" % r.choice(["la", "(list la [1 2] 3)"]), "(set lc (list 1 2 3))",
            "(set da (dict [a b c] (list va sa 3)))", "(set db %s)" % r.choice(["da", "(dict [a b] [1 2])", "{a: 1 b: da}"]),
            "(set ta (table [k v w] (list %s)))" % ("(list (take ya %d) va (take fa %d))" % (n, n))[6:-1],
            "(set tb %s)" % r.choice(["ta", "(table [k v] (list (take yb 3) vc))"]), "(set tc (table [k v x] (list [a b] [1 2] (list \"s\" [1]))))", "(set na 7)"]

TPL = {
    VEC: ["[1 2 3]", "(at @l 0)", "(first @l)", "(at @t 'v)", "(at @d 'a)", "(concat @v @v)", "(concat @v @a)", "(take @v 2)", "(take @v 7)", "(reverse @v)",
          "(asc @v)", "(desc @v)", "(iasc @v)", "(rank @v)", "(distinct @v)", "(neg @v)", "(as 'I64 @v)", "(as 'i64 @v)", "(filter @v (> @v 0))", "(fv)", "(+ @v @a)",
          "(map (fn [x] (do @! x)) @v)", "(at @v [0 1])", "(alter @v + 0 @a)", "(alter @v set 1 @#)", "(alter @v set [0 1] @#)", "(alter @v + @#)", "(alter @v concat @#)",
          "(except @v @v)", "(union @v @v)", "(sect @v @v)", "(raze (list @v @v))", "(enlist @a)", "(fold (fn [x y] (do @! (+ x y))) @v @v)", "(at (key (dict @v @l)) [0 1])",
          "(key (dict @v @l))", "(value (dict @y @v))", "(last (list @* @v))", "(scan + @v)", "(and @v @v)"],
    FLT: ["[0.5 1.0]", "(at @l 1)", "(at @t 'w)", "(as 'F64 @v)", "(as 'F64 @f)", "(concat @f @f)", "(asc @f)", "(desc @f)", "(reverse @f)", "(neg @f)", "(distinct @f)", "(+ @f 1.0)",
          "(alter @f set 0 @a)", "(alter @f + 1.5)", "(take @f 4)"],
    SYMS: ["[a b]", "(key @d)", "(key @t)", "(at @t 'k)", "(concat @y @y)", "(asc @y)", "(desc @y)", "(reverse @y)", "(distinct @y)", "(as 'SYMBOL @y)", "(alter @y set 0 'z)",
           "(concat @y 'q)", "(at @y [0 1])"],
    STR: ["\"lit\"", "(at @l 3)", "(at @d 'b)", "(concat @s @s)", "(reverse @s)", "(alter @s set 0 'Z')", "(as 'C8 @s)", "(format \"%\" @s)", "(take @s 3)"],
    LST: ["(list @* @*)", "(list @* @! @*)", "(enlist @*)", "(concat @l @*)", "(concat @l @l)", "(value @d)", "(value @t)", "(reverse @l)", "(take @l 3)", "(as 'LIST @l)", "(as 'LIST @v)",
          "(as 'list @l)", "(fl)", "(map (fn [x] (do @! x)) @l)", "(at @l [0 1])", "(alter @l set 0 @*)", "(alter @l concat @*)", "(map (fn [x] (list x x)) @v)", "(map (fn [x] (list x x)) @l)",
          "(alter @l concat 0 @a)", "(diverse @v)", "(+ @l @a)", "(+ @l @l)", "(round @l)", "(map round @l)", "(map + @l @a)", "(map + @l @l)", "(map-left + @l @a)", "(map-right - @a @l)", "(map-left + @f @f)", "(scan + @a @l)", "(fold - @l @a)", "(scan-left - @l @f)", "(* 2.0 @l)", "(map neg @l)", "(pmap floor @l)", "(map list @l @l)", "(map-left list @* @l)", "(map-right list @l @*)", "(scan (fn [x y] (do @! (list x y))) @l)", "(at @l 0)",
          "(at @d 'c)", "(first @l)", "(last @l)", "(distinct @l)", "(at @t [0 1])"],
    DCT: ["(dict [a b] (list @* @*))", "(dict @y @v)", "(dict @y @l)", "(dict @y @f)", "{a: 1 b: [1 2]}", "(fd)", "(at @t 0)", "(group @v)", "(group @y)", "(alter @d set 'a @*)", "(concat @d @d)",
          "(alter @d concat 'a @a)", "(at @l 0)", "(at @d 'a)", "(alter @d + 'b @a)", "(alter @d set 'nw @a)", "(take @d 1)", "(select {from: @t where: (> v 1)})"],
    TAB: ["(table [k v] (list @y @v))", "(ft)", "(select {from: @t})", "(select {v: v k: k from: @t})", "(select {v: v k: (reverse k) from: @t where: (> v 0)})", "(table (key @t) (value @t))",
          "(select {v: (first v) n: (count v) from: @t by: k})", "(update {v: (+ v 1) from: @t})", "(update {v: 9 from: @t where: (> v 1)})", "(update {v: (sum v) from: @t by: k})",
          "(update {zz: k from: @t})", "(take @t 2)", "(xasc @t 'v)", "(xdesc @t 'v)", "(xasc @t [k v])", "(concat @t @t)", "(insert @t (list 'n 5))", "(insert @t (list [n m] @v))",
          "(upsert @t 1 (list 'a 55))", "(upsert @t 1 (list [a zz] [1 2]))", "(alter @t set 'v @v)", "(alter @t + 'v @a)", "(select {v: (do @! v) k: k from: @t})",
          "(select {v: v k: k from: @t where: (do @! (> v 0))})", "(select {v: (do @! (sum v)) from: @t by: k})", "(left-join [k] @t @t)", "(inner-join [k] @t @t)", "(distinct @t)", "(reverse @t)"]}

EFF = {
    VEC: ["(alter 'N + I @a)", "(alter 'N - I @a)", "(alter 'N set I @a)", "(alter 'N set I @#)", "(alter 'N + @a)", "(alter 'N concat @a)", "(alter 'N concat @v)", "(alter 'N remove I)",
          "(alter 'N L I @a)", "(alter 'N L @a)", "(alter 'N set 0 @*)", "(alter 'N L I @v)"],
    FLT: ["(alter 'N + I 2.5)", "(alter 'N set I 0Nf)", "(alter 'N concat 1.5)", "(alter 'N concat @f)", "(alter 'N L I 1.0)", "(alter 'N * 2.0)", "(alter 'N remove 0)"],
    SYMS: ["(alter 'N set I 'zz)", "(alter 'N concat 'nw)", "(alter 'N concat @y)", "(alter 'N remove I)", "(alter 'N L I 'q)", "(alter 'N set [0 1] @y)"],
    STR: ["(alter 'N set 0 'Q')", "(alter 'N concat 'w')", "(alter 'N concat @s)", "(alter 'N remove 0)"],
    LST: ["(alter 'N concat @*)", "(alter 'N concat I @a)", "(alter 'N concat I @*)", "(alter 'N remove I)", "(alter 'N L I @*)", "(alter 'N + I @a)", "(alter 'N set I @*)", "(alter 'N set [0 1] @l)",
          "(alter 'N set I @l)", "(alter 'N L @*)", "(modify 'N set (list 0 1) @a)", "(modify 'N + (list 0 0) 1)", "(modify 'N concat (list 0) @a)", "(modify 'N set (list I 'a) @*)",
          "(modify 'N L (list 0 1) @a)"],
    DCT: ["(alter 'N concat K @a)", "(alter 'N concat K @*)", "(alter 'N remove 'a)", "(alter 'N L K @*)", "(alter 'N + K @a)", "(alter 'N set K @*)", "(alter 'N set [a b] @l)",
          "(modify 'N set (list 'a 0) @a)", "(modify 'N concat (list 'a) @a)", "(modify 'N + (list 'b 'a) 1)", "(modify 'N L (list 'a 0) @a)"],
    TAB: ["(insert 'N (list 'a @#))", "(insert 'N (list 'zz @#))", "(insert 'N (list [a q] @v))", "(upsert 'N 1 (list 'a @#))", "(upsert 'N 1 (list 'zz @#))", "(upsert 'N 1 (list [a z] [@# @#]))",
          "(update {v: (+ v 1) from: 'N})", "(update {v: @# from: 'N where: (> v @#)})", "(update {v: (sum v) from: 'N by: k})", "(update {zz: @v from: 'N})", "(update {zz: v from: 'N})",
          "(alter 'N set 'v @v)", "(alter 'N + 'v @a)", "(insert 'N @t)", "(update {v: (do @! v) from: 'N})", "(update {v: (do @! 5) from: 'N where: (> v 1)})", "(alter 'N set [v k] (list @v @y))",
          "(update {v: (reverse v) from: 'N where: (> v 1)})", "(update {k: 'nw from: 'N where: (do @! (> v 1))})", "(insert 'N (do @! (list 'q 1)))", "(upsert 'N 1 (do @! (list 'a 1)))",
          "(upsert 'N 1 @t)", "(alter 'N L 'v @v)"],
    ATOM: ["(set na @a)", "(alter 'N + @a)"]}


# A node is text with holes: ("n", name) a read, ("x", [parts]) a computed value, ("e", [parts]) an effect, plain str verbatim.
def R(n):
    return ("n", n)


def X(*p):
    return ("x", list(p))


def show(t, cp):
    if isinstance(t, str):
        return t
    if t[0] == "n":
        return "(cp %s)" % t[1] if cp else t[1]
    s = "".join(show(p, cp) for p in t[1])
    return "(cp %s)" % s if cp and t[0] == "x" else s


class Gen:
    def __init__(self, r):
        self.r = r
        self.u = 0
        self.loc = []       # (name, kind) bound by the lambdas around this point

    def name(self, k, place=False):
        ns = NM[k] + [n for n, q in self.loc if q == k] * 2
        return self.r.choice(ns)

    def fresh(self):
        self.u += 1
        return "p%d" % (self.u % 7)

    def num(self):
        return self.r.choice(["0", "1", "2", "-1", "100", "7"])

    def read(self, k):
        return R(self.name(k))

    def any(self, d):
        return self.ex(self.r.choice(KINDS), d)

    def atom(self, d):
        r = self.r
        c = r.randrange(7)
        if c < 3 or d <= 0:
            return r.choice([self.num(), self.num(), "'a", "1.5", "null", "'q'"])
        if c == 3:
            return X("(at ", self.ex(VEC, d - 1), " ", self.num(), ")")
        if c == 4:
            return X("(count ", self.any(d - 1), ")")
        if c == 5:
            return X("(%s " % r.choice(["sum", "min", "max", "first", "last"]), self.ex(r.choice([VEC, FLT]), d - 1), ")")
        return self.read(ATOM)

    def wrap(self, k, d):
        """kind-preserving contexts: the value passes through control flow, calls, bindings and pending operands"""
        r = self.r
        c = r.randrange(11)
        v = self.ex(k, d - 1)
        if c == 0:
            return X("(do ", self.eff(d - 1), " ", v, ")")
        if c == 1:      # the parameter outlives a change of the name it came from
            p = self.fresh()
            self.loc.append((p, k))
            e = self.eff(d - 1)
            body = [R(p)] if r.random() < .6 else [self.ex(k, d - 1)]
            self.loc.pop()
            return ("x", ["((fn [%s] " % p, e, " "] + body + [") ", v, ")"])
        if c == 2:
            p, q = self.fresh(), "q%d" % r.randrange(4)
            self.loc.append((p, k))
            first = ("e", ["(let %s " % q, R(p), ")"])
            self.loc.append((q, k))
            e = self.eff(d - 1)
            out = R(r.choice([p, q]))
            self.loc.pop()
            self.loc.pop()
            return X("((fn [%s] " % p, first, " ", e, " ", out, ") ", v, ")")
        if c == 3:
            return X("(set %s " % r.choice(NM[k]), v, ")")
        if c == 4:
            return X("(if ", r.choice(["true", "false"]), " ", v, " ", self.ex(k, d - 1), ")")
        if c == 5:
            return X("(try (raise ", v, ") (fn [ee] ", r.choice(["ee", "(do (set %s ee) ee)" % r.choice(NM[k])]), "))")
        if c == 6:
            return X("(at (list ", v, " ", self.eff(d - 1), " ", self.any(d - 1), ") 0)")
        if c == 7:
            return X("(%s (list " % r.choice(["first", "last"]), v, " ", v, "))")
        if c == 8:
            return X("(at (dict [a b] (list ", v, " ", self.any(d - 1), ")) 'a)")
        if c == 9:
            return X("((fn [zz] zz) ", v, ")")
        return X("(try ", v, " (fn [ee] 0))")

    def tpl(self, text, d, kind="x"):
        """@k is a value of kind k, @* any value, @! an effect, @# a small number"""
        out = []
        for p in re.split(r"(@.)", text):
            if p[:1] != "@":
                out.append(p)
            elif p == "@!":
                out.append(self.eff(d))
            elif p == "@#":
                out.append(self.num())
            else:
                out.append(self.any(d) if p == "@*" else self.ex(p[1], d))
        return (kind, out)

    def ex(self, k, d):
        r = self.r
        if d <= 0 or r.random() < .25:
            return self.read(k)
        if r.random() < .35:
            return self.wrap(k, d)
        if k == ATOM:
            return self.atom(d)
        return self.tpl(r.choice(TPL[k]), d - 1)

    def lam(self, d):
        """callbacks of alter, some of which modify names themselves"""
        r = self.r
        c = r.randrange(4)
        self.loc.append(("ca", r.choice([VEC, LST])))
        e = self.eff(d - 1) if c in (1, 2) else ""
        self.loc.pop()
        return ("e", (["(fn [ca cb] cb)"], ["(fn [ca cb] ", e, " cb)"], ["(fn [ca cb] ", e, " (+ ", R("ca"), " ", R("cb"), "))"], ["(fn [ca cb] (list ", R("ca"), " ", R("cb"), "))"])[c])

    def eff(self, d):
        """an operation with an effect on a name"""
        if d < 0:
            return ("e", ["(set na %s)" % self.num()])
        r = self.r
        E = lambda *p: ("e", list(p))
        c = r.randrange(16)
        k = r.choice(KINDS)
        d = max(d, 0)
        if c < 3:
            return E("(set %s " % r.choice(NM[k]), self.ex(k, d), ")")
        if c == 3 and self.loc:
            n, k = r.choice(self.loc)
            return E("(let %s " % n, self.ex(k, d), ")")
        n = self.name(k)
        t = r.choice(EFF[k]).replace("'N", "'" + n)
        t = t.replace(" I ", " %s " % r.choice(["0", "0", "1", "[0 1]", "2", "9"])).replace(" I)", " %s)" % r.choice("01"))
        t = t.replace(" K ", " '%s " % r.choice(["a", "b", "zz"]))
        if " L " in t:
            p, q = t.split(" L ")
            return E(self.tpl(p + " ", d, "e"), self.lam(d), self.tpl(" " + q, d, "e"))
        return self.tpl(t, d, "e")

    def step(self):
        r = self.r
        if r.random() < .7:
            return self.eff(r.choice([0, 1, 1, 2, 3]))
        k = r.choice(KINDS)
        return ("e", ["(set %s " % r.choice(NM[k]), self.ex(k, r.choice([1, 2, 3])), ")"])


DUMP = Rfh.E("(list %s)" % " ".join(ALL))


def differential(c, variant, cores, n, steps, rows, seed):
    r = c.sub("diff-%s-%d-%d-%s" % (variant, cores, rows, seed))
    hist = []
    for _ in range(n):
        g = Gen(r)
        st = start(r, rows if r.random() < .7 else 3)
        hist.append((st, [g.step() for _ in range(steps)]))
    fl = Fleet(variant, cores, [Rfh.E(COPY)] + [Rfh.E(x) for x in FUNS], workers=max(1, 8 // cores), timeout=60)
    frames, pos = [], []
    for st, xs in hist:
        fr = []
        for cp in (0, 1):
            fr += [Rfh.E(x) for x in FUNS] + [Rfh.E(x) for x in st]
            for x in xs:
                fr += [Rfh.E(show(x, cp)), DUMP]
        pos.append(len(fr))
        frames.append(fr)
    # one batch holds whole histories: they depend on what came before
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(fl.workers) as ex:
        res = list(ex.map(fl.batch, frames))
    ok = bad = changed = 0
    for (st, xs), a in zip(hist, res):
        half = len(a) // 2
        pre = len(FUNS) + len(st)
        prog = lambda i, cp: st + [show(x, cp) for x in xs[:i + 1]]
        last = None
        for i, x in enumerate(xs):
            j = pre + 2 * i
            q = [a[j], a[half + j], a[j + 1], a[half + j + 1]]
            d = next((z[1] for z in q if z[1]), None)
            if d is not None:
                c.violation("ends:" + crash_key(d.text, d.how), {"variant": variant, "cores": cores, "history": prog(i, 0), "report": d.text[-3000:]})
                break
            e0, e1, w0, w1 = [z[0]["v"] for z in q]
            er = [z[0] == "err" for z in (e0, e1)]
            c.case("step" + (":error" if er[0] else ""), show(x, 0), nontrivial=not er[0])
            ok += not er[0]
            if w0 != last and last is not None:
                changed += 1
            last = w0
            if w0 != w1 or er[0] != er[1] or (not er[0] and e0 != e1):
                bad += 1
                names = [nm for nm, p, q in zip(ALL, w0[1], w1[1]) if p != q]
                kind = "changed" if w0 != w1 else "answer"
                c.violation("%s:%s" % (kind, show(x, 0)[:60] if len(show(x, 0)) < 60 else show(x, 0)[:20]),
                            {"variant": variant, "cores": cores, "names": names, "history": prog(i, 0), "step": show(x, 0), "copying step": show(x, 1),
                             "got": [e0, [w for nm, w in zip(ALL, w0[1]) if nm in names]],
                             "want": [e1, [w for nm, w in zip(ALL, w1[1]) if nm in names]]})
                break
    fl.close()
    k = "differential %s -c %d rows %d" % (variant, cores, rows)
    c.extra[k] = {"histories": n, "steps that succeeded": ok, "steps that changed a name": changed}


def frame(c, variant, cores, n, seed):
    """random expressions leave every name alone they do not assign"""
    a = Any(c.sub("frame-%s-%d-%s" % (variant, cores, seed)), avoid={"let", "set"} | ({"pmap"} if cores > 1 else set()))
    look = Rfh.E("(list %s sym sym2)" % " ".join(NAMES))
    pre = [Rfh.E(x) for x in PRELUDE]
    fl = Fleet(variant, cores, [], workers=max(1, 8 // cores), timeout=60)
    K = 8
    hist = [[a.expr(3) for _ in range(K)] for _ in range(n // K)]

    def one(xs):
        """-> index of the first expression which changes a name, or None"""
        r = fl.batch(pre + [look] + [Rfh.E(x) for x in xs] + [look])
        d = next((z[1] for z in r if z[1]), None)
        if d is not None:
            return "died", d
        return ("same" if r[len(pre)][0]["v"] == r[-1][0]["v"] else "changed"), r

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(fl.workers) as ex:
        res = list(ex.map(one, hist))
    for xs, (how, r) in zip(hist, res):
        for x in xs:
            c.case("frame", x)
        if how == "died":
            c.violation("ends:" + crash_key(r.text, r.how), {"variant": variant, "cores": cores, "prelude": PRELUDE, "exprs": xs, "report": r.text[-3000:]})
        elif how == "changed":
            bad = xs
            while len(bad) > 1:     # drop what is not needed
                for i in range(len(bad)):
                    ys = bad[:i] + bad[i + 1:]
                    if one(ys)[0] == "changed":
                        bad = ys
                        break
                else:
                    break
            q = one(bad)[1]
            names = [m for m, u, v in zip(NAMES + ["sym", "sym2"], q[len(PRELUDE)][0]["v"][1], q[-1][0]["v"][1]) if u != v] if isinstance(q, list) else "?"
            c.violation("frame:" + bad[-1][:40], {"variant": variant, "cores": cores, "prelude": PRELUDE, "exprs": bad, "changed": names,
                                                  "after": [z[0] for z in q][-1] if isinstance(q, list) else ""})
    fl.close()
    c.extra["frame %s -c %d" % (variant, cores)] = {"expressions": n}


def run():
    c = Check("C05")
    c.rule = "each step of a random history is distinct by its text"
    seeds = range(c.scale(1, 6))
    for s in seeds:
        differential(c, "asan", 1, c.scale(1600, 6000), 14, 5, s)
        differential(c, "rel", 1, c.scale(1600, 8000), 24, 5, s)
        differential(c, "asan", 4, c.scale(160, 800), 10, 6, s)
        differential(c, "rel", 4, c.scale(24, 120), 8, 17000, s)
        frame(c, "asan", 1, c.scale(12000, 60000), s)
        frame(c, "rel", 4, c.scale(4000, 20000), s)
    return c.finish(20000)


if __name__ == "__main__":
    main(run)
