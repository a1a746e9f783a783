"""C01: any expression ends in a value or an error; nothing outside live objects is touched."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, crash_key, main
from drv import Rfh
from anyg import *
from anyrun import Fleet

PRE = [Rfh.E(x) for x in PRELUDE]
BIGPRE = PRE + [Rfh.E(x) for x in [
    "(set big (til 20000))", "(set bf (as 'F64 (% (til 20000) 7)))", "(set bs (take [a b c d] 20000))", "(set bb (== 0 (% big 3)))",
    "(set bl (take (list 1 'a \"s\" [1 2]) 20000))", "(set bi (as 'I32 (% (* big 7919) 1000)))", "(set bd (+ 2024.01.01 (% big 50)))",
    "(set bg (take (guid 50) 20000))", "(set be (enum 'sym (take [a b c] 20000)))", "(set bc (take \"abc\" 20000))",
    "(set t (table [k v w] (list bs big bf)))", "(set t2 (table [k v x] (list [a b c] [1 2 3] [7 8 9])))", "(set bn (take [0Nl 1 2] 20000))",
    "(set bh (as 'I16 (% big 100)))", "(set bu (as 'U8 (% big 100)))", "(set bt (+ 10:00:00.000 (% big 500)))"]]
BIGNAMES = ["big", "bf", "bs", "bb", "bl", "bi", "bd", "bg", "be", "bc", "bn", "bh", "bu", "bt", "t"]


SLOW = {"union", "sect", "except", "in", "find", "format", "concat", "bin", "binr"}   # quadratic on lists of lists


def big_exprs(r, n, det=False):
    """expressions over data beyond the thresholds of the parallel paths"""
    g = Any(r, det=det)
    g.pools = dict(g.pools, name=[x for x in BIGNAMES if not det or x != "bg"])
    BN = g.pools["name"]
    fns = [x for x in FNS if x not in ("format", "list", "concat", "raze", "enlist", "str", "do", "and", "if", "set", "select", "self", "(fn [x y] (list x y))")]
    es = []
    for _ in range(n):
        m = r.random()
        n = lambda: r.choice(BN)
        o = lambda: n() if r.random() < 0.6 else g.leaf()
        if m < 0.3:
            es.append("(%s %s)" % (r.choice([x for x in g.un if x != "show"]), n()))
        elif m < 0.7:
            a, b = n(), o()
            if r.random() < 0.3:
                a, b = b, a
            f = r.choice([x for x in g.bi if x not in ("set", "let")])
            if f in SLOW:
                a, b = [r.choice(["big", "bs", "bi", "bt"]) if x in ("bl", "bg", "bc", "be", "t") else x for x in (a, b)]
            es.append("(%s %s %s)" % (f, a, b))
        elif m < 0.85:
            es.append(g.sel(1))
        elif m < 0.95:
            f = r.choice(["map", "pmap", "fold", "scan", "apply"])
            # binding globals in tasks of pmap is a known finding
            es.append("(%s %s %s)" % (f, r.choice([x for x in fns if f != "pmap" or "set" not in x]), n()))
        else:
            es.append(g.join(1))
    return es


def main_c01():
    chk = Check("C01")
    chk.rule = "distinct expressions evaluated; each must end in a value or an error without a sanitizer report, a trap or a hang"
    ends = {"value": 0, "error": 0}

    def judge(cls, es, rs, variant, cores):
        for e, (a, d) in zip(es, rs):
            chk.case(cls, e)
            if d is not None:
                chk.violation("%s" % crash_key(d.text, d.how), {"class": cls, "variant": variant, "cores": cores, "expr": e, "how": d.how, "report": d.text[-2500:]})
            else:
                ends["error" if a["t"] == 127 else "value"] += 1
        for e in es[:2]:
            chk.sample("%s: %s" % (cls, e))

    def go(cls, variant, cores, pre, es, workers=6, size=200, timeout=60):
        t0 = time.time()
        f = Fleet(variant, cores, pre, workers, timeout)
        try:
            judge(cls, es, f.map([Rfh.X(e) for e in es], size), variant, cores)
        finally:
            f.close()
            sys.stderr.write("%s %d %.1fs\n" % (cls, len(es), time.time() - t0))

    r = chk.sub("lists")
    g = Any(r)
    flat = g.flat
    # every unary builtin on every kind of value; every other builtin with zero and one argument
    es = ["(%s %s)" % (u, x) for u in g.un for x in flat]
    es += ["(%s)" % u for u in g.un + g.bi + g.va] + ["(%s %s)" % (u, x) for u in g.bi + g.va for x in r.sample(flat, chk.scale(20, 100))]
    go("unary", "asan", 1, PRE, es)
    # pairs
    small = [x for x in flat]
    if chk.thorough:
        es = ["(%s %s %s)" % (b, x, y) for b in g.bi for x in small for y in small if r.random() < 0.5]
    else:
        es = ["(%s %s %s)" % (b, r.choice(small), r.choice(small)) for b in g.bi for _ in range(900)]
    es += ["(%s %s)" % (u, " ".join(r.choice(small) for _ in range(k))) for u in g.va + g.un[:6] + g.bi[:6] for k in (2, 3, 4, 5) for _ in range(chk.scale(40, 800))]
    go("pairs", "asan", 1, PRE, es)
    # nested programs, also with files below a scratch directory
    r = chk.sub("nested")
    g = Any(r)
    go("nested", "asan", 1, PRE, [g.expr(r.choice([1, 2, 2, 3, 4])) for _ in range(chk.scale(24000, 600000))])
    go("nested-heap", "rel", 1, PRE, [g.expr(r.choice([1, 2, 2, 3, 4])) for _ in range(chk.scale(24000, 600000))])
    g = Any(r, io=True)
    io = [x for x in IO]
    es = []
    for _ in range(chk.scale(2500, 30000)):
        if r.random() < 0.7:
            es.append("(%s %s)" % (r.choice(io), " ".join(g.expr(0) if r.random() < 0.5 else r.choice(['"f"', '"g"', '"h/"', '"p/"', "t", "d", "v", "[I64 SYMBOL]", "\"a,b\\n1,2\\n\""]) for _ in range(r.choice([1, 2, 2, 3, 4])))))
        else:
            es.append(g.expr(2))
    go("files", "asan", 1, PRE, es)
    # data beyond the thresholds of the parallel paths
    es = big_exprs(chk.sub("big"), chk.scale(2500, 30000))
    go("big", "asan", 3, BIGPRE, es, workers=3, size=60, timeout=120)
    go("big-heap", "rel", 4, BIGPRE, es, workers=2, size=100, timeout=120)
    chk.extra["endings"] = ends
    if ends["value"] < 5000 or ends["error"] < 5000:
        chk.inconclusive.append("workload too one-sided: %s" % ends)
    return chk.finish(min_cases=20000)


if __name__ == "__main__":
    main(main_c01)
