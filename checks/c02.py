"""C02: repeating an evaluation leaves the number of live heap blocks unchanged."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, crash_key, main
from drv import Rfh, Died
from anyg import *
from anyrun import Fleet
from c01 import BIGPRE, BIGNAMES, big_exprs

PRE = [Rfh.E(x) for x in PRELUDE]


def cycles(variant, cores, pre, e, cwd, n=7):
    """live blocks gained by each [prelude, e, prelude] of a fresh process"""
    p = Rfh(variant, cores, timeout=60, cwd=cwd)
    try:
        p.run(pre)
        out, last = [], None
        for _ in range(n):
            p.run([Rfh.E("(set w 0)")] + pre + [Rfh.X(e, 0), Rfh.E("(set w 0)")] + pre)
            m = p.one(b"M\n")["live"][0]
            if last is not None:
                out.append(m - last)
            last = m
        return out
    except Died:
        return []
    finally:
        p.close()


def main_c02():
    chk = Check("C02")
    chk.rule = "distinct expressions repeated; live heap blocks after each repetition, counted at the allocator's interface"
    seen = {"value": 0, "error": 0, "repetitions": 0, "suspects": 0, "allocs": 0}

    def go(cls, variant, cores, pre, es, k=2, workers=6, size=200, timeout=60):
        t0 = time.time()
        f = Fleet(variant, cores, pre, workers, timeout)
        try:
            rs = f.map([Rfh.K(e, k) for e in es], size)
            for e, (a, d) in zip(es, rs):
                if d is not None:          # memory safety is C01's business
                    chk.inconclusive.append("%s: %s" % (crash_key(d.text, d.how), e))
                    continue
                chk.case(cls, e)
                seen["repetitions"] += 3 * k
                seen["error" if a["t"] == 127 else "value"] += 1
                if a["g"][0] == 0 or a["g"][1] == 0:
                    continue
                seen["suspects"] += 1
                c = cycles(variant, cores, pre, e, f.top)
                if len(c) >= 4 and (all(x > 0 for x in c[-4:]) or all(x < 0 for x in c[-4:])):
                    head = e.split()[0].strip("(") if e.startswith("(") else e
                    chk.violation("blocks:%s:%s" % ("gained" if c[-1] > 0 else "lost", head),
                                  {"class": cls, "variant": variant, "cores": cores, "expr": e, "per repetition": c, "within": a["g"]})
            for p in f.all:
                seen["allocs"] += p.one(b"M\n")["allocs"]
        finally:
            f.close()
        for e in es[:2]:
            chk.sample("%s: %s" % (cls, e))
        sys.stderr.write("%s %d %.1fs\n" % (cls, len(es), time.time() - t0))

    r = chk.sub("lists")
    g = Any(r, det=True)
    flat = g.flat
    es = ["(%s %s)" % (u, x) for u in g.un for x in flat]
    es += ["(%s)" % u for u in g.un + g.bi + g.va] + ["(%s %s)" % (u, x) for u in g.bi + g.va for x in r.sample(flat, chk.scale(15, 100))]
    go("unary", "asan", 1, PRE, es)
    es = ["(%s %s %s)" % (b, r.choice(flat), r.choice(flat)) for b in g.bi for _ in range(chk.scale(500, 8000))]
    es += ["(%s %s)" % (u, " ".join(r.choice(flat) for _ in range(k))) for u in g.va + g.un[:6] + g.bi[:6] for k in (2, 3, 4, 5) for _ in range(chk.scale(25, 400))]
    go("pairs", "asan", 1, PRE, es)
    r = chk.sub("nested")
    g = Any(r, det=True)
    go("nested", "asan", 1, PRE, [g.expr(r.choice([1, 2, 2, 3, 4])) for _ in range(chk.scale(14000, 400000))])
    go("nested-heap", "rel", 1, PRE, [g.expr(r.choice([1, 2, 2, 3, 4])) for _ in range(chk.scale(20000, 600000))])
    # the same inside a lambda, under try, and as one of many arguments
    es = []
    for _ in range(chk.scale(6000, 100000)):
        e = g.expr(r.choice([1, 1, 2]))
        es.append(r.choice(["((fn [q] (list q %s q)) [1 2])", "(try %s (fn [x] x))", "(list [1 2] \"ab\" (try %s 0))", "(map (fn [q] %s) (list [1] [2]))", "((fn [q] (let z (list q q)) (do %s z)) \"qq\")",
                            "(select {from: t z: %s})", "(select {from: t by: k z: %s})", "(select {from: t where: %s})", "((fn [q] (try %s q)) [1])", "(if %s [1] \"b\")",
                            "(fold (fn [a b] %s) 0 [1 2 3])", "(pmap (fn [q] %s) [1 2 3])", "(dict [a b] (list %s 2))"]) % e)
    go("wrapped", "asan", 1, PRE, es)
    es = big_exprs(chk.sub("big"), chk.scale(1200, 20000), det=True)
    go("big", "asan", 3, BIGPRE, es, 1, workers=3, size=60, timeout=120)
    go("big-heap", "rel", 4, BIGPRE, es, 1, workers=2, size=100, timeout=120)
    chk.extra["observed"] = seen
    if seen["value"] < 5000 or seen["error"] < 5000:
        chk.inconclusive.append("workload too one-sided: %s" % seen)
    chk.assumptions.append("a block is what heap_alloc hands out; blocks the allocator keeps for itself are C19's business")
    return chk.finish(min_cases=20000)


if __name__ == "__main__":
    main(main_c02)
