"""C03: a failed evaluation leaves the interpreter as it was; try catches exactly the failures."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, crash_key, main
from drv import Rfh, Died
from anyg import *
from anyrun import Fleet, batches

PRE = [Rfh.E(x) for x in PRELUDE]
# expressions that touch nothing the random programs may have rebound; each is asked again after failures
PROBES = [
    "(+ 1 2)", "(sum (til 100))", "((fn [x y] (let z (+ x y)) (* z z)) 3 4)", "(map (fn [x] (* x x)) [1 2 3])", "(fold + 0 [1 2 3])", "(scan + [1 2 3])",
    "(do (set pq (table [pk pv] (list [a b a] [1 2 3]))) (select {from: pq by: pk s: (sum pv) c: (count pv)}))",
    "(select {from: (table [pk pv] (list [a b a] [1 2 3])) where: (> pv 1)})", "(select {from: (table [pk] (list [1 2 3])) x: (+ pk 1)})",
    "(update {from: (table [pk] (list [1 2 3])) pk: (* pk 2) where: (> pk 1)})", "(try (raise \"pe\") (fn [m] m))", "(try (+ 1 'a) (fn [m] m))", "(try 5 0)",
    "(if (> 2 1) 'yes 'no)", "((fn [n] (if (< n 2) n (+ (self (- n 1)) (self (- n 2))))) 12)", "(let pl 5)", "(do (let pm 6) (+ pm 1))",
    "(at (dict [pa pb] [1 2]) 'pb)", "(left-join [pk] (table [pk a1] (list [1 2] [3 4])) (table [pk b1] (list [2] [9])))", "(pmap (fn [x] (+ x 1)) (til 40))",
    "pundefined", "(pundefinedfn 1)", "(+ 1 \"a\")", "(at [1 2 3] 'q)", "((fn [x] x))", "((fn [x] (+ x 'a)) 1)", "((fn [x] (raise x)) \"boom\")",
    "(select {from: 5})", "(select {from: (table [pk] (list [1 2])) x: (+ pk 'a)})", "(map (fn [x] (raise \"m\")) [1 2])", "(select {from: (table [pk] (list [1 2])) by: pnokey})",
    "(do (set pz 1) (set pz (+ pz 1)) pz)", "(format \"%-%\" 1 'a)", "((fn [x] (try (raise \"in\") (fn [e] (list e x)))) 7)", "(list 1 (try (raise \"q\") 2) 3)",
    "(asc [3 1 2])", "(group [1 2 1])", "pundefined", "(eval (parse \"(+ 1 2)\"))", "(as 'String 5)", "((fn [a b c d] (list a b c d)) 1 2 3 4)",
]
FAILS = ["(raise \"x\")", "(+ 1 'a)", "nosuchname", "(nosuchfn 1 2)", "((fn [x] x))", "((fn [x] (+ x 'a)) 5)", "((fn [x] (let y x) (raise \"deep\")) 5)", "(map (fn [x] (raise \"m\")) [1 2 3])",
         "(map (fn [x] (if (> x 2) (raise \"late\") x)) [1 2 3 4])", "(pmap (fn [x] (raise \"p\")) (til 30))", "(fold (fn [a b] (raise \"f\")) 0 [1 2])", "(scan (fn [a b] (if (> b 2) (raise \"s\") b)) [1 2 3 4])",
         "((fn [n] (+ 1 (self (+ n 1)))) 0)", "((fn [n] (list n (self (list n n)))) 0)", "(select {from: t z: (raise \"q\")})", "(select {from: t where: (raise \"w\")})", "(select {from: t by: (raise \"b\") z: v})",
         "(select {from: t by: k z: (+ v 'a)})", "(select {from: t z: (select {from: t2 y: (raise \"inner\")})})", "(update {from: t v: (raise \"u\")})", "(update {from: t by: k v: (raise \"ub\")})", "(left-join [nokey] t t2)",
         "(at [1 2] \"x\")", "(insert 't (list 1))", "(upsert 't 1 5)", "(alter 'v + \"x\")", "(apply (fn [x y] x) 1)", "(eval (parse \"(raise 1\"))", "(parse \"(1 2\")", "(de [0x01 0x02])", "(try (raise \"a\") (fn [e] (raise e)))",
         "(try (raise \"a\") (fn [] 1))", "(list 1 2 (list 3 (list 4 (raise \"n\"))))", "(do (let a 1) (let b 2) (raise \"let\"))", "((fn [a b] (do (let c 1) (map (fn [z] (raise \"c\")) [1]))) 1 2)",
         "(take [1 2] 'a)", "(as 'I64 (fn [x] x))", "(raise 5)", "((fn [x] (return (raise \"r\"))) 1)", "(if (raise \"if\") 1 2)", "(and true (raise \"and\"))", "(window-join [k v] (list [0 1] [1 2]) t t2 {z: (raise \"wj\")})",
         "(at d (raise \"at\"))", "(dict [a b] [1])", "(table [a b] (list [1] [1 2]))", "(timeit 3 (raise \"t\"))", "(apply (fn [x] (raise \"ap\")) [1 2])", "(xbar [1 2] 'a)"]
WRAPS = ["((fn [q] (list q %s q)) [1 2])", "(list [1 2] \"ab\" %s)", "(map (fn [q] %s) (list [1] [2]))", "((fn [q] (let z (list q q)) (do %s z)) \"qq\")", "(select {from: t z: %s})", "(select {from: t by: k z: %s})",
         "(select {from: t where: %s})", "(if %s [1] \"b\")", "(fold (fn [a b] %s) 0 [1 2 3])", "(pmap (fn [q] %s) [1 2 3])", "(dict [a b] (list %s 2))", "(try %s (fn [e] (raise e)))", "(do (let loc 1) %s)",
         "((fn [a b] ((fn [c] (list c %s)) a)) 1 2)", "((fn [n] (if (> n 0) (list n (self (- n 1))) %s)) 30)", "(apply (fn [x] %s) [1 2])", "(+ 1 (count %s))", "(update {from: t w: %s})", "(map + [1 2] (list 1 %s))"]


def main_c03():
    chk = Check("C03")
    chk.rule = "distinct expressions; state vector after each, a probe set compared with a fresh process after histories of failures, try compared with the bare expression"
    obs = {"failed": 0, "succeeded": 0, "histories": 0, "probes": 0, "try_caught": 0, "try_passed": 0}
    ZERO = [0, 0, 0, 0, 0]

    def fresh(variant, cores, frames):
        out = []
        for f in frames:
            with Rfh(variant, cores, timeout=60) as p:
                out.append(p.one(f))
        return out

    def pform(x):       # the whole answer: value and, for errors, the text shown to the user
        return Rfh.F(x, 2)

    def norm(a):
        return (repr(a["v"]), repr(a.get("f")))

    def died(cls, variant, e, d):
        chk.violation("%s:%s" % (cls, crash_key(d.text, d.how)), {"class": cls, "variant": variant, "expr": e, "how": d.how, "report": d.text[-1500:]})

    def histories(cls, variant, cores, hs):
        want = dict(zip(PROBES, [norm(a) for a in fresh(variant, cores, [pform(x) for x in PROBES])]))
        r = chk.sub(cls + "-probes")
        frames, meta = [], []
        for h in hs:
            pr = r.sample(PROBES, 12)
            fs = PRE + [Rfh.X(e) for e in h] + [pform(x) for x in pr]
            frames.append(fs)
            meta.append((h, pr))
        fl = Fleet(variant, cores, [], 6, 60)
        try:
            from concurrent.futures import ThreadPoolExecutor

            def one(fs):
                try:
                    return fl.proc().run(fs), None
                except Died as d:
                    fl.drop()
                    return None, d
            with ThreadPoolExecutor(6) as ex:
                rs = list(ex.map(one, frames))
        finally:
            fl.close()
        for (h, pr), (a, d) in zip(meta, rs):
            chk.case(cls, repr(h))
            obs["histories"] += 1
            if d is not None:
                # which step?  memory safety itself is C01's
                died(cls, variant, h, d)
                continue
            for e, x in zip(h, a[len(PRE):len(PRE) + len(h)]):
                obs["failed" if x["t"] == 127 else "succeeded"] += 1
                if x["st"] != ZERO:
                    chk.violation("state:%s" % e.split()[0].strip("("), {"class": cls, "variant": variant, "expr": e, "state [sp, rp, query, rc_sync, fn]": x["st"], "history": h})
            for p, x in zip(pr, a[len(PRE) + len(h):]):
                obs["probes"] += 1
                if norm(x) != want[p]:
                    chk.violation("probe:%s" % p, {"class": cls, "variant": variant, "cores": cores, "probe": p, "got": norm(x), "fresh": want[p], "history": h})
        for h in hs[:1]:
            chk.sample("%s: %s ..." % (cls, " ; ".join(h[:3])))

    r = chk.sub("fails")

    def wrap(r, e, n):
        for _ in range(n):
            e = r.choice(WRAPS) % e
        return e
    hs = [[wrap(r, r.choice(FAILS), r.choice([0, 0, 1, 1, 2, 3, 4])) for _ in range(r.choice([1, 3, 10, 25]))] for _ in range(chk.scale(900, 15000))]
    hs += [[w % f] * 3 for w in WRAPS for f in FAILS]
    histories("failures", "rel", 1, hs)
    histories("failures-asan", "asan", 1, hs[::3])
    histories("failures-cores", "rel", 4, hs[::3])
    r = chk.sub("random")
    g = Any(r, det=True, avoid={"set", "let", "do"})
    g.pools = {k: [x for x in p if x not in ("set", "'sym", "self") and "(set " not in x] for k, p in g.pools.items()}
    hs = [[wrap(r, g.expr(r.choice([1, 2, 3])), r.choice([0, 0, 1, 2])) for _ in range(20)] for _ in range(chk.scale(900, 12000))]
    hs = [[e for e in h if "'t" not in e and "(set " not in e] for h in hs]
    histories("random", "rel", 1, hs)
    histories("random-asan", "asan", 1, hs[::2])

    # many failures on one process: nothing runs out
    for variant, cores in (("rel", 1), ("asan", 1), ("rel", 3)):
        for i, f in enumerate(FAILS + [wrap(r, r.choice(FAILS), 2) for _ in range(chk.scale(20, 200))]):
            if (i + cores) % (3 if chk.thorough else 6):
                continue
            n = 1500
            e = "(do (set cnt 0) (map (fn [i] (try %s (fn [e] (set cnt (+ cnt 1))))) (til %d)) cnt)" % (f, n) if "self" not in f else "(try %s 0)" % f
            try:
                with Rfh(variant, cores, timeout=100) as p:
                    p.run(PRE)
                    a = p.one(Rfh.X(e))
                    k = p.run([Rfh.X(f)] * 50 + [Rfh.E("(+ 1 2)")])
                    chk.case("repeat", e)
                    if any(x["st"] != ZERO for x in [a] + k) or k[-1]["v"] != ["i64", 3]:
                        chk.violation("repeat:%s" % f, {"variant": variant, "expr": e, "answers": [a, k[-1]]})
            except Died as d:
                died("repeat", variant, e, d)

    # try: the handler's value iff the expression fails
    r = chk.sub("try")
    g = Any(r, det=True, avoid={"set", "let", "return", "self"})
    g.pools = {k: [x for x in p if x not in ("set", "self", "'sym") and "(set " not in x and "return" not in x] for k, p in g.pools.items()}
    es = [wrap(r, r.choice(FAILS[:12] + FAILS[14:20]), r.choice([0, 1, 2])) if r.random() < 0.2 else g.expr(r.choice([1, 1, 2, 2, 3])) for _ in range(chk.scale(14000, 200000))]
    es = [e for e in es if "'t" not in e and "(set " not in e and "(let " not in e and "self" not in e and "insert" not in e and "upsert" not in e and "alter" not in e and "return" not in e]
    H = "'HANDLED"
    forms = [("(try %s (fn [zz] 'HANDLED))", 0), ("(try %s 'HANDLED)", 0), ("((fn [] (try %s (fn [zz] 'HANDLED))))", 1), ("(list 'L (try %s (fn [zz] 'HANDLED)) 'R)", 2), ("((fn [q1 q2] (list q1 (try %s (fn [zz] (list zz 'HANDLED))) q2)) 'L 'R)", 3),
             ("(try (try %s (fn [zz] (raise zz))) (fn [yy] 'HANDLED))", 0), ("(at (map (fn [q1] (try %s (fn [zz] 'HANDLED))) [1 2]) 1)", 4)]
    picks = [r.choice(forms) for _ in es]
    frames = []
    for e, (f, k) in zip(es, picks):
        frames += [Rfh.X("(list 'L %s 'R)" % e if k in (2, 3) else e), Rfh.X(f % e), Rfh.X(e), Rfh.X("(list 'L 'HANDLED 'R)" if k == 2 else "'HANDLED")]
    fl = Fleet("asan", 1, PRE, 6, 60)
    try:
        rs = fl.map(frames, 240)
    finally:
        fl.close()
    for i, (e, (f, k)) in enumerate(zip(es, picks)):
        q = rs[4 * i:4 * i + 4]
        if any(d is not None for _, d in q):
            chk.inconclusive.append("died: %s" % e)
            continue
        bare, tr, again, hv = [a for a, _ in q]
        if bare["t"] == 127 and again["t"] != 127 or bare["t"] != 127 and again["t"] == 127:
            if k in (2, 3):
                continue            # an expression whose value only fails, or only works, as an argument
            chk.inconclusive.append("not repeatable: %s" % e)
            continue
        chk.case("try", (f, e))
        fails = again["t"] == 127
        obs["try_caught" if fails else "try_passed"] += 1
        if any(a["st"] != ZERO for a, _ in q):
            chk.violation("state:try", {"expr": e, "form": f, "answers": [a for a, _ in q]})
        if k == 0 and tr["h"] != (hv["h"] if fails else again["h"]):
            chk.violation("try:%s" % f, {"expr": e, "form": f, "fails": fails, "answers": [bare, tr, again, hv]})
        if k == 2 and tr["h"] != (hv["h"] if fails else bare["h"]):
            chk.violation("try:%s" % f, {"expr": e, "form": f, "fails": fails, "answers": [bare, tr, again, hv]})
        if k == 3 and (tr["t"] == 127 or not fails and tr["h"] != bare["h"]):
            chk.violation("try:%s" % f, {"expr": e, "form": f, "fails": fails, "answers": [bare, tr, again, hv]})
        if k == 1 and (tr["t"] == 127 or fails and tr["h"] != hv["h"]):
            chk.violation("try:%s" % f, {"expr": e, "form": f, "fails": fails, "answers": [bare, tr, again, hv]})
    chk.extra["observed"] = obs
    return chk.finish(min_cases=5000)


if __name__ == "__main__":
    main(main_c03)
