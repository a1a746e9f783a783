"""C18: parallel evaluation is free of data races (the happens-before detector of ThreadSanitizer over the real code)."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from chk import Check, crash_key, main, tsan_reports
from drv import Rfh, Died, SAN_ENV
from anyg import Any, PRELUDE
from bigg import Big, prelude, sites

# binding or changing a global from a task of pmap is a known finding
BAD = re.compile(r"\(set |'w\b|\b(set|alter|insert|upsert|gc|loadfn|get|modify)\b")
NAME = re.compile(r"(?<=[ \[(])(t|t2|d|v|l|s|big|e|g|n|1|2|3|'a)(?=[ )])")
FIXED = ["(format \"%-%\" x x)", "(as 'symbol (format \"sym%\" x))", "(as 'SYMBOL (list (format \"u%\" (% x 7)) \"zz\"))", "(at t2 'k)", "(select {from: t by: k z: (sum v)})", "(concat l x)",
         "(map (fn [y] (+ x y)) v)", "(let q (list x l d)) (concat q q)", "(self2 x)", "(try (raise (format \"m%\" x)) (fn [e] e))", "(de (ser l))", "(parse \"(+ 1 [1 2 3])\")",
         "(eval (parse (format \"(+ 1 %)\" x)))", "(left-join [k] t t2)", "(pmap neg big)", "(sum big)", "(group big)", "(as 'symbol (format \"%\" (% x 3)))", "(enum 'sym [a b a])", "(f x)",
         "(distinct (concat big x))", "(fold (fn [a b] (list a b)) l)", "(xasc t 'v)", "(rand 3 10)", "(guid 2)", "(timestamp 'local)", "(memstat)", "(internals)", "(env)", "(os-get-var \"HOME\")"]


def body(r, g):
    if r.random() < 0.25:
        e = r.choice(FIXED)
    else:
        while True:
            e = g.expr(r.choice([1, 2, 2, 3]))
            if not BAD.search(e):
                break
        if r.random() < 0.5:
            ns = list(NAME.finditer(e))
            if ns:
                m = r.choice(ns)
                e = e[:m.start()] + "x" + e[m.end():]
    if r.random() < 0.75:
        e = "(try (do %s) (fn [e] x))" % e
    return "(pmap (fn [x] %s) %s)" % (e, r.choice(["(til 300)", "(til 60)", "lv", "fv", "(take [a b c] 200)"]))


class Runner:
    def __init__(self, chk, cls, variant, cores, pre, es, csv=None):
        self.chk, self.cls, self.variant, self.cores, self.pre, self.es, self.csv = chk, cls, variant, cores, pre, es, csv
        self.sites, self.reports, self.done, self.ends = [], [], [], {}

    def run(self):
        p, last = None, 0
        for e in self.es:
            try:
                if p is None:
                    p, last = Rfh(self.variant, self.cores, timeout=300, cwd=self.csv), 0
                    p.run(self.pre)
                a = p.one(Rfh.X(e, 0))
                self.ends["error" if a["t"] == 127 else "value"] = self.ends.get("error" if a["t"] == 127 else "value", 0) + 1
                err = p.stderr()
            except Died as d:
                err = d.text
                if "WARNING: ThreadSanitizer" not in err[last:]:
                    self.reports.append(("died:" + crash_key(d.text, d.how), e, d.text[-2500:]))
                p.close()
                p = None
            for rep in tsan_reports(err[last:]):
                self.reports.append((crash_key(rep), e, rep[:3500]))
            last = len(err)
            self.done.append(e)
            if p is not None and last > 200000:
                self.sites.append(p.one(b"O\n"))
                p.close()
                p = None
        if p is not None:
            self.sites.append(p.one(b"O\n"))
            self.exe = p.exe
            how, err = p.quit(120)
            for rep in tsan_reports(err[last:]):
                self.reports.append(("exit:" + crash_key(rep), "shutdown", rep[:3500]))
            if how == "timeout":
                self.reports.append(("exit:hang", "shutdown", ""))
            p.close()
        return self


def main_c18():
    chk = Check("C18")
    chk.rule = "evaluations, start-ups and shutdowns observed by ThreadSanitizer; any report is a violation. Distinct: (workload, threads, build, expression)"
    chk.assumptions = ["ThreadSanitizer sees the accesses of the executions that happened; the task queue's hand-over through atomics counts as synchronisation"]
    top = tempfile.mkdtemp(prefix="rf-c18-")
    try:
        rs = []
        small = [Rfh.E(x) for x in PRELUDE + ["(set lv (take (list 1 'a \"s\" [1 2] t) 200))", "(set fv (as 'F64 (til 200)))", "(set self2 (fn [x] (if (> x 5) (self2 (- x 5)) x)))"]]
        for variant in ("tsan", "tsanheap"):
            for cores in (2, 4, 8):
                r = chk.sub("pmap %s %d" % (variant, cores))
                g = Any(r, avoid={"set", "alter", "insert", "upsert", "gc", "pmap", "get"})
                n = chk.scale(800, 12000)
                es = [body(r, g) for _ in range(n)]
                for i in range(0, n, 400):
                    rs.append(Runner(chk, "pmap", variant, cores, small, es[i:i + 400]))
            for cores in (3, 6):
                r = chk.sub("big %s %d" % (variant, cores))
                g = Big(r, (16385, 30011))
                n = chk.scale(200, 3000)
                es = []
                while len(es) < n:
                    e = g.one()
                    if "write-csv" not in e and not ("med" in e and "by" in e):
                        es.append(e)
                pre = prelude(r, (16385, 30011))
                for i in range(0, n, 100):
                    rs.append(Runner(chk, "big", variant, cores, pre, es[i:i + 100]))
        # parallel reading of text, interning the same symbols on every thread
        r = chk.sub("csv")
        with open(os.path.join(top, "f.csv"), "w") as f:
            f.write("a,s,f,u,d\n")
            for i in range(40000):
                f.write("%d,s%d,%d.5,new%d,2024.01.%02d\n" % (i, r.randrange(3000), i, r.randrange(10**6), 1 + i % 28))
        for variant, cores in (("tsan", 4), ("tsanheap", 8), ("tsan", 2), ("tsanheap", 5)):
            rs.append(Runner(chk, "csv", variant, cores, [], ["(read-csv [I64 SYMBOL F64 SYMBOL DATE] \"f.csv\")", "(count (distinct (at (read-csv [I64 SYMBOL F64 SYMBOL DATE] \"f.csv\") 'u)))",
                                                             "(read-csv [I64 SYMBOL F64 C8 DATE] \"f.csv\")", "(read-csv [SYMBOL SYMBOL SYMBOL SYMBOL SYMBOL] \"f.csv\")"], csv=top))
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda x: x.run(), rs))
        ends, tot = {}, {}
        for x in rs:
            for e in x.done:
                chk.case("%s/%s/%d" % (x.cls, x.variant, x.cores), e)
            for k, e, rep in x.reports:
                chk.violation(k, {"class": x.cls, "variant": x.variant, "cores": x.cores, "expr": e, "report": rep})
            for k, n in x.ends.items():
                ends["%s %s" % (x.cls, k)] = ends.get("%s %s" % (x.cls, k), 0) + n
        by = {}
        for x in rs:
            if x.sites:
                by.setdefault(x.exe, []).extend(x.sites)
        for exe, ss in by.items():
            for k, v in sites(ss, exe).items():
                t = tot.setdefault(k.split(" ")[0], [0, 0])
                t[0] += v[0]
                t[1] += v[1]
        for x in rs[::5]:
            chk.sample("%s: %s" % (x.cls, x.es[0]))
        # the shipped application: start-up, a little work, shutdown
        exe = {v: build.app(v) for v in ("tsan", "tsanheap")}
        scripts = ["", "(set a (til 50000)) (sum (* a 2))", "(pmap (fn [x] (as 'symbol (format \"q%\" x))) (til 500))", "(raise \"x\")", "(exit 3)", "(do (sum (til 100000)) (exit 0))"]
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["HOME"] = top
        for i, s in enumerate(scripts):
            with open(os.path.join(top, "s%d.rfl" % i), "w") as f:
                f.write(s + "\n")

        def cycle(k):
            v = ("tsan", "tsanheap")[k % 2]
            i = k % len(scripts)
            a = [exe[v], "-c", str(1 + k % 9), os.path.join(top, "s%d.rfl" % i)]
            try:
                p = subprocess.run(a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60, cwd=top)
                return k, p.returncode, p.stderr.decode("latin1")
            except subprocess.TimeoutExpired as e:
                return k, "timeout", (e.stderr or b"").decode("latin1")
        with ThreadPoolExecutor(5) as ex:
            for k, rc, err in ex.map(cycle, range(chk.scale(150, 3000))):
                chk.case("start and stop", k)
                for rep in tsan_reports(err):
                    chk.violation("start/stop " + crash_key(rep), {"cycle": k, "script": scripts[k % len(scripts)], "report": rep[:3500]})
                if rc == "timeout":
                    chk.violation("start/stop hang", {"cycle": k, "script": scripts[k % len(scripts)]})
        chk.extra["endings"] = ends
        chk.extra["parallel_runs_by_caller"] = {k: {"runs": v[0], "tasks": v[1]} for k, v in sorted(tot.items())}
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return chk.finish(min_cases=2000)


if __name__ == "__main__":
    main(main_c18)
