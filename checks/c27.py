"""C27: symbol interning is a bijection. symm interns strings of every kind (prefixes and near-copies of each other,
NULs, all bytes, page-sized, sharing a bucket) from one thread and from the tasks of the worker pool, and keeps the
whole history of string -> id and id -> text; symbols are also compared and converted from the language."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from chk import Check, main, crash_key, tsan_reports
from drv import SAN_ENV
from fun import Run
from val import *


def run():
    c = Check("C27")
    c.rule = ("one string interned (ids compared over the whole history: equal strings one id, different strings different ids) or one "
              "text read back (length, bytes, terminator) right away, later and at the end; distinct: strings")
    c.assumptions = ["at most 16 million names and 4 GB of text: beyond these the process ends by design (SYMBOLS_MAX_COUNT, STRING_POOL_SIZE)"]
    exe = {v: build.harness(v, "symm", ("symm.c",), wrap=False) for v in ("rel", "asan", "tsan", "tsanheap")}
    env = dict(os.environ)
    env.update(SAN_ENV)
    S = c.seed * 100
    jobs = []
    for k in range(c.scale(2, 10)):
        jobs.append(("rel", ["seq", S + k, c.scale(150000, 1500000)]))
        jobs.append(("asan", ["seq", S + k, c.scale(20000, 200000)]))
        for cores in (2, 4, 8, 12):
            jobs.append(("rel", ["thr", S + k, cores, c.scale(40, 300), 2000]))
        jobs.append(("tsan", ["thr", S + k, (8, 4)[k % 2], c.scale(8, 100), 1500]))
        jobs.append(("tsanheap", ["thr", S + 50 + k, (4, 8)[k % 2], c.scale(8, 100), 1500]))
        jobs.append(("asan", ["thr", S + 60 + k, 4, c.scale(8, 100), 1500]))
    jobs.append(("rel", ["many", S, 8, c.scale(3000000, 16000000)]))
    jobs.append(("rel", ["many", S, 3, c.scale(1000000, 8000000)]))

    def one(j):
        v, a = j
        try:
            p = subprocess.run([exe[v]] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=c.scale(200, 3000))
            return v, a, p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired as e:
            return v, a, "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")

    with ThreadPoolExecutor(4) as ex:
        for v, a, rc, out, err in ex.map(one, jobs):
            mode, where = a[0], {"variant": v, "args": a, "rc": rc}
            for l in out.splitlines():
                if l.startswith("BAD "):
                    c.violation("%s:%s" % (mode, l.split()[1]), dict(where, line=l))
                elif l.startswith("{"):
                    o = json.loads(l)
                    c.case("%s strings interned (%s)" % (mode, v), ident="%s" % a, n=o["strings"])
                    c.case("%s texts read back (%s)" % (mode, v), ident="%s" % a, n=o["texts"])
                    c.sample({"run": [v] + a, "observed": o}, 6)
                    t = c.extra.setdefault("distinct_strings", {})
                    t[mode] = t.get(mode, 0) + o["distinct"]
            for rep in tsan_reports(err):
                c.violation("race:" + crash_key(rep), dict(where, report=rep[:3000]))
            if rc == "timeout":
                c.violation("%s:hang" % mode, where)
            elif rc not in (0, 1) and "WARNING: ThreadSanitizer" not in err:
                c.violation("%s:%s" % (mode, crash_key(err, "exit %s" % rc)), dict(where, report=err[-3000:], out=out[-500:]))
            elif rc and "BAD" not in out and "ThreadSanitizer" not in err:
                c.violation("%s:exit" % mode, dict(where, report=err[-2000:]))

    # from the language
    r = c.sub("lang")
    R = [Run(c, "rel", 1), Run(c, "asan", 1), Run(c, "rel", 4)]
    AL = "abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789_.-/ +*<>=!?:;,%&"

    def word():
        k = r.random()
        if k < 0.5:
            return "".join(r.choice(AL[:26]) for _ in range(r.randrange(1, 4)))
        return "".join(r.choice(AL) for _ in range(r.choice((1, 2, 3, 5, 9, 17, 40, 200))))

    def lit(s):
        return '"' + s + '"'
    pool = [word() for _ in range(300)]
    for i in range(c.scale(3000, 60000)):
        a = r.choice(pool)
        b = r.choice(pool) if r.random() < 0.6 else a if r.random() < 0.4 else a + r.choice(AL[:20])
        k = r.random()
        w = R[i % 3]
        if k < 0.4:
            w.add("lang: ==", [], "(== (as 'symbol %s) (as 'symbol %s))" % (lit(a), lit(b)), ("b8", int(a == b)))
        elif k < 0.7:
            w.add("lang: text", [], "(as 'C8 (as 'symbol %s))" % lit(a), ("C8", a))
        else:
            ws = [r.choice(pool[:40]) for _ in range(r.randrange(1, 30))]
            w.add("lang: distinct", [], "(count (distinct (as 'SYMBOL (list %s))))" % " ".join(map(lit, ws)), ("i64", len(set(ws))))
    for w in R:
        w.flush()
    return c.finish(min_cases=c.scale(1000000, 10000000))


if __name__ == "__main__":
    main(run)
