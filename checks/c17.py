"""C17: the number of threads never changes a result."""
import os, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, crash_key, main
from drv import Rfh, Died
from bigg import Big, prelude, sites
from val import norm, same, diff


class Job:
    def __init__(self, top, variant, cores, pre, es, tag):
        self.variant, self.cores, self.pre, self.es = variant, cores, pre, es
        self.cwd = os.path.join(top, "%s-%d-%s" % (variant, cores, tag))
        os.mkdir(self.cwd)

    def start(self):
        p = Rfh(self.variant, self.cores, timeout=240, cwd=self.cwd)
        p.run(self.pre)
        return p

    def run(self):
        out, self.o, p = [], [], None
        for i in range(0, len(self.es), 25):
            rest = self.es[i:i + 25]
            while rest:
                try:
                    p = p or self.start()
                    a = p.run([Rfh.X(e) for e in rest])
                    out += [(x, None) for x in a]
                    rest = []
                except Died as d:
                    p.close()
                    p = None
                    k = min(d.at, len(rest) - 1)
                    if k:
                        try:
                            p = self.start()
                            out += [(x, None) for x in p.run([Rfh.X(e) for e in rest[:k]])]
                        except Died:
                            out += [(None, d)] * k
                            p = None
                    out.append((None, d))
                    rest = rest[k + 1:]
        if p:
            try:
                self.o.append(p.one(b"O\n"))
            except Died as d:
                pass
            self.exe = p.exe
            p.close()
        return out


def full(job, e):
    p = job.start()
    try:
        return p.one(Rfh.E(e))
    except Died as d:
        return {"died": d.how}
    finally:
        p.close()


def main_c17():
    chk = Check("C17")
    chk.rule = "distinct (expression, thread count) pairs whose answer was compared with the answer of one thread"
    sums = {}
    nerr = nval = nfloat = 0
    rounds = [("rel", (1, 2, 3, 5, 8), chk.scale(980, 15000)), ("asan", (1, 4, 7), chk.scale(240, 3500))]
    top = tempfile.mkdtemp(prefix="rf-c17-")
    try:
        for variant, cores, n in rounds:
            r = chk.sub(variant)
            pre = prelude(r)
            g = Big(r)
            es = []
            while len(es) < n:
                e = g.one()
                if "(rand " not in e and not ("med" in e and "by" in e and (variant == "asan" or r.random() < 0.9)) and not (variant == "asan" and "write-csv" in e):
                    es.append(e)
            per = chk.scale(140 if variant == "rel" else 80, 300)
            jobs = [(c, Job(top, variant, c, pre, es[i:i + per], i), i) for c in cores for i in range(0, n, per)]
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda j: j[1].run(), jobs))
            base = {}
            for (c, j, i), a in zip(jobs, rs):
                if c == 1:
                    base[i] = (j, a)
            o = []
            for (c, j, i), a in zip(jobs, rs):
                if c == 1:
                    for e, (x, d) in zip(j.es, a):
                        nerr += x is not None and x["t"] == 127
                        nval += x is not None and x["t"] != 127
                        if d is not None:
                            chk.violation("one thread: " + crash_key(d.text, d.how), {"variant": variant, "cores": 1, "expr": e, "how": d.how, "report": d.text[-2000:]})
                    continue
                o += j.o
                b = base[i][1]
                for e, (x, dx), (y, dy) in zip(j.es, b, a):
                    chk.case("%s/%d" % (variant, c), e)
                    if dy is not None:
                        if dx is None:
                            chk.violation("threads: " + crash_key(dy.text, dy.how), {"variant": variant, "cores": c, "expr": e, "how": dy.how, "report": dy.text[-2000:]})
                        continue
                    if dx is not None:
                        continue
                    if any(y["st"]):
                        chk.violation("state left behind: %s" % e.split(" ")[0], {"variant": variant, "cores": c, "expr": e, "state": y["st"]})
                    if (x["t"], x["h"], x.get("e")) == (y["t"], y["h"], y.get("e")):
                        continue
                    if x["t"] == y["t"] and x["t"] != 127:
                        # only floats may differ, and only by rounding
                        u, v = full(base[i][0], e), full(j, e)
                        if "v" in u and "v" in v and same(norm(u["v"]), norm(v["v"]), 1e-9):
                            nfloat += 1
                            continue
                    else:
                        u = v = None
                    chk.violation("differs: %s" % e.split(" ")[0].strip("("), {"variant": variant, "cores": c, "expr": e, "one": x, "many": y, "one_value": str(u)[:300], "many_value": str(v)[:300]})
            exe = [j.exe for c, j, i in jobs if c > 1][0]
            for k, v in sites(o, exe).items():
                t = sums.setdefault(k.split(" ")[0], [0, 0])
                t[0] += v[0]
                t[1] += v[1]
            for e in es[:6]:
                chk.sample(e)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    chk.extra["single_thread_endings"] = {"value": nval, "error": nerr}
    chk.extra["parallel_runs_by_caller"] = {k: {"runs": v[0], "tasks": v[1]} for k, v in sorted(sums.items())}
    chk.extra["compared_with_tolerance"] = nfloat
    if sum(v[0] for v in sums.values()) < 500:
        chk.inconclusive.append("few parallel runs observed")
    return chk.finish(min_cases=500)


if __name__ == "__main__":
    main(main_c17)
