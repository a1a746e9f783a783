"""C19: the allocator. heapm keeps a shadow of every live block (address, size, contents) through histories of
allocations, reallocations and frees: with one thread playing all of the interpreter's heaps (borrowing and merging
included), and with the real worker pool, whose tasks pass blocks to each other and to the main thread."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from chk import Check, main, crash_key, tsan_reports
from drv import SAN_ENV


def run():
    c = Check("C19")
    c.rule = ("one allocation, reallocation or free, checked against a shadow of all live blocks: no overlap, alignment to 16, "
              "contents unchanged at free/realloc/end, all memory available again once all blocks are free, and the same "
              "histories repeated do not enlarge the process")
    c.assumptions = ["the shipped allocator (no SYS_MALLOC) in the release, ASan/UBSan and TSan builds",
                     "anonymous memory suffices: pools backed by files, taken when the system has none, are outside"]
    exe = {}
    with ThreadPoolExecutor(3) as ex:
        for v, p in zip(("rel", "asanheap", "tsanheap"), ex.map(lambda v: build.harness(v, "heapm", ("heapm.c",), wrap=False), ("rel", "asanheap", "tsanheap"))):
            exe[v] = p
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["TSAN_OPTIONS"] = "halt_on_error=0:second_deadlock_stack=1:exitcode=66"
    jobs = []
    S = c.seed * 100
    for k in range(c.scale(4, 24)):
        for heaps in (1, 2, 3, 4, 6, 9):
            jobs.append(("rel", ["sim", S + k, c.scale(60000, 600000), heaps, (12, 18, 22, 26)[k % 4], 8]))
    for k in range(c.scale(2, 10)):
        for heaps in (1, 3, 5):
            jobs.append(("asanheap", ["sim", S + 50 + k, c.scale(30000, 300000), heaps, (14, 24)[k % 2], 6]))
    for k in range(c.scale(3, 12)):
        for cores in (2, 4, 8):
            jobs.append(("rel", ["thr", S + k, cores, c.scale(60, 400), 40, c.scale(300, 600)]))
    for k in range(c.scale(2, 8)):
        for cores in (2, 5, 8):
            jobs.append(("tsanheap", ["thr", S + 20 + k, cores, c.scale(20, 100), 40, c.scale(150, 300)]))
        jobs.append(("asanheap", ["thr", S + 40 + k, 4, c.scale(20, 100), 40, 300]))

    def one(j):
        v, a = j
        try:
            p = subprocess.run([exe[v]] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=c.scale(240, 3000))
            return v, a, p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired as e:
            return v, a, "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")

    tot = {}
    with ThreadPoolExecutor(4) as ex:
        for v, a, rc, out, err in ex.map(one, jobs):
            mode = a[0]
            where = {"variant": v, "args": a, "rc": rc}
            for l in out.splitlines():
                if l.startswith("BAD "):
                    c.violation("%s:%s" % (mode, l.split()[1]), dict(where, line=l))
                elif l.startswith("{"):
                    o = json.loads(l)
                    for k, n in o.items():
                        if not k.startswith("peak"):
                            tot["%s %s %s" % (mode, v, k)] = tot.get("%s %s %s" % (mode, v, k), 0) + n
                    for k in ("alloc", "free", "realloc", "handed_over"):
                        if o.get(k):
                            c.case("%s %s (%s)" % (mode, k, v), ident="%s" % a, n=o[k])
                    c.sample({"run": [v] + a, "observed": o}, 6)
            for rep in tsan_reports(err):
                c.violation("race:" + crash_key(rep), dict(where, report=rep[:3000]))
            if rc == "timeout":
                c.violation("%s:hang" % mode, where)
            elif rc not in (0, 1) and "WARNING: ThreadSanitizer" not in err:
                c.violation("%s:%s" % (mode, crash_key(err, "exit %s" % rc)), dict(where, report=err[-3000:], out=out[-500:]))
            elif rc and "BAD" not in out and "ThreadSanitizer" not in err:
                c.violation("%s:exit" % mode, dict(where, report=err[-2000:]))
    c.extra["totals"] = tot
    return c.finish(min_cases=c.scale(1000000, 20000000))


if __name__ == "__main__":
    main(run)
