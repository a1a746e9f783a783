"""C20: the worker pool, driven directly through its own interface. poolm logs every execution of every task (its
arguments, how often, on which thread), checks results by position, and delays the pool's lock and condition calls
at random; runs and the shutdown of the process must end."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from chk import Check, main, crash_key, tsan_reports
from drv import SAN_ENV

LINK = ["-Wl,--wrap=pthread_%s" % x for x in ("mutex_lock", "mutex_unlock", "cond_wait", "cond_signal", "cond_broadcast")]


def run():
    c = Check("C20")
    c.rule = ("one task of one run: executed exactly once, with the arguments it was given (0 to 8 of them), its result at its own "
              "position, an error if any task failed, none still running when the run returns; or one start-up, a few runs and one "
              "shutdown that must complete. Distinct: (variant, threads, seed) schedules")
    c.assumptions = ["delays (0 to 400 us, yields, spurious wake-ups) are injected around the pool's mutex and condition calls and "
                     "inside tasks; between other instructions the operating system's scheduler decides"]
    vs = ("rel", "asan", "tsan", "tsanheap", "asanheap")
    exe = {v: build.harness(v, "poolm", ("poolm.c",), link=LINK, wrap=False) for v in vs}
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["TSAN_OPTIONS"] = "halt_on_error=0:second_deadlock_stack=1:exitcode=66"
    jobs = []
    S = c.seed * 1000
    for cores in (1, 2, 3, 4, 8, 16):
        for k in range(c.scale(2, 12)):
            jobs.append(("rel", ["run", S + k, cores, c.scale(200, 3000), 1], 1))
            jobs.append(("rel", ["map", S + k, cores, c.scale(200, 3000)], 1))
        jobs.append(("rel", ["run", S + 70, cores, c.scale(1500, 30000), 0], 1))
        for v in ("asan", "asanheap", "tsan", "tsanheap"):
            jobs.append((v, ["run", S + 80, cores, c.scale(40, 500), 1], 1))
            jobs.append((v, ["map", S + 80, cores, c.scale(40, 500)], 1))
    for k in range(c.scale(150, 5000)):
        jobs.append((("rel", "rel", "rel", "asanheap", "tsan")[k % 5], ["stop", S + k, 1 + k % 12, k % 4], 1))

    def one(j):
        v, a, _ = j
        try:
            p = subprocess.run([exe[v]] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                               timeout=c.scale(60, 1500) if a[0] != "stop" else 60)
            return v, a, p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired as e:
            return v, a, "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")

    tot = {}
    with ThreadPoolExecutor(5) as ex:
        for v, a, rc, out, err in ex.map(one, jobs):
            mode, where = a[0], {"variant": v, "args": a, "rc": rc}
            for l in out.splitlines():
                if l.startswith("BAD "):
                    c.violation("%s:%s" % (mode, l.split()[1]), dict(where, line=l))
                elif l.startswith("{"):
                    o = json.loads(l)
                    for k, n in o.items():
                        if k != "threads_seen":
                            tot["%s %s" % (mode, k)] = tot.get("%s %s" % (mode, k), 0) + n
                    if o.get("threads_seen"):
                        t = c.extra.setdefault("threads_that_ran_tasks", {})
                        t[str(o["threads_seen"])] = t.get(str(o["threads_seen"]), 0) + 1
                    c.case("%s on %d threads (%s)" % (mode, a[2], v), ident="%s" % a, n=o.get("tasks", o.get("chunks", 1)) or 1)
                    c.sample({"run": [v] + a, "observed": o}, 6)
            for rep in tsan_reports(err):
                c.violation("race:" + crash_key(rep), dict(where, report=rep[:3000]))
            if rc == "timeout":
                c.violation("%s:hang" % mode, where)
            elif rc not in (0, 1) and "WARNING: ThreadSanitizer" not in err:
                c.violation("%s:%s" % (mode, crash_key(err, "exit %s" % rc)), dict(where, report=err[-3000:], out=out[-500:]))
            elif mode == "stop" and "STOPPED" not in out:
                c.violation("stop:unfinished", dict(where, report=err[-2000:]))
            elif rc and "BAD" not in out and "ThreadSanitizer" not in err:
                c.violation("%s:exit" % mode, dict(where, report=err[-2000:]))
    c.extra["totals"] = tot
    return c.finish(min_cases=c.scale(100000, 1000000))


if __name__ == "__main__":
    main(run)
