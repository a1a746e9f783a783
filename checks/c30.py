"""C30: the calendar. A native harness sweeps every day of years 1..9999, every second of the day and
timestamps around every midnight against its own calendar; expressions over temporal values are then
judged with Python's datetime."""
import datetime as dt, os, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
from chk import Check, main, crash_key
from drv import SAN_ENV
from fun import Run
from val import *

E0 = dt.date(2000, 1, 1).toordinal()
DAYNS = 86400 * 10**9


def dtxt(d):
    x = dt.date.fromordinal(E0 + d)
    return "%04d.%02d.%02d" % (x.year, x.month, x.day)


def ttxt(ms):
    s, a = ("-", -ms) if ms < 0 else ("", ms)
    return "%s%02d:%02d:%02d.%03d" % (s, a // 3600000, a // 60000 % 60, a // 1000 % 60, a % 1000)


def ptxt(v):
    d, n = divmod(v, DAYNS)
    s, n = divmod(n, 10**9)
    return "%sD%02d:%02d:%02d.%09d" % (dtxt(d), s // 3600, s // 60 % 60, s % 60, n)


def run():
    c = Check("C30")
    c.rule = ("one temporal value converted one way, or one expression over temporal literals, compared with an independent "
              "calendar; sweeps are exhaustive over the days 0001.01.01..9999.12.31 and the seconds of a day")
    env = dict(os.environ)
    env.update(SAN_ENV)
    for variant, step, n in (("rel", c.scale(13, 1), c.scale(20000, 3000000)), ("asan", c.scale(211, 7), c.scale(5000, 300000))):
        exe = build.harness(variant, "cal", ("cal.c", "mon.c"))
        p = subprocess.run([exe, str(step), str(n), str(c.seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=800)
        out = p.stdout.decode("latin1")
        for l in out.splitlines():
            if l.startswith("CASES "):
                k, m = l[6:].split("|")
                c.case("%s (%s)" % (k, variant), ident="sweep", n=int(m))
                c.extra.setdefault("sweep", {})["%s %s" % (variant, k)] = int(m)
            elif l.startswith("BAD "):
                key = l[4:]
                c.violation("sweep:" + " ".join(key.split()[:3]), {"variant": variant, "step": step, "line": l})
        if p.returncode or "TOTALBAD" not in out:
            c.violation("crash:sweep:" + crash_key(p.stderr.decode("latin1"), "exit %s" % p.returncode),
                        {"variant": variant, "report": p.stderr.decode("latin1")[-3000:]})
    r = c.sub("expr")
    R, A, R4 = Run(c, "rel", 1), Run(c, "asan", 1), Run(c, "rel", 4)

    def day():
        m = r.random()
        if m < 0.5:
            return r.randrange(-40000, 40000)
        if m < 0.8:                       # around year and month ends and leap days
            y, mo = r.randrange(1701, 2299), r.choice([1, 2, 3, 3, 12])
            return dt.date(y, mo, 1).toordinal() - E0 + r.choice([-2, -1, 0, 1])
        return r.randrange(-730119, 2921940)

    def ms():
        return r.choice([0, 1, 999, 1000, 59999, 3600000, 86399999, -1, -86399999, r.randrange(-86399999, 86400000), r.randrange(86400000)])

    def ns():
        d = r.randrange(-100000, 100000)
        return d * DAYNS + r.choice([0, 1, DAYNS - 1, DAYNS // 2, r.randrange(DAYNS)])

    def add(cls, e, w):
        r.choice([R, R, A]).add(cls, [], e, w, key=cls)
    for _ in range(c.scale(250, 5000)):
        d, k, m, v = day(), r.randrange(-3000, 3000), ms(), ns()
        if -730119 <= d + k <= 2921939:
            add("date plus days", "(+ %s %d)" % (dtxt(d), k), ("date", d + k))
            add("date minus days", "(- %s %di)" % (dtxt(d + k), k), ("date", d))
            add("days between dates", "(- %s %s)" % (dtxt(d + k), dtxt(d)), ("i32", k))
        if abs(d) < 100000:
            add("date plus time", "(+ %s %s)" % (dtxt(d), ttxt(m)), ("timestamp", d * DAYNS + m * 10**6))
            add("date minus time", "(- %s %s)" % (dtxt(d), ttxt(m)), ("timestamp", d * DAYNS - m * 10**6))
            m2 = abs(m)
            add("date and time read as one", "(+ %s %s)" % (dtxt(d), ttxt(m2)),
                ("timestamp", d * DAYNS + m2 * 10**6))
            add("date compares with timestamp", "(list (< %s %s) (== %s %s) (> %s %s))" % ((dtxt(d), ptxt(v)) * 3),
                ("list", [("b8", int(d * DAYNS < v)), ("b8", int(d * DAYNS == v)), ("b8", int(d * DAYNS > v))]))
        add("timestamp plus nanoseconds", "(+ %s %d)" % (ptxt(v), k * 10**9 + 7), ("timestamp", v + k * 10**9 + 7))
        add("timestamp plus time", "(+ %s %s)" % (ptxt(v), ttxt(m)), ("timestamp", v + m * 10**6))
        w = ns()
        if abs(v - w) < 2**63:
            add("nanoseconds between", "(- %s %s)" % (ptxt(v), ptxt(w)), ("i64", v - w))
        add("time order", "(< %s %s)" % (ttxt(m), ttxt(k)), ("b8", int(m < k)))
        b = r.choice([1, 7, 30, 365])
        add("date bar", "(xbar %s %di)" % (dtxt(d), b), ("date", d // b * b))
        bt = r.choice([1, 1000, 60000, 300000, 3600000])
        add("time bar", "(xbar %s %s)" % (ttxt(m), ttxt(bt)), ("time", m // bt * bt))
        add("timestamp bar", "(xbar %s %s)" % (ptxt(v), ttxt(bt)), ("timestamp", v // (bt * 10**6) * bt * 10**6))
        add("timestamp day bar", "(xbar %s %d)" % (ptxt(v), DAYNS), ("timestamp", v // DAYNS * DAYNS))
        add("date from string", "(as 'date \"%s\")" % dtxt(d), ("date", d))
        add("time from string", "(as 'time \"%s\")" % ttxt(m), ("time", m))
        add("timestamp from string", "(as 'timestamp \"%s\")" % ptxt(v), ("timestamp", v))
        add("date to string", "(as 'C8 %s)" % dtxt(d), ("C8", dtxt(d)))
        add("time to string", "(as 'C8 %s)" % ttxt(m), ("C8", ttxt(m)))
        add("timestamp to string", "(as 'C8 %s)" % ptxt(v), ("C8", ptxt(v)))
        add("date number", "(as 'i32 %s)" % dtxt(d), ("i32", d))
        add("number date", "(as 'date %di)" % d, ("date", d))
        add("time number", "(as 'i32 %s)" % ttxt(m), ("i32", m))
        add("number time", "(as 'time %di)" % m, ("time", m))
        add("timestamp number", "(as 'i64 %s)" % ptxt(v), ("i64", v))
        add("number timestamp", "(as 'timestamp %d)" % v, ("timestamp", v))
        add("date symbol", "(as 'symbol %s)" % dtxt(d), ("symbol", dtxt(d)))
    # literal vectors and vector arithmetic, long ones in parallel
    for i in range(c.scale(40, 300)):
        n = r.choice([1, 2, 5, 17])
        ds, ts, ps = [day() for _ in range(n)], [ms() for _ in range(n)], [ns() for _ in range(n)]
        add("date vector literal", "[%s]" % " ".join(map(dtxt, ds)), ("DATE", ds))
        add("time vector literal", "[%s]" % " ".join(map(ttxt, ts)), ("TIME", ts))
        add("timestamp vector literal", "[%s]" % " ".join(map(ptxt, ps)), ("TIMESTAMP", ps))
        add("string list to dates", "(as 'DATE (list %s))" % " ".join('"%s"' % dtxt(x) for x in ds), ("DATE", ds))
        add("string list to timestamps", "(as 'TIMESTAMP (list %s))" % " ".join('"%s"' % ptxt(x) for x in ps), ("TIMESTAMP", ps))
    for i in range(c.scale(3, 20)):
        n = r.choice([16384, 20001, 40000])
        ds, ts = [r.randrange(-90000, 90000) for _ in range(n)], [ms() for _ in range(n)]
        for q in (R4, R):
            q.add("long date plus time", [("d", ("DATE", ds)), ("t", ("TIME", ts))], "(+ d t)",
                  ("TIMESTAMP", [a * DAYNS + b * 10**6 for a, b in zip(ds, ts)]), ident=(i, q.cores))
            q.add("long date bar", [("d", ("DATE", ds))], "(xbar d 7)", ("DATE", [a // 7 * 7 for a in ds]), ident=(i, q.cores))
    # texts that name no temporal value
    for T, bad in (("date", ["", "x", "2024", "2024.01", "2024.13.01", "2024.01.32", "2024.00.10", "2024.01.00"]),
                   ("time", ["", "x", "10", "10:00", "10:00:0x", "1:2:3:4:5"]),
                   ("timestamp", ["", "x", "2024", "2024.13.01D00:00:00.0", "2024-01-32", "2024-13-01 00:00:00", "2024-01-01 24:00:00",
                                  "2024-01-01 00:60:00", "2024-01-01 00:00:60", "2024-1-01"])):
        for b in bad:
            if b == "" :
                continue
            add("not a " + T, "(as '%s %s)" % (T, strlit(b)), (T, None))
    for T in ("date", "time", "timestamp"):
        add("null text", "(as 'C8 0N%s)" % {"date": "d", "time": "t", "timestamp": "p"}[T], ("C8", {"date": "0Nd", "time": "0Nt", "timestamp": "0Np"}[T]))
    # the clock
    os.environ["TZ"] = "UTC"
    for z in ("utc", "local"):
        for _ in range(3):
            t0 = time.time_ns()

            def near(got, z=z):
                now = time.time_ns() - 946684800 * 10**9
                if got[0] != "timestamp":
                    return "want a timestamp"
                tol = 3600 * 10**9 * (0 if z == "utc" else 15) + 300 * 10**9
                return None if abs(got[1] - now) < tol else "the clock says %d" % now
            R.add("clock", [], "(timestamp '%s)" % z, near, ident=(z, _))
        R.add("clock date", [], "(do (set a (timestamp '%s)) (set d (date '%s)) (set t (time '%s)) (set b (timestamp '%s)) (and (<= (- a 1000000) (+ d t)) (<= (+ d t) b)))" % (z, z, z, z),
              lambda got: None if got == ("b8", 1) or time.time() % 86400 < 120 or time.time() % 86400 > 86280 else "date + time is not now", ident=z)
    for q in (R, A, R4):
        q.close()
    return c.finish(3000000)


main(run)
