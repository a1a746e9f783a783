"""C28: every request answered once, in order, to its sender. Clients log what they send and what arrives; a
model of the server's variables says what each answer has to be."""
import os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main, crash_key
from ipcm import *
import ipcm, drv

USER, PARSE = 11, 4
ipcm.ERRN["user"] = USER


def prelude(n):
    s = PRELUDE + "(set naps 0)\n"
    for i in range(n):
        s += "(set n%d 0) (set b%d (fn [id] (do (set n%d (+ n%d 1)) (list n%d id))))\n" % (i, i, i, i, i)
    return s


def i64(n):
    return ("i64", n)


def plan(r, i, k, big):
    """items of connection i: [(message, type, what has to arrive for it)]"""
    out, cnt = [], 0
    ms = [m for m in MIX for _ in range(m[1])]
    for j in range(k):
        m = r.choice(ms)[0]
        ID = r.randrange(1 << 40)
        if m == "str":
            cnt += 1
            out.append((("str", "(b%d %d)" % (i, ID)), SYNC, [(RESP, ("list", [i64(cnt), i64(ID)]))]))
        elif m == "call":
            cnt += 1
            out.append((("list", [("sym", "b%d" % i), i64(ID)]), SYNC, [(RESP, ("list", [i64(cnt), i64(ID)]))]))
        elif m == "async":
            cnt += 1
            out.append((r.choice([("str", "(b%d 1)" % i), ("list", [("sym", "b%d" % i), i64(2)])]), ASYN, []))
        elif m == "add":
            b = r.randrange(1000)
            out.append((("list", [("bin", "+"), i64(ID), i64(b)]), SYNC, [(RESP, i64(ID + b))]))
        elif m == "var":
            out.append((("sym", "n%d" % i), SYNC, [(RESP, i64(cnt))]))
        elif m == "err":
            out.append((("str", '(raise "E%d")' % ID), r.choice([SYNC, SYNC, ASYN]), [(RESP, ("err", USER, b"E%d" % ID))]))
            if out[-1][1] == ASYN:
                out[-1] = out[-1][:2] + ([],)
        elif m == "parse":
            out.append((("str", "(+ 1 %d" % ID), SYNC, [(RESP, ("err",))]))
        elif m == "null":
            out.append((("str", "null"), SYNC, [(RESP, ("null",))]))
        elif m == "bigout":
            n = r.choice([10, 1000, 20000, 300000][: 4 if big else 3])
            out.append((("list", [("un", "til"), i64(n)]), SYNC, [(RESP, ("I64", list(range(n))))]))
        elif m == "bigin":
            n = r.choice([10, 1000, 20000, 400000][: 4 if big else 3])
            xs = [r.randrange(1000)] * n
            out.append((("list", [("un", "sum"), ("I64", xs)]), SYNC, [(RESP, i64(sum(xs)))]))
        elif m == "bigstr":
            n = r.choice([10, 3000, 200000])
            out.append((("list", [("un", "count"), ("str", "y" * n)]), SYNC, [(RESP, i64(n))]))
        elif m == "echo":
            n = r.choice([1, 50, 30000])
            s = bytes(r.choice(b"abc\0\xff") for _ in range(min(n, 40))) * (n // min(n, 40))
            out.append((("list", [("un", "reverse"), ("str", s)]), SYNC, [(RESP, ("str", s[::-1]))]))
        elif m == "push":
            out.append((("str", '(do (write (neg .z.w) "P%d") (write (neg .z.w) [%d 2]) %d)' % (ID, ID, ID)), SYNC,
                        [(ASYN, ("str", b"P%d" % ID)), (ASYN, ("I64", [ID, 2])), (RESP, i64(ID))]))
        elif m == "pushonly":
            out.append((("str", '(write (neg .z.w) "Q%d")' % ID), ASYN, [(ASYN, ("str", b"Q%d" % ID))]))
        elif m == "handle":
            out.append((("str", "(list .z.w %d)" % ID), SYNC, [(RESP, ("list", ["handle", i64(ID)]))]))
    return out, cnt


MIX = [("str", 6), ("call", 5), ("async", 6), ("add", 3), ("var", 3), ("err", 2), ("parse", 1), ("null", 1), ("bigout", 2), ("bigin", 2),
       ("bigstr", 1), ("echo", 2), ("push", 2), ("pushonly", 1), ("handle", 2)]


def match(w, g, st):
    """w: expected (type, value); st remembers the connection's handle"""
    if w[0] != g[0]:
        return False
    a, b = w[1], g[1]
    if a == ("err",):
        return b[0] == "err"
    if a[0] == "list" and a[1] and a[1][0] == "handle":
        if b[0] != "list" or len(b[1]) != 2 or b[1][1] != a[1][1] or b[1][0][0] != "i64":
            return False
        st.setdefault("h", b[1][0][1])
        return st["h"] == b[1][0][1]
    return a == b


def main_c28():
    chk = Check("C28")
    chk.rule = ("distinct (message kind, position, connection, schedule) requests answered; every connection's log of arrivals is compared "
                "with the log the model prescribes")
    stat = {"requests": 0, "async": 0, "pushes": 0, "bytes_out": 0, "bytes_in": 0, "writes": 0, "partial_reads": 0, "episodes": 0,
            "max_backlog": 0, "max_conns": 0, "stalls": 0}

    def dead(s, what):
        code, err = s.stop(1)
        chk.violation(crash_key(err, "exit %s" % code) if code not in (0,) else "server ended", {"where": what, "stderr": err[-3000:]})

    def episode(seed, variant, cores, nconn, k, short, big):
        r = random.Random("%s/ep/%d" % (seed, chk.seed))
        s = Server(variant, cores, prelude(nconn), short=short, seed=r.randrange(1, 1 << 30))
        try:
            _episode(r, s, nconn, k, big, "%s %s c%d n%d k%d short%d" % (seed, variant, cores, nconn, k, short))
        except Dead as e:
            chk.violation("no server", {"what": str(e)})
        finally:
            s.clean()

    def _episode(r, s, nconn, k, big, label):
        stat["episodes"] += 1
        stat["max_conns"] = max(stat["max_conns"], nconn)
        base = s.fds()
        cs, plans, todo, want, finals = [], [], [], [], []
        for i in range(nconn):
            c = Conn(s, rcvbuf=r.choice([None, None, 4096]), ready=r.random() < 0.5)
            p, cnt = plan(r, i, k, big)
            cs.append(c)
            todo.append(list(p))
            want.append([w for x in p for w in x[2]])
            finals.append(cnt)
            plans.append(p)
        style = [r.choice(["eager", "burst", "dribble", "lazy"]) for _ in cs]
        t0 = time.monotonic()
        last = [t0]
        ok = [0] * nconn
        sts = [{} for _ in cs]
        open_ = set(range(nconn))
        while open_:
            i = r.choice(sorted(open_))
            c = cs[i]
            # queue
            q = {"eager": 1, "burst": len(todo[i]), "dribble": 1, "lazy": len(todo[i])}[style[i]]
            while todo[i] and q and (len(c.out) < (1 << 22)):
                v, ty, w = todo[i].pop(0)
                c.put(v, ty)
                stat["requests" if ty == SYNC else "async"] += 1
                q -= 1
            # write
            m = r.random()
            lim = {"eager": 1 << 18, "burst": 1 << 18, "dribble": r.choice([1, 2, 3, 7, 15, 16, 17, 64]) if len(c.out) < 5000 else 1 << 17,
                   "lazy": 1 << 18}[style[i]]
            n = c.send(lim if m < 0.8 else r.choice([1, 5, 16, 300]))
            stat["writes"] += bool(n)
            stat["bytes_out"] += n
            # read: the lazy ones only when everything is written or the server cannot go on
            if style[i] == "lazy" and (todo[i] or c.out) and n:
                stat["stalls"] += 1
            else:
                k_ = r.choice([1 << 18, 1 << 18, 1000, 17, 3]) if len(c.inb) < 1000 else 1 << 18
                g = c.recv(k_)
                stat["bytes_in"] += g
                stat["partial_reads"] += bool(c.inb)
                n += g
            if n:
                last[0] = time.monotonic()
            # judge what has arrived
            while ok[i] < len(c.msgs):
                j = ok[i]
                g = c.msgs[j]
                if j >= len(want[i]):
                    chk.violation("more answers than requests", {"episode": label, "conn": i, "extra": show(g)})
                    return
                if not match(want[i][j], g, sts[i]):
                    chk.violation("wrong answer", {"episode": label, "conn": i, "style": style[i], "position": j, "want": show(want[i][j]), "got": show(g),
                                                   "next": show(c.msgs[j + 1:j + 3], 300)})
                    return
                ok[i] += 1
                stat["pushes"] += g[0] == ASYN
                chk.case("answer:" + want[i][j][1][0], "%s/%d/%d" % (label, i, j))
            stat["max_backlog"] = max(stat["max_backlog"], len(want[i]) - ok[i])
            if ok[i] == len(want[i]) and not todo[i] and not c.out:
                open_.discard(i)
            if c.eof:
                if not s.alive() or s.stderr().strip():
                    dead(s, label)
                else:
                    chk.violation("connection ended", {"episode": label, "conn": i, "how": c.eof, "answered": ok[i], "of": len(want[i])})
                return
            if not n and time.monotonic() - last[0] > 0.02:
                select.select([cs[x] for x in open_], [cs[x] for x in open_ if cs[x].out], [], 0.2)
                if time.monotonic() - last[0] > 40:
                    if not s.alive():
                        dead(s, label)
                    else:
                        chk.violation("no answer", {"episode": label, "conns": [(x, style[x], ok[x], len(want[x]), len(todo[x]), len(cs[x].out), show(want[x][ok[x]:ok[x] + 1]))
                                                                               for x in sorted(open_)][:6]})
                    return
        # nothing else may arrive, and everything asynchronous has been evaluated once
        q = Conn(s)
        for i in range(nconn):
            deadline = time.monotonic() + 40
            a = None
            while time.monotonic() < deadline:
                a = q.ask(("sym", "n%d" % i))
                if a == (RESP, i64(finals[i])):
                    break
                time.sleep(0.01)
            if a != (RESP, i64(finals[i])):
                chk.violation("asynchronous messages", {"episode": label, "conn": i, "evaluated": show(a), "sent": finals[i]})
                return
            chk.case("final counter", "%s/%d" % (label, i))
        for i, c in enumerate(cs):
            c.recv()
            if len(c.msgs) != len(want[i]):
                chk.violation("more answers than requests", {"episode": label, "conn": i, "extra": show(c.msgs[len(want[i]):], 300)})
                return
        hs = [st["h"] for st in sts if "h" in st]
        if len(set(hs)) != len(hs):
            chk.violation("handles shared", {"episode": label, "handles": hs})
        # the callbacks saw every connection once
        order = list(range(nconn))
        r.shuffle(order)
        for i in order:
            cs[i].close(r.choice(["fin", "rst"]))
        t = time.monotonic()
        while time.monotonic() - t < 30:
            a = q.ask("(list (asc opened) (asc closed) .z.w)")
            if a and a[1][0] == "list" and len(a[1][1][1][1]) >= nconn:
                break
            time.sleep(0.02)
        if not a or a[1][0] != "list":
            code, err = s.stop(2)
            chk.violation("callbacks" if code == 0 and "ERROR" not in err else crash_key(err, "exit %s" % code),
                          {"episode": label, "answer": show(a), "eof": q.eof, "stderr": err[-3000:]})
            return
        op, cl, me = a[1][1][0][1], a[1][1][1][1], a[1][1][2][1]
        live = list(op)
        for x in cl:
            if x in live:
                live.remove(x)
        # the first, empty connection of the start-up probe is closed before its greeting
        if len(op) != nconn + 1 or live != [me]:
            chk.violation("callbacks", {"episode": label, "opened": op, "closed": cl, "own": me})
        chk.case("callbacks", label)
        code, err = s.stop()
        if code != 0 or "ERROR" in err:
            chk.violation(crash_key(err, "exit %s" % code), {"episode": label, "stderr": err[-3000:]})

    # ---- requests of the server to its client, in the middle of the client's own
    def callbacks(seed, variant, rounds):
        r = random.Random("%s/cb/%d" % (seed, chk.seed))
        s = Server(variant, 1, prelude(4), short=r.choice([0, 200]), seed=r.randrange(1, 1 << 30))
        stn = [0]
        try:
            c, d = Conn(s), Conn(s)
            for j in range(rounds):
                ID, X = r.randrange(1 << 30), r.randrange(1 << 30)
                c.put(("str", '(+ %d (write .z.w "ask%d"))' % (ID, j)))
                nest = r.random() < 0.5
                base = len(c.msgs)
                if not c.pump_until(lambda c: len(c.msgs) > base, 20):
                    chk.violation("no request of the server", {"round": j, "alive": s.alive(), "stderr": s.stderr()[-2000:]})
                    return
                w = [(SYNC, ("str", b"ask%d" % j))]
                other = r.random() < 0.5
                if other:
                    d.put(("list", [("bin", "+"), i64(j), i64(1)]))
                    d.send()
                if nest:
                    c.put(("str", "(b1 %d)" % j), SYNC)
                    c.put(("str", "(b2 %d)" % j), ASYN)
                    if r.random() < 0.5:
                        c.pump_until(lambda c: len(c.msgs) >= base + 2, 20)
                    w.append((RESP, ("list", [i64(stn[0] + 1), i64(j)])))
                    stn[0] += 1
                c.put(i64(X), RESP)
                w.append((RESP, i64(ID + X)))
                c.pump_until(lambda c: len(c.msgs) >= base + len(w), 20)
                if c.msgs[base:] != w:
                    chk.violation("request of the server", {"round": j, "want": show(w, 300), "got": show(c.msgs[base:], 300), "nested": nest})
                    return
                if other:
                    d.pump_until(lambda d: len(d.msgs) > 0, 20)
                    if d.msgs != [(RESP, i64(j + 1))]:
                        chk.violation("other client meanwhile", {"round": j, "got": show(d.msgs)})
                        return
                    d.msgs.clear()
                chk.case("server request%s" % (" nested" if nest else ""), "%s/%d" % (seed, j))
            a = c.ask("(list n1 n2)")
            if a != (RESP, ("list", [i64(stn[0]), i64(stn[0])])):
                chk.violation("nested messages", {"want": stn[0], "got": show(a)})
            code, err = s.stop()
            if code != 0 or "ERROR" in err:
                chk.violation(crash_key(err, "exit %s" % code), {"stderr": err[-3000:]})
        finally:
            s.clean()

    # ---- the language's own client
    def language(seed, variant, rounds):
        r = random.Random("%s/lang/%d" % (seed, chk.seed))
        s1, s2 = Server(variant, 1, prelude(8), short=r.choice([0, 100]), seed=r.randrange(1, 1 << 30)), Server("rel", 1, prelude(8))
        q = drv.Rfh(variant, 1, timeout=60)
        doing = [""]

        def ev(e):
            doing[0] = e
            return q.run([q.E(e)])[0]["v"]
        try:
            cnt = [0] * 8

            def expect(e, w, cls):
                a = ev(e)
                chk.case("client:" + cls, "%s/%s" % (seed, e[:80]))
                ok = w(a) if callable(w) else a == w
                if not ok:
                    chk.violation("language client: " + cls, {"expr": e[:400], "want": "?" if callable(w) else show(w), "got": show(a), "stderr": s1.stderr()[-1500:]})
                return ok
            names = []
            for i in range(4):
                s = (s1, s2)[i % 2]
                a = ev('(do (set h%d (hopen "%s:%d"%s)) h%d)' % (i, r.choice(["127.0.0.1", "localhost"]), s.port, r.choice(["", " 5000"]), i))
                if a[0] != "i64":
                    chk.violation("hopen", {"got": show(a)})
                    return
            import json
            L = lambda n: ["i64", n]
            for j in range(rounds):
                i = r.randrange(4)
                v = i if i % 2 == 0 else i + 4      # counters of the two servers are apart
                m = r.randrange(12)
                ID = r.randrange(1 << 30)
                h = "h%d" % i
                if m == 0:
                    cnt[v] += 1
                    expect('(write %s "(b%d %d)")' % (h, v, ID), lambda a, w=(cnt[v], ID): flat(a) == list(w), "sync")
                elif m == 1:
                    cnt[v] += 1
                    expect("(write %s (list 'b%d %d))" % (h, v, ID), lambda a, w=(cnt[v], ID): flat(a) == list(w), "sync list")
                elif m == 2:
                    k = r.choice([1, 3, 40])
                    cnt[v] += k
                    expect("(do (map (fn [x] (write (neg %s) \"(b%d 0)\")) (til %d)) (write %s 'n%d))" % (h, v, k, h, v),
                           lambda a, w=cnt[v]: flat(a) == [w], "async then sync")
                elif m == 3:
                    n = r.choice([10, 100000, 700000])
                    expect("(sum (write %s (list til %d)))" % (h, n), lambda a, w=n * (n - 1) // 2: flat(a) == [w], "big answer")
                elif m == 4:
                    n = r.choice([10, 100000, 700000])
                    expect("(write %s (list sum (til %d)))" % (h, n), lambda a, w=n * (n - 1) // 2: flat(a) == [w], "big request")
                elif m == 5:
                    expect('(try (write %s "(raise \\"E%d\\")") (fn [e] e))' % (h, ID), lambda a, w="E%d" % ID: w in json.dumps(a), "remote error")
                elif m == 6:
                    # pushes that arrive before the answer are evaluated here
                    expect("(do (set got []) (write %s \"(do (write (neg .z.w) \\\"(set got (concat got %d))\\\") (write (neg .z.w) \\\"(set got (concat got 7))\\\") 5)\") got)" % (h, ID),
                           lambda a, w=[ID, 7]: flat(a) == w, "pushed")
                elif m == 7:
                    # the server asks back while it is being asked
                    expect("(do (set mine %d) (write %s \"(+ 1 (write .z.w \\\"(+ mine 1)\\\"))\"))" % (ID, h), lambda a, w=ID + 2: flat(a) == [w], "asked back")
                elif m == 8:
                    # through one server to the other
                    o = (s2, s1)[i % 2]
                    expect('(write %s "(do (set g (hopen \\"127.0.0.1:%d\\")) (set r (write g (list + %d 5))) (hclose g) r)")' % (h, o.port, ID),
                           lambda a, w=ID + 5: flat(a) == [w], "forwarded")
                elif m == 9:
                    # what was sent before hclose arrives
                    k, n = r.choice([1, 5]), r.choice([10, 300000])
                    cnt[v] += k
                    expect('(do (set t (hopen "127.0.0.1:%d")) (map (fn [x] (write (neg t) (list (fn [y] (b%d 1)) (til %d)))) (til %d)) (hclose t))' % ((s1, s2)[i % 2].port, v, n, k),
                           lambda a: True, "async then hclose")
                    dl = time.monotonic() + 20
                    while time.monotonic() < dl:
                        a = ev("(write %s 'n%d)" % (h, v))
                        if flat(a) == [cnt[v]]:
                            break
                        time.sleep(0.02)
                    if flat(a) != [cnt[v]]:
                        chk.violation("sent before hclose", {"evaluated": show(a), "sent": cnt[v], "k": k, "n": n})
                        return
                elif m == 10:
                    # a handle that is closed is not another one's
                    expect('(do (set t (hopen "127.0.0.1:%d")) (hclose t) (hclose t) (set u (hopen "127.0.0.1:%d")) (set w (hopen "127.0.0.1:%d")) (set z (list (!= u w) (write u "1") (write w "2"))) (hclose u) (hclose w) z)'
                           % (s1.port, s2.port, s1.port), lambda a: flat(a) == [1, 1, 2], "closed twice")
                else:
                    expect('(try (write 12345 "1") (fn [e] "no"))', lambda a: "no" in json.dumps(a) or a[0] == "err", "no such handle")
            # slow requests are waited for, and the next answer is the next request's
            expect('(write h0 "(do (rf-nap 3600) 41)")', lambda a: flat(a) == [41], "slow request")
            expect('(write h0 "42")', lambda a: flat(a) == [42], "after a slow request")
            # the timeout of hopen
            ls = socket.socket()
            ls.bind(("127.0.0.1", 0))
            ls.listen(5)
            t = time.monotonic()
            expect('(try (hopen "127.0.0.1:%d" 400) (fn [e] "late"))' % ls.getsockname()[1], lambda a: "late" in json.dumps(a) or a[0] == "err", "silent server")
            t = time.monotonic() - t
            if not 0.2 < t < 15:
                chk.violation("hopen timeout", {"asked_ms": 400, "took_s": t})
            ls.close()
            expect('(try (hopen "127.0.0.1:%d") (fn [e] "refused"))' % free_port(), lambda a: "refused" in json.dumps(a) or a[0] == "err", "nobody listens")
            fds = len(os.listdir("/proc/%d/fd" % q.p.pid))
            ev("(do (hclose h0) (hclose h1) (hclose h2) (hclose h3))")
            if len(os.listdir("/proc/%d/fd" % q.p.pid)) != fds - 4:
                chk.violation("descriptors of the client", {"before": fds, "after": len(os.listdir("/proc/%d/fd" % q.p.pid))})
            for s in (s1, s2):
                code, err = s.stop()
                if code != 0 or "ERROR" in err:
                    chk.violation(crash_key(err, "exit %s" % code), {"stderr": err[-3000:]})
        except drv.Died as e:
            chk.violation(crash_key(e.text, e.how), {"expr": doing[0][:500], "client": e.text[-2500:], "server": s1.stderr()[-2000:], "alive": (s1.alive(), s2.alive())})
        finally:
            q.kill()
            s1.clean()
            s2.clean()

    def flat(a):
        if a[0] in ("i64", "b8", "I64"):
            return a[1] if isinstance(a[1], list) else [int(a[1])]
        if a[0] == "list":
            return [y for x in a[1] for y in flat(x)]
        return [a]

    jobs = []
    n = chk.scale(9, 90)
    for e in range(n):
        jobs += [lambda e=e: episode("a%d" % e, "asan", 1, [1, 3, 8][e % 3], 40, [0, 150, 400][e % 3], False),
                 lambda e=e: episode("r%d" % e, "rel", [1, 1, 4][e % 3], [2, 6, 16][e % 3], 80, [0, 300, 50][e % 3], True),
                 lambda e=e: episode("b%d" % e, "asan", 1, 2, 25, 100 * (e % 2), True),
                 lambda e=e: callbacks("c%d" % e, ["asan", "rel"][e % 2], 25)]
    for e in range(chk.scale(4, 24)):
        jobs.append(lambda e=e: language("l%d" % e, ["asan", "rel"][e % 2], 40))
    build_all()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    chk.extra["observed"] = stat
    chk.assumptions = ["a peer that never reads its answers is not owed them; peers that close before reading theirs are C29's",
                       "loopback TCP; short transfers and interrupted calls are injected at send/recv"]
    return chk.finish(500)


def build_all():
    import build
    for v in ("asan", "rel"):
        build.harness(v, "ipcs", ("ipcs.c", "mon.c"), link=("-Wl,--wrap=send", "-Wl,--wrap=recv"))
        build.harness(v)


main(main_c28)
