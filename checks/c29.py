"""C29: hostile and dying peers. The server runs under sanitizers; a well-behaved client keeps asking; descriptors
and heap blocks are counted once every hostile connection is gone."""
import os, random, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main, crash_key
from ipcm import *
import ipcm, drv

ipcm.ERRN["user"] = 11
HAND = b"\x01\0"
i64 = lambda n: ("i64", n)
SIZES = [0, -1, 1, 2, 15, 16, 17, 255, 4096, 1 << 20, (1 << 20) - 16, (1 << 20) + 1, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 36, 1 << 38, (1 << 38) + 1,
         1 << 40, 1 << 62, (1 << 63) - 1, (1 << 63) - 17, -16, -17, -(1 << 31), -(1 << 63)]
CORPUS = ["[1 2 3]", "(list 1 2.5 'a \"str\" [1 2] (list 1 (list 2 'b)))", "(table [a b c] (list [1 2 3] [1.5 2.5 3.5] ['x 'y 'z]))",
          "(dict ['a 'b] (list 1 [2 3]))", "(fn [x y] (+ x (* y 2)))", "[2024.01.01 2024.02.03]", "(as 'guid [\"\"])", "\"hello\"", "(list + 1 2)",
          "(list (fn [x] (+ x 1)) 41)", "[true false]", "12:30:00.000", "(enum 'sym ['a 'b])", "(list 'quote 'a)", "null", "'abc", "0x1f", 
          "[1.5 0n]", "(list sum [1 2 3])", "2024.01.01D10:00:00.000000000", "(list)", "(list (list + 1 2) 3)"]

PRE = PRELUDE + """
(set sym ['a 'b 'c])
(set state 0)
(set bump (fn [k] (do (set state (+ state 1)) (list state k))))
"""
PRE_CB = """
(set sym ['a 'b 'c])
(set state 0)
(set npc 0)
(set bump (fn [k] (do (set state (+ state 1)) (list state k))))
(set npo 0)
(set .z.po (fn [h] (do (set npo (+ npo 1)) (if (== 0 (% npo 5)) (hclose h) (if (== 1 (% npo 5)) (raise "po") (if (== 2 (% npo 5)) (write (neg h) "hello") 0))))))
(set .z.pc (fn [h] (do (set npc (+ npc 1)) (hclose h) (try (write (neg h) "gone") (fn [e] 0)) (if (== 0 (% npc 3)) (raise "pc") (set .z.pc .z.pc)))))
"""


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        m = r.randrange(7)
        if not b:
            break
        i = r.randrange(len(b))
        if m == 0:
            b[i] ^= 1 << r.randrange(8)
        elif m == 1:
            b[i] = r.choice([0, 1, 0x7f, 0x80, 0xff, 12, 98, 99, 100, 101, 127, 126])
        elif m == 2:
            del b[i:]
        elif m == 3:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 8])))
        elif m == 4:
            b[i:i + 8] = struct.pack("<q", r.choice([-1, 0, 1, 1 << 31, 1 << 40, (1 << 63) - 1, -(1 << 63), len(b), 5]))
        elif m == 5:
            del b[i:i + r.choice([1, 8])]
        else:
            b += b[i:]
    return bytes(b)


def main_c29():
    chk = Check("C29")
    chk.rule = "distinct hostile actions (bytes sent, point and way of disconnection) the server was observed under"
    stat = {"actions": 0, "good_answers": 0, "balance_checks": 0, "answers_to_hostile": 0, "closed_by_server": 0, "max_connections": 0}
    lock = threading.Lock()

    def session(seed, variant, pre, rounds, per, short):
        r = random.Random("%s/%d" % (seed, chk.seed))
        cb = pre is PRE_CB
        s = Server(variant, 1, pre, short=short, seed=r.randrange(1, 1 << 30))
        try:
            run(r, s, rounds, per, cb, "%s %s" % (seed, variant))
        except Dead as e:
            chk.violation("no server", {"what": str(e)})
        finally:
            s.clean()

    def run(r, s, rounds, per, cb, label):
        trace = []

        def bad(what, **kw):
            code, err = s.stop(2) if not s.alive() else (None, s.stderr())
            if not s.alive() or "ERROR" in err:
                what = crash_key(err, "exit %s" % code)
            kw.update({"label": label, "last": trace[-6:], "stderr": err[-2500:]})
            chk.violation(what, kw)
            raise StopIteration

        def good_conn():
            for _ in range(30):
                try:
                    c = Conn(s, ready=False)
                except OSError as e:
                    time.sleep(0.2)
                    bad("server gone" if not s.alive() else "connecting", error=repr(e))
                c.pump_until(lambda c: c.hands == 1, 20)
                if cb:      # these callbacks close some connections and greet others
                    a = c.ask("(+ 1 1)", 20)
                    if a is None and c.eof:
                        c.close()
                        continue
                    c.msgs.clear()
                    c.ask("(+ 1 1)", 20)
                    c.msgs.clear()
                return c
            bad("no connection for a well-behaved client")

        n = [0]

        def ask(wait=30):
            """the well-behaved client: its answer depends on all of its earlier ones"""
            n[0] += 1
            k = r.randrange(1 << 30)
            a = good.ask("(bump %d)" % k, wait)
            if a != (RESP, ("list", [i64(n[0]), i64(k)])):
                bad("well-behaved client", want=[n[0], k], got=show(a), eof=good.eof)
            with lock:
                stat["good_answers"] += 1

        try:
            good = good_conn()
            ask()
        except StopIteration:
            return
        # serialised forms of all kinds of values, from the server itself
        forms = []
        for e in CORPUS:
            good.raw = None
            a = good_raw(good, e)
            if a is not None:
                forms.append(a)
        # a fixed stock of damaged messages, all evaluated once before anything is counted: the names in
        # them stay known to the server, by design
        pool = [mutate(r, r.choice(forms)) for _ in range(150)]
        for i in range(0, len(pool), 10):
            c = Conn(s)
            for b in pool[i:i + 10]:
                c.out += msg(b, r.choice([0, 1])) if b else b""
            c.pump_until(lambda c: not c.out, 5)
            c.put(i64(0))
            c.pump_until(lambda c: c.msgs and c.msgs[-1] == (RESP, i64(0)), 2)
            c.close()
        held = []

        def act():
            m = os.environ.get("RF_ACT") or r.choice(ACTS)
            d = ACTIONS[m](r)
            trace.append("%s %s" % (m, show(d, 200)))
            chk.case(m, "%s/%s" % (label, d))
            with lock:
                stat["actions"] += 1

        def conn(**kw):
            return Conn(s, ready=kw.pop("ready", False), **kw)

        def flush(c, t=2.0):
            c.pump_until(lambda c: not c.out, t)

        def end(c, how=None):
            how = how or r.choice(["fin", "rst", "half", "hold", "read"])
            if how == "half":
                try:
                    c.half()
                except OSError:
                    pass
                held.append(c)
            elif how == "hold":
                held.append(c)
            elif how == "read":
                k = len(c.msgs)
                c.pump_until(lambda c: len(c.msgs) > k, 0.05)
                with lock:
                    stat["answers_to_hostile"] += len(c.msgs) > k
                    stat["closed_by_server"] += c.eof is not None
                c.close()
            else:
                c.close(how)
            return how

        def a_random(r):
            c = conn(hand=HAND if r.random() < 0.6 else b"")
            k = r.choice([0, 1, 2, 3, 15, 16, 17, 31, 100, 5000])
            b = bytes(r.randrange(256) for _ in range(min(k, 64))) * max(1, k // 64)
            if r.random() < 0.3:
                b = struct.pack("<I", PREFIX) + b
            c.out += b
            flush(c)
            return k, b[:8], end(c)

        def a_header(r):
            c = conn()
            z = r.choice(SIZES)
            p = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20, 300])))
            if r.random() < 0.3 and 0 < z <= 1 << 21:
                p = enc(("str", "x"))
            pre = PREFIX if r.random() < 0.9 else r.randrange(1 << 32)
            t = r.choice([0, 1, 2, 3, 255])
            c.out += struct.pack("<IBBBBq", pre, r.choice([1, 0, 255]), r.choice([0, 255]), r.choice([0, 1]), t, z) + p
            flush(c)
            return z, t, pre == PREFIX, len(p), end(c)

        def a_mutant(r):
            c = conn()
            k = r.choice([1, 1, 3])
            ms = []
            for _ in range(k):
                b = r.choice(pool)
                ms.append(b[:24])
                c.out += msg(b, r.choice([0, 1, 1, 2]))
            flush(c)
            return ms, end(c)

        def a_values(r):
            # well-formed messages of every kind, evaluated as they are
            c = conn()
            b = r.choice(forms)
            t = r.choice([0, 1, 2, 7])
            c.out += msg(b, t)
            flush(c)
            return b[:16], t, end(c)

        def a_cut(r):
            b = HAND + msg(enc(r.choice([("str", "(+ 1 2)"), ("list", [("bin", "+"), i64(1), i64(2)]), ("str", "(til 100)")])), r.choice([0, 1])) * r.choice([1, 2])
            c = conn(hand=b"")
            k = r.randrange(len(b) + 1)
            c.out += b[:k]
            flush(c)
            if r.random() < 0.3:
                time.sleep(0.002)
            return k, end(c, r.choice(["fin", "rst", "half"]))

        def a_handshake(r):
            c = conn(hand=b"")
            k = r.choice([1, 2, 3, 100, 5000])
            b = (b"user:" + b"p" * k)
            if r.random() < 0.4:
                b += b"\0" + msg(enc(("str", "(+ 1 2)")), 1)
            c.out += b
            flush(c)
            return k, end(c)

        def a_pipeline(r):
            c = conn(rcvbuf=4096)
            k = r.choice([1, 5, 60])
            big = r.choice([10, 1000, 60000])
            for _ in range(k):
                c.put(r.choice([("list", [("un", "til"), i64(big)]), ("str", "(til %d)" % big), ("str", "(raise \"x\")")]), r.choice([1, 1, 0]))
            flush(c, 0.5)
            return k, big, end(c)

        def a_nap(r):
            c = conn()
            c.put(("str", "(do (rf-nap %d) (til 1000))" % r.choice([1, 5, 20])))
            flush(c)
            return "nap", end(c, r.choice(["fin", "rst", "half"]))

        def a_selfclose(r):
            c = conn()
            k = r.choice(["(hclose .z.w)", "(do (hclose .z.w) (til 10))", "(do (hclose .z.w) (hclose .z.w))", "(do (write (neg .z.w) (til 50)) (hclose .z.w))",
                          "(do (hclose .z.w) (raise \"x\"))", "(do (hclose .z.w) (write .z.w 5))"])
            t = r.choice([0, 1])
            c.put(("str", k), t)
            if r.random() < 0.5:
                c.put(("str", "(+ 1 2)"), 1)
                c.put(("str", "(+ 1 2)"), 0)
            flush(c)
            return k, t, end(c)

        def a_closeother(r):
            # several connections with data waiting, one of which closes the others
            cs = [conn(ready=True) for _ in range(r.choice([2, 4]))]
            hs = []
            for c in cs:
                a = c.ask("(+ 0 .z.w)", 20) if not cb else None
                if a and a[1][0] == "i64":
                    hs.append(a[1][1])
            # the server naps, so that what follows arrives as one batch
            x = conn(ready=True)
            x.put(("str", "(rf-nap 15)"), 0)
            x.send()
            for c in cs:
                c.put(("str", "(do %s (+ 1 2))" % " ".join("(hclose %d)" % h for h in hs)), r.choice([0, 1]))
                c.send()
                if r.random() < 0.5:
                    c.close(r.choice(["fin", "rst"]))
            for c in cs:
                if not c.closed:
                    end(c)
            return len(cs), end(x)

        def a_asked(r):
            # the server asks a peer that answers wrongly or not in full; whoever made it ask has to get an error
            if cb:
                return "-"
            c = conn(ready=True)
            h = c.ask("(+ 0 .z.w)", 20)
            if not h or h[1][0] != "i64":
                bad("no handle", got=show(h))
            good.put(("str", '(try (do (write %d "q") "val") (fn [e] "fail"))' % h[1][1]))
            good.send()
            k = len(c.msgs)
            if not c.pump_until(lambda c: len(c.msgs) > k, 20):
                bad("the request to the peer never came")
            w = r.choice(["fin", "rst", "garbage", "half-message", "mutant", "close-after-message", "negative", "other messages"])
            if w == "garbage":
                c.out += bytes(r.randrange(256) for _ in range(64))
            elif w == "half-message":
                c.out += msg(enc(("str", "abc" * 50)), 2)[:r.randrange(1, 160)]
            elif w == "mutant":
                c.out += msg(r.choice(pool), 2)
            elif w == "close-after-message":
                c.put(("str", "fine"), 2)
            elif w == "negative":
                c.out += struct.pack("<IBBBBq", PREFIX, 1, 0, 0, 2, -5)
            elif w == "other messages":
                c.put(("str", "(raise \"in between\")"), 0)
                c.put(("str", "(hclose .z.w)"), r.choice([0, 1]))
                c.put(("str", "(+ 1 2)"), 1)
            flush(c)
            c.close("rst" if w == "rst" else "fin")
            k = len(good.msgs)
            if not good.pump_until(lambda g: len(g.msgs) > k, 20):
                bad("asking a failing peer hangs the server", how=w)
            a = good.msgs[k]
            if a not in ((RESP, ("str", b"fail")), (RESP, ("str", b"val"))) or (w in ("fin", "rst", "garbage", "half-message", "negative") and a[1][1] != b"fail"):
                bad("asking a failing peer", how=w, got=show(a))
            return w

        def a_deadwrite(r):
            if cb:
                return "-"
            c = conn(ready=True)
            h = c.ask("(+ 0 .z.w)", 20)
            if not h or h[1][0] != "i64":
                bad("no handle", got=show(h))
            # it dies while the server is busy writing to it
            good.put(("str", "(do (rf-nap %d) (try (do (write %d (til %d)) (write %d 1) (write %d 2)) (fn [e] 0)) \"done\")" %
                      (r.choice([0, 5]), -h[1][1], r.choice([1, 200000]), -h[1][1], -h[1][1])))
            good.send()
            c.close(r.choice(["fin", "rst"]))
            k = len(good.msgs)
            if not good.pump_until(lambda g: len(g.msgs) > k, 20) or good.msgs[k] != (RESP, ("str", b"done")):
                bad("writing to a dying peer", got=show(good.msgs[k:]))
            return "dead"

        def a_flood(r):
            k = r.choice([10, 60])
            cs = []
            for _ in range(k):
                c = conn(hand=r.choice([b"", HAND, b"\x01"]))
                c.send()
                cs.append(c)
            with lock:
                stat["max_connections"] = max(stat["max_connections"], k + len(held))
            r.shuffle(cs)
            for c in cs:
                c.close(r.choice(["fin", "rst"]))
            return k

        def a_stall(r):
            # asks for much and never reads
            c = conn(rcvbuf=4096)
            for _ in range(r.choice([3, 10])):
                c.put(("list", [("un", "til"), i64(r.choice([50000, 200000]))]))
            flush(c, 0.3)
            held.append(c)
            return len(held)

        ACTIONS = {"random bytes": a_random, "header": a_header, "mutant": a_mutant, "value": a_values, "cut": a_cut, "handshake": a_handshake,
                   "pipeline": a_pipeline, "nap": a_nap, "self-close": a_selfclose, "close others": a_closeother, "asked": a_asked, "dead write": a_deadwrite,
                   "flood": a_flood, "stall": a_stall}
        ACTS = ["random bytes"] * 3 + ["header"] * 4 + ["mutant"] * 6 + ["value"] * 3 + ["cut"] * 4 + ["handshake", "pipeline", "pipeline", "nap", "self-close", "self-close",
                "close others", "asked", "asked", "dead write", "flood", "stall"]
        base, slack = None, []
        try:
            for rd in range(rounds):
                for _ in range(per):
                    try:
                        act()
                    except OSError as e:
                        if not s.alive():
                            bad("server gone")
                        bad("connecting", error=repr(e))
                    if not s.alive():
                        bad("server gone")
                    if r.random() < 0.3:
                        ask()
                for c in held:
                    c.close(r.choice(["fin", "rst"]))
                held.clear()
                # everything hostile is gone: the server holds the listener and the well-behaved client
                t = time.monotonic()
                while s.alive() and s.fds() != 2 and time.monotonic() - t < 20:
                    time.sleep(0.01)
                if not s.alive():
                    bad("server gone")
                if s.fds() != 2:
                    bad("descriptors", open=s.fds())
                ask()
                with lock:
                    stat["balance_checks"] += 1
                if "script" in s.stderr():
                    bad("script")
                a = good.ask("(rf-blocks 0)")
                if not a or a[1][0] != "i64":
                    bad("blocks", got=show(a))
                b = a[1][1]
                if base is not None and rd >= 2 and b > base + 0:
                    slack.append((rd, b - base))
                base = b if base is None or rd < 2 else base
            if os.environ.get("RF_DEBUG"):
                print(label, "blocks", base, slack)
            if slack and slack[-1][0] == rounds - 1 and slack[-1][1] > 2:
                bad("blocks", base=base, later=slack[-8:], actions=rounds * per)
            slack.clear()
            good.close()
            code, err = s.stop()
            if code != 0 or "ERROR" in err:
                chk.violation(crash_key(err, "exit %s" % code), {"label": label, "stderr": err[-3000:]})
        except StopIteration:
            pass
        finally:
            for c in held:
                c.close()

    # ---- the language's client facing a server that misbehaves
    def hostile_server(seed, variant, rounds):
        r = random.Random("%s/hs/%d" % (seed, chk.seed))
        s = Server("rel", 1, PRE)
        c = Conn(s)
        forms = [f for f in (good_raw(c, e) for e in CORPUS) if f]
        s.clean()
        pool = [mutate(r, r.choice(forms)) for _ in range(80)]
        ls = socket.socket()
        ls.bind(("127.0.0.1", 0))
        ls.listen(50)
        ls.settimeout(60)
        port = ls.getsockname()[1]
        q = drv.Rfh(variant, 1, timeout=60)
        cur = [None]

        def serve():
            while True:
                try:
                    k, _ = ls.accept()
                except OSError:
                    return
                k.settimeout(5)
                try:
                    how, data, rst = cur[0]
                    if how == "silent":
                        k.close()
                        continue
                    k.recv(2)
                    if how == "greet":
                        k.sendall(data)
                    else:
                        k.sendall(b"\x01" if how != "early" else b"\x01" + data)
                        if how != "early":
                            k.recv(1 << 16)
                            for i in range(0, len(data), 1 << 16):
                                k.sendall(data[i:i + (1 << 16)])
                    if rst:
                        k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                except OSError:
                    pass
                k.close()
        threading.Thread(target=serve, daemon=True).start()
        try:
            fds = None
            for j in range(rounds):
                m = r.choice(["silent", "greet", "answer", "answer", "answer", "answer", "early"])
                w = r.randrange(8)
                ok = msg(enc(("i64", 3)), 2)
                d = {0: ok[:r.randrange(len(ok))], 1: bytes(r.randrange(256) for _ in range(r.choice([1, 16, 40]))),
                     2: struct.pack("<IBBBBq", PREFIX, 1, 0, 0, 2, r.choice(SIZES)) + b"x" * r.choice([0, 20]), 3: msg(r.choice(pool), 2), 4: msg(r.choice(pool), 0) + ok,
                     5: msg(enc(("str", "(hclose h)")), r.choice([0, 1])) + ok, 6: msg(enc(("str", "(raise \"x\")")), r.choice([0, 1])) * 3 + ok + ok, 7: ok + ok[:5]}[w]
                if m == "greet":
                    d = r.choice([b"", b"\0", b"\xff" * 40, d])
                cur[0] = (m, d, r.random() < 0.3)
                e = '(try (do (set h (hopen "127.0.0.1:%d" 3000)) (set r (write h "(+ 1 2)")) (hclose h) (list r)) (fn [e] (do (try (hclose h) (fn [x] 0)) "err")))' % port
                q.run([q.X(e, 0)])
                chk.case("client:" + m, "%s/%s/%s/%d" % (seed, m, d[:40], w))
                a = q.run([q.E("(+ 20 22)")])[0]["v"]
                if a != ["i64", 42]:
                    chk.violation("client disturbed", {"behaviour": show(cur[0]), "got": show(a)})
                    return
                n = len(os.listdir("/proc/%d/fd" % q.p.pid))
                if fds is None:
                    fds = n
                if n > fds + 1:
                    chk.violation("client descriptors", {"behaviour": show(cur[0]), "first": fds, "now": n, "round": j})
                    return
        except drv.Died as e:
            chk.violation(crash_key(e.text, e.how), {"behaviour": show(cur[0]), "stderr": e.text[-2500:]})
        finally:
            ls.close()
            q.kill()

    jobs = []
    for e in range(chk.scale(2, 16)):
        jobs += [("a%d" % e, "asan", PRE, 6, 60, [0, 200][e % 2]), ("b%d" % e, "asanheap" if e % 2 else "asan", PRE_CB, 6, 60, [0, 200][e % 2]),
                 ("r%d" % e, "rel", PRE, 6, 80, [0, 100][e % 2])]
    import build
    for v in ("asan", "rel"):
        build.harness(v)
    for v in ("asan", "rel", "asanheap"):
        build.harness(v, "ipcs", ("ipcs.c", "mon.c"), link=("-Wl,--wrap=send", "-Wl,--wrap=recv"))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(session, *j) for j in jobs]
        fs += [ex.submit(hostile_server, "h%d" % e, ["asan", "rel"][e % 2], 150) for e in range(chk.scale(2, 16))]
        for f in fs:
            f.result()
    chk.extra["observed"] = stat
    chk.assumptions = ["a peer that the server's own code asks something and that never answers is waited for (documented), so that is not provoked",
                       "messages that ask the server to evaluate something expensive or to end itself are requests, not hostile bytes"]
    return chk.finish(300)


def good_raw(c, expr):
    """the bytes in which the server sends the value of expr"""
    keep = []
    orig = c.parse

    def parse():
        while len(c.inb) >= 16:
            n = struct.unpack_from("<q", c.inb, 8)[0]
            if len(c.inb) < 16 + n:
                return
            keep.append(bytes(c.inb[16:16 + n]))
            del c.inb[:16 + n]
    c.parse = parse
    c.put(("str", expr))
    c.pump_until(lambda c: keep, 20)
    c.parse = orig
    return keep[0] if keep and keep[0][0] != ERR else None


main(main_c29)
