"""C22: deserialising hostile bytes gives a value or an error and nothing else."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import Check, main, crash_key
from drv import Rfh, Died
from rval import *

HDR = 16
LENS = [0, 1, -1, 2, 7, 8, 2**31 - 1, 2**31, 2**32, 2**60, 2**62, 2**63 - 1, -2**63, -2**31, 10**9, 10**9 + 1, 999999999]


def hdr(good, n):
    return good[:8] + struct.pack("<q", n)


def mutate(r, good):
    """-> (class, bytes); good is a complete message"""
    b = bytearray(good[HDR:])
    m = r.randrange(12)
    if m == 0:
        k = r.randrange(len(b) + 1)
        return "truncated, size adjusted", hdr(good, k) + bytes(b[:k])
    if m == 1:
        k = r.randrange(len(good) + 1)
        return "truncated", bytes(good[:k])
    if m == 2 and b:
        for _ in range(r.choice([1, 1, 2, 8])):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return "bits flipped", hdr(good, len(b)) + bytes(b)
    if m == 3 and len(b) > 9:
        # a length field: somewhere after a type byte and an attribute byte
        cand = [i for i in range(len(b) - 9) if b[i] < 21 and b[i + 1] == 0 and b[i + 7:i + 10] == b"\0\0\0"] or [0]
        i = r.choice(cand)
        b[i + 2:i + 10] = struct.pack("<q", r.choice(LENS + [r.getrandbits(63), len(b), len(b) + 1, len(b) // 8, len(b) - 10]))
        return "length field", hdr(good, len(b)) + bytes(b)
    if m == 4 and b:
        cand = [i for i in range(len(b) - 1) if b[i + 1] == 0] or [0]
        b[r.choice(cand)] = r.choice([0, 3, 98, 99, 100, 101, 102, 103, 104, 126, 127, 20, 71, 72, 75, 77, 80, r.randrange(256)] + [256 - k for k in range(1, 13)])
        return "type byte", hdr(good, len(b)) + bytes(b)
    if m == 5 and b:
        b[r.randrange(len(b))] = r.randrange(256)
        return "byte", hdr(good, len(b)) + bytes(b)
    if m == 6:
        i, j = r.randrange(len(b) + 1), r.randrange(len(b) + 1)
        b[i:i] = b[min(i, j):max(i, j)][:200]
        return "part repeated", hdr(good, len(b)) + bytes(b)
    if m == 7:
        i, j = r.randrange(len(b) + 1), r.randrange(len(b) + 1)
        del b[min(i, j):max(i, j)]
        return "part dropped", hdr(good, len(b)) + bytes(b)
    if m == 8:
        h = bytearray(good[:HDR])
        if r.random() < 0.5:
            h[r.randrange(8)] = r.randrange(256)
        else:
            h[8:16] = struct.pack("<q", r.choice(LENS + [len(b) + 1, len(b) - 1]))
        return "header", bytes(h) + bytes(b)
    if m == 9:
        n = r.choice([0, 1, 2, 5, 9, 10, 11, 17, 64])
        x = bytes(r.randrange(256) for _ in range(n))
        return "random bytes", hdr(good, n) + x
    if m == 10:
        n = r.choice([0, 1, 15, 16, 17, 40])
        return "no header", bytes(r.randrange(256) for _ in range(n))
    # nothing but types and short lengths: deep and odd structures
    x = b""
    for _ in range(r.choice([1, 3, 10, 40])):
        t = r.choice([0, 0, 0, 98, 99, 100, 101, 102, 103, 126, 127, 5, 6, 12, 3, 20])
        x += bytes([t])
        if t in (98, 99, 100):
            x += b"\0"
        elif t < 21:
            x += b"\0" + struct.pack("<q", r.choice([0, 1, 1, 2, 3, 30]))
    return "structure", hdr(good, len(x)) + x


def run():
    c = Check("C22")
    c.rule = "one byte sequence given to the deserialiser under AddressSanitizer, with what it made formatted, serialised and read again; distinct by bytes"
    r = c.sub("gen")
    g = Rfh("rel", 1)
    seeds = []
    vals = [value(r, r.choice([0, 1, 2, 3])) for _ in range(400)]
    vals = [v for v in vals if size(v) < 6000] + [("list", [("i64", 1)]), ("I64", [1, 2, 3]), ("SYMBOL", ["a", "bc", None]), ("C8", "text")]
    for v in vals:
        a = g.run(bind("x", v) + [Rfh.S("x")])[-1]
        if a["s"][0] == "U8":
            seeds.append(bytes(a["s"][1]))
    for src in ["(fn [x] (+ x 1))", "(fn [a b] (do (let c (* a b)) (map (fn [y] (+ y c)) a)))", "+", "(list sum [1 2 3])", "(list + 1 2)", "(try (raise \"oops\") (fn [e] e))"]:
        a = g.one(Rfh.S(src))
        if a["s"][0] == "U8":
            seeds.append(bytes(a["s"][1]))
    good0 = seeds[0]
    g.close()
    h = good0[:8]
    fixed = []
    # an error message without its end, a nested bomb of every container, huge claimed lengths of every type
    for t in range(256):
        for n in (0, 1, 8, 9, 10, 20):
            fixed.append(("type %d" % (t if t < 128 else t - 256), hdr(good0, 1 + n) + bytes([t]) + b"\0" * n))
            fixed.append(("type %d" % (t if t < 128 else t - 256), hdr(good0, 1 + n) + bytes([t]) + b"\xff" * n))
        for ln in LENS:
            body = bytes([t]) + b"\0" + struct.pack("<q", ln) + b"\x05" * 40
            fixed.append(("claimed length", hdr(good0, len(body)) + body))
    one = b"\0\0" + struct.pack("<q", 1)
    for d in (10, 1000, 4000, 5000, 30000, 200000):
        fixed.append(("nested lists", hdr(good0, len(one) * d + 9) + one * d + b"\xfb" + b"\0" * 8))
        fixed.append(("nested lists", hdr(good0, len(one) * d) + one * d))
        fixed.append(("nested dicts", hdr(good0, 2 * d) + b"\x63\0" * d))
        fixed.append(("nested tables", hdr(good0, 2 * d) + b"\x62\0" * d))
        fixed.append(("nested lambdas", hdr(good0, 2 * d) + b"\x64\0" * d))
    for body in (b"\x7f\x0b" + b"\0" * 8 + b"A" * 30, b"\x7f\x0b" + b"\0" * 8 + b"A" * 30 + b"\0", b"\x7f\xff" + b"\xff" * 8, b"\x7f\x06" + b"\xff" * 8):
        fixed.append(("error", hdr(good0, len(body)) + body))
    cases = fixed
    for i in range(c.scale(26000, 600000)):
        cases.append(mutate(r, r.choice(seeds)))
    # every truncation and every single byte of small messages
    for s in [s for s in seeds if len(s) < 90][:c.scale(12, 100)]:
        for k in range(len(s)):
            cases.append(("every truncation", s[:k]))
            cases.append(("every truncation", hdr(s, max(0, k - HDR)) + s[HDR:max(k, HDR)]))
        for k in range(HDR, len(s)):
            for x in (0, 1, 0x7f, 0x80, 0xff, s[k] + 1 & 255, s[k] - 1 & 255):
                cases.append(("every byte", s[:k] + bytes([x]) + s[k + 1:]))
    stat = {"values": 0, "errors": {}, "types": {}, "peak_per_byte": 0.0, "max_peak": 0, "bytes": 0}
    A = None
    i = 0
    crashes = 0
    while i < len(cases):
        if A is None:
            A = Rfh("asan", 1)
            A.run([Rfh.H(cases[0][1]), Rfh.H(good0)])
        part = cases[i:i + 400]
        try:
            ans = A.run([Rfh.H(b) for _, b in part])
        except Died as d:
            # once more, one by one, to name the bytes
            A.close()
            A = Rfh("asan", 1)
            k = 0
            try:
                for k, (_, b) in enumerate(part):
                    A.one(Rfh.H(b))
                k = len(part)
            except Died as e:
                cls, b = part[k]
                c.case(cls, b)
                c.violation("crash:%s" % crash_key(e.text, e.how), {"class": cls, "bytes": b[:2000].hex(), "length": len(b), "how": e.how, "report": e.text[-3000:]})
                crashes += 1
            else:
                c.violation("crash of a batch:%s" % crash_key(d.text, d.how), {"bytes": [b[:300].hex() for _, b in part], "report": d.text[-3000:]})
            A.close()
            A = None
            i += k + 1
            if crashes > 20:
                c.inconclusive.append("too many crashes")
                break
            continue
        for (cls, b), a in zip(part, ans):
            c.case(cls, b)
            stat["bytes"] += len(b)
            if "e" in a:
                stat["errors"][a["e"]] = stat["errors"].get(a["e"], 0) + 1
            else:
                stat["values"] += 1
                stat["types"][str(a["t"])] = stat["types"].get(str(a["t"]), 0) + 1
                if a.get("again") == 0:
                    c.violation("not stable", {"class": cls, "bytes": b[:2000].hex(), "note": "the value does not survive being serialised again"})
            if a["leak"]:
                c.violation("leak %s" % ("error" if "e" in a else "value"), {"class": cls, "bytes": b[:2000].hex(), "blocks": a["leak"], "answer": a})
            lim = 400 * len(b) + (1 << 16)
            stat["max_peak"] = max(stat["max_peak"], a["peak"])
            stat["peak_per_byte"] = max(stat["peak_per_byte"], a["peak"] / (len(b) + 1.0) if len(b) > 200 else 0)
            if a["peak"] > lim:
                c.violation("memory", {"class": cls, "bytes": b[:2000].hex(), "length": len(b), "peak": a["peak"]})
        i += len(part)
    if A is not None:
        # still in order after all that
        if norm(A.ev("(+ 1 2)")) != ("i64", 3):
            c.violation("state", {"note": "evaluation fails after the hostile bytes"})
        how, text = A.quit()
        if how != 0:
            c.violation("shutdown:%s" % crash_key(text, str(how)), {"how": how, "report": text[-2000:]})
        A.close()
    c.extra["observed"] = stat
    c.sample([x[0] + " " + x[1][:60].hex() for x in cases[5000:5006]])
    return c.finish(1000)


main(run)
