"""C33: failing system calls and damaged files: errors or the data present, a living interpreter, no leak."""
import os, sys, json, shutil, tempfile, errno
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, chk as ck, drv

c = ck.Check("C33")
R = drv.Rfh
WR = tuple("-Wl,--wrap=" + s for s in "open fstat read write mmap munmap lseek stat mkdir opendir readdir ftruncate unlink rename".split())
HARN = ("rfhio", ("rfh.c", "dump.c", "mon.c", "iof.c"))
# (name, expressions which store, expression which loads, uses)
VECU = ["(count r)", "(at r 0)", "(at r 2)", "(at r 100)", "(at r [0 1 2 0])", "(first r)", "(last r)", "(reverse r)", "(take r 3)", "(take r -7)", "(concat r r)", "(distinct r)", "(asc r)", "(desc r)",
        "(iasc r)", "(de (ser r))", "(format \"%\" r)", "(== r r)", "(find r r)", "(in r r)", "(sum r)", "(max r)", "(min r)", "(avg r)", "(group r)", "(filter r (== r r))", "(where (== r r))",
        "(table [a b] (list r r))", "(select {from: (table [a b] (list r (til (count r)))) by: a n: (count b)})", "(select {from: (table [a] (list r)) where: (== a a)})",
        "(at (table [a] (list r)) 0)", "(except r r)", "(union r r)", "(value r)", "(key r)", "(dict r r)", "(type r)", "(raze (list r r))", "(map (fn [x] x) r)", "(fold + 0 r)", "(rank r)", "(+ r 1)",
        "(set {D}/w r)", "(alter r set 0 (at r 1))", "(bin r r)", "(sect r r)", "(enlist r)", "(list r)", "(like r \"a*\")", "(as 'LIST r)", "(as 'SYMBOL r)", "(as 'I64 r)", "(select {from: (table [a b] (list (til (count r)) r)) by: a x: (first b) y: (last b) z: (count b)})"]
TABU = ["(count r)", "(at r 0)", "(at r 2)", "(at r [0 1])", "(first r)", "(last r)", "(reverse r)", "(take r 3)", "(take r -5)", "(concat r r)", "(de (ser r))", "(format \"%\" r)", "(select {from: r})",
        "(select {from: r where: (> v 1)})", "(select {from: r by: k s: (sum v) n: (count v)})", "(select {from: r s: (sum v) m: (max v) f: (first v) l: (last v)})", "(value r)", "(key r)", "(type r)",
        "(xasc r 'v)", "(xdesc r 'k)", "(distinct r)", "(at r 'v)", "(at r 'k)", "(at r 'l)", "(map (fn [x] x) (at r 'l))", "(at (at r 'l) 1)", "(value (at r 'k))", "(value (at r 'l))", "(select {from: r where: (== k 'b)})",
        "(update {from: r v: (+ v 1)})", "(insert r (list 'a 1))", "(write-csv {D}/w.csv r)", "(set {D}/w/ r)", "(left-join [k] r r)", "(inner-join [v] r r)",
        "(select {from: r l: l where: (> v 0)})", "(select {from: r by: v l: (first l)})", "(select {from: r by: k l: l})", "(== (at r 'k) 'a)", "(reverse (at r 'l))", "(group (at r 'k))", "(in 'a (at r 'k))", "(find (at r 'k) 'b)"]
ANYU = ["(count r)", "(format \"%\" r)", "(ser r)", "(type r)", "(at r 0)", "r"]
T = "(table [k v w l] (list [a b a c b d] [1 2 3 4 5 6] [1.0 2.0 0Nf 4.0 5.0 6.5] (list 1 \"abc\" 'x [1 2 3] (list 1 2.0) (dict [a] [1]))))"
T3 = "(table [k v w] (list [a b a c b d] [1 2 3 4 5 6] [1.0 2.0 0Nf 4.0 5.0 6.5]))"
ART = [("vec-" + n, ["(set {D}/v %s)" % e], "(get {D}/v)", VECU) for n, e in
       [("I64", "[1 2 3 0Nl 5 6 7]"), ("B8", "[true false true]"), ("U8", "(as 'U8 [1 2 3 255])"), ("I16", "(as 'I16 [1 2 3 4 5])"), ("I32", "[1i 2i 3i 0Ni]"), ("F64", "[1.5 0Nf -2.0 3.25]"),
        ("DATE", "[2020.01.01 2021.02.03 0Nd]"), ("TIME", "[10:00:00.000 11:12:13.456]"), ("TIMESTAMP", "[2020.01.01D10:00:00.000000000 2021.01.01D00:00:00.000000001]"),
        ("SYMBOL", "[aa b ccc dddd 'long-symbol-name]"), ("GUID", "(take [0x01] 3)" if 0 else "(guid 3)"), ("C8", "\"hello stored world\""), ("big", "(til 3000)")]] + [
    ("enum", ["(set sym [aa b ccc])", "(set {D}/sym sym)", "(set {D}/e (enum 'sym [aa b aa ccc b]))"], "(get {D}/e)", VECU),
    ("list", ["(set {D}/l (list 1 2.5 'sy \"str\" [1 2 3] [a b c] (list 1 \"x\" (list)) (dict [a b] [1 2]) (table [x] (list [1 2 3])) null true (fn [x] (+ x 1))))"], "(get {D}/l)", VECU),
    ("list2", ["(set {D}/l (list \"abc\" \"defgh\" \"\" \"ij\"))"], "(get {D}/l)", VECU),
    ("blob", ["(set {D}/t %s)" % T], "(get {D}/t)", TABU),
    ("splayed", ["(set-splayed {D}/t/ %s)" % T], "(get-splayed {D}/t/)", TABU),
    ("splayed-sym", ["(set-splayed {D}/t/ %s {D}/sym)" % T], "(get-splayed {D}/t/ {D}/sym)", TABU),
    ("parted", ["(set-splayed {D}/p/2024.01.0%d/t/ (table [k v w] (list [a b c a] (+ %d [1 2 3 4]) [1.0 0Nf 2.0 3.0])) {D}/p/sym)" % (i, i) for i in (1, 2, 3)], "(get-parted {D}/p/ 't)", TABU),
    ("csv", ["(write-csv {D}/c.csv (table [k v w s] (list [a b c] [1 20 300] [1.5 2.5 3.25] (list \"q,x\" \"pl\" \"a\\\"b\"))))"], "(read-csv [SYMBOL I64 F64 C8] {D}/c.csv)", TABU),
    ("text", ["(set h (hopen {D}/x))", "(write h \"text one\")", "(write h [1 2 3])", "(hclose h)"], "(read {D}/x)", VECU),
    ("journal", ["(set h (hopen {D}/j))", "(write h (list + 1 2))", "(write h (list (fn [x] (+ x 1)) [1 2]))", "(write h \"lit\")", "(write h (list count (list 'a 2.0 \"s\")))", "(hclose h)"],
     "(do (set h (hopen {D}/j)) (set z (try (read h) (fn [e] \"E\"))) (hclose h) z)", ANYU),
    ("script", None, "(load {D}/s.rfl)", ANYU)]
SCRIPT = b'(set sa 1)\n; comment "unbalanced\n(set sb (list 1 2 "s\\"q" [1 2 3] {a: 1}))\n(set sf (fn [x] (do (+ x 1))))\n(sf 3)\n'


def sub(e, d):
    out, i = "", 0
    # {D}/name -> "dir/name"
    while True:
        j = e.find("{D}", i)
        if j < 0:
            return out + e[i:]
        k = j + 3
        while k < len(e) and e[k] not in " )":
            k += 1
        out += e[i:j] + '"' + d + e[j + 3:k] + '"'
        i = k


def canon(x):
    return json.dumps(x)


def prefix(v, full):
    """v holds the beginning of the data of full"""
    if canon(v) == canon(full):
        return True
    if not (isinstance(v, list) and isinstance(full, list) and v and full and v[0] == full[0]):
        return False
    if v[0] == "table":
        return canon(v[1]) == canon(full[1]) and len(v[2][1]) == len(full[2][1]) and all(prefix(a, b) for a, b in zip(v[2][1], full[2][1]))
    if len(v) == 2 and isinstance(v[1], (list, str)) and type(v[1]) == type(full[1]):
        return canon(v[1]) == canon(full[1][:len(v[1])])
    return False


def csv_ok(v, full):
    """all rows but the last, whose fields may be cut"""
    if v[0] != "table" or canon(v[1]) != canon(full[1]):
        return False
    for a, b in zip(v[2][1], full[2][1]):
        n = len(a[1])
        if n > len(b[1]) or canon(a[1][:n - 1]) != canon(b[1][:n - 1]):
            return False
    return True


def csv_cut(v):
    """the text ends in its header line: a name may be cut, there are no rows"""
    return v[0] == "table" and all(not x[1] for x in v[2][1])


class Proc:
    """A harness process with a scratch directory and a healthy file"""

    def __init__(self, exe, variant, d, cores=1):
        self.d, self.variant, self.exe, self.cores = d, variant, exe, cores
        self.start()

    def start(self):
        self.h = drv.Rfh(self.variant, self.cores, timeout=90, exe=self.exe, env={"RFH_DIR": self.d})
        self.h.run([R.E(sub("(set {D}/healthy [7 8 9])", self.d)), R.E(sub("(do (set hv (get {D}/healthy)) (count hv))", self.d))])

    def run(self, frames):
        return self.h.run(frames)

    def close(self):
        self.h.close()


CANARY = [("(list (sum [1 2 3]) (count hv) (sum (get {D}/healthy)))", '["I64", [6, 3, 24]]'), ("(select {from: (table [a b] (list [x y x] [1 2 3])) by: a s: (sum b)})", None)]


def canary(p):
    a = p.run([R.E(sub(CANARY[0][0], p.d)), R.E(CANARY[1][0])])
    v = a[0]["v"]
    ok = v[0] == "list" and [x[1] for x in v[1]] == [6, 3, 24] and canon(a[1]["v"]).find("[4, 2]") > 0
    return None if ok and a[0]["st"] == [0] * 5 else canon([x["v"] for x in a] + [a[0]["st"]])


def store(p, art):
    shutil.rmtree(p.d + "/w", True)
    name, make, load, uses = art
    if make is None:
        open(p.d + "/s.rfl", "wb").write(SCRIPT)
    else:
        for e, a in zip(make, p.run([R.E(sub(e, p.d)) for e in make])):
            if a["v"][0] == "err":
                raise RuntimeError("cannot store %s: %s -> %s" % (name, e, a["v"]))


def files(d):
    out = []
    for root, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(root, f)
            out.append(os.path.relpath(q, d))
    return sorted(out)


def clean(d):
    for f in os.listdir(d):
        if f != "healthy":
            q = os.path.join(d, f)
            shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)


RESET = "(do (set r 0) (set z 0) (set sb 0) (set h 0) 0)"


def observe(p, art, r, nuse, frames_only=False):
    """load, a few uses, forget; the answers of three rounds and the resources after each"""
    name, make, load, uses = art
    us = r.sample(uses, min(nuse, len(uses)))
    fr = []
    for i in range(3):
        fr.append(R.E("(set r %s)" % sub(load, p.d)))
        for u in us:
            fr.append(R.E("(try %s (fn [e] 'failed))" % sub(u, p.d)))
        fr.append(R.E(RESET))
        fr.append(b"J\n")
    return us, fr


def judge(p, art, what, us, ans, key, full=None, must=None):
    """the oracles on one damaged or faulty load"""
    name = art[0]
    n = len(us) + 3
    det = {"artifact": name, "store": art[1], "load": art[2], "damage": what, "uses": us, "variant": p.variant, "answer": canon(ans[0]["v"])[:600]}
    for i, a in enumerate(ans):
        if "st" in a and a["st"] != [0] * 5:
            c.violation("%s: interpreter stacks unbalanced" % key, dict(det, st=a["st"], frame=i))
            return
    j = [ans[n - 1], ans[2 * n - 1], ans[3 * n - 1]]
    for k in ("fds", "maps", "blocks"):
        if j[2][k] > j[1][k] and j[1][k] > j[0][k] or (k != "blocks" and j[2][k] > j[1][k]):
            c.violation("%s: %s left behind" % (key, {"fds": "descriptors", "maps": "file mappings", "blocks": "heap blocks"}[k]), dict(det, after=[x[k] for x in j]))
            return
    v = ans[0]["v"]
    if must == "err" and v[0] != "err":
        c.violation("%s: no error" % key, det)
    elif must == "prefix" and v[0] != "err" and not (prefix(v, full) or name == "csv" and (csv_ok(v, full) or what.startswith("truncated") and csv_cut(v))):
        c.violation("%s: neither an error nor the data present" % key, dict(det, stored=canon(full)[:600]))


def batch(exe, variant, cores, seed, arts, plan):
    """plan(r, art, fileset) yields damages; each is applied to fresh copies of the stored files"""
    d = tempfile.mkdtemp(prefix="c33-")
    p = Proc(exe, variant, d, cores)
    n = 0
    try:
        for art in arts:
            clean(d)
            try:
                store(p, art)
            except drv.Died as e:
                c.violation("store %s: %s" % (art[0], ck.crash_key(e.text, e.how)), {"artifact": art[0], "report": e.text[-2500:]})
                p.close()
                p = Proc(exe, variant, d, cores)
                continue
            fs = {f: open(d + "/" + f, "rb").read() for f in files(d) if f != "healthy"}
            if art[0] in ("splayed-sym", "parted", "splayed", "enum"):
                p.close()            # names of enumerations come from the files
                p = Proc(exe, variant, d, cores)
            a = p.run([R.E(sub(art[2], d))])[0]["v"]
            if a[0] == "err":
                c.inconclusive.append("healthy %s does not load: %s" % (art[0], a))
                continue
            r = c.sub("%s-%s-%s" % (seed, variant, art[0]))
            for what, change, must in plan(r, art, fs):
                # restore, then damage
                for f, b in fs.items():
                    q = d + "/" + f
                    if os.path.isdir(q) and not os.path.islink(q):
                        shutil.rmtree(q)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    # a new file: the old one may still be mapped
                    if os.path.lexists(q):
                        os.unlink(q)
                    open(q, "wb").write(b)
                change(d)
                us, fr = observe(p, art, r, 5)
                key = "%s %s" % (art[0], what.split(":")[0])
                try:
                    ans = p.run(fr + ([R.E(RESET)]))
                    judge(p, art, what, us, ans[:-1], key, a, must)
                    c.case(key, what)
                    n += 1
                    if n % 10 == 0:
                        bad = canary(p)
                        if bad:
                            c.violation("%s: wrong answers afterwards" % key, {"artifact": art[0], "damage": what, "got": bad[:800]})
                            p.close()
                            p = Proc(exe, variant, d, cores)
                except drv.Died as e:
                    at = e.at % (len(us) + 3)
                    c.violation("%s: %s" % (key, ck.crash_key(e.text, e.how)), {"artifact": art[0], "store": art[1], "load": art[2], "damage": what, "variant": variant,
                                "during": "load" if at == 0 else us[at - 1] if at <= len(us) else "release", "report": e.text[-3000:]})
                    p.close()
                    p = Proc(exe, variant, d, cores)
                if n % 200 == 0:
                    c.sample({"artifact": art[0], "damage": what, "answer": canon(ans[0]["v"])[:120]})
    finally:
        p.close()
        shutil.rmtree(d)


def w(f, b):
    def go(d):
        os.unlink(d + "/" + f)
        open(d + "/" + f, "wb").write(b)
    return go


def rmf(f):
    return lambda d: os.unlink(d + "/" + f)


def asdir(f):
    def go(d):
        os.unlink(d + "/" + f)
        os.mkdir(d + "/" + f)
    return go


def link(f, to):
    def go(d):
        os.unlink(d + "/" + f)
        os.symlink(to, d + "/" + f)
    return go


OPTIONAL = ("sym",)


def damages(scale):
    def plan(r, art, fs):
        for f, b in fs.items():
            opt = os.path.basename(f) in OPTIONAL or (art[0] == "parted" and False)
            yield "missing:%s" % f, rmf(f), None if opt else ("err" if art[0] != "journal" else None)
            yield "directory:%s" % f, asdir(f), None if opt else "err" if art[0] != "journal" else None
            yield "dangling:%s" % f, link(f, "nowhere/at/all"), None if opt else "err" if art[0] != "journal" else None
            yield "loop:%s" % f, link(f, os.path.basename(f)), None if opt else "err" if art[0] != "journal" else None
            cuts = set(range(len(b))) if len(b) < 40 * scale else set([0, 1, 15, 16, 17, 4095, 4096, 4097, 4111, 4112, 4113, len(b) - 1, len(b) - 8]) | {r.randrange(len(b)) for _ in range(40 * scale)}
            for k in sorted(x for x in cuts if 0 <= x < len(b)):
                # the text of a journal or a script is executed as far as it goes
                m = None if opt or art[0] in ("journal", "script", "text") else "prefix"
                yield "truncated:%s at %d" % (f, k), w(f, b[:k]), m
            for k in (1, 7, 8, 100, 4096):
                yield "longer:%s by %d" % (f, k), w(f, b + bytes(r.randrange(256) for _ in range(k))), None
            # the header, byte by byte
            hdr = list(range(min(16, len(b)))) + ([4096 + i for i in range(16)] if len(b) >= 4112 else [])
            for o in hdr:
                for v in {0, 1, b[o] ^ 1, b[o] ^ 0x80, 0xff, 0x7f, r.randrange(256), r.randrange(256)}:
                    if v != b[o]:
                        yield "altered:%s byte %d := %d" % (f, o, v), w(f, b[:o] + bytes([v]) + b[o + 1:]), None
            for _ in range(25 * scale):
                x = bytearray(b)
                if not x:
                    break
                ch = []
                for _ in range(r.choice([1, 1, 1, 2, 4])):
                    if not x:
                        break
                    o = r.choice([r.randrange(len(x)), r.randrange(len(x)), r.choice(hdr) % len(x), max(16, len(x) - 1 - r.randrange(40)) % len(x)])
                    m = r.randrange(4)
                    if m == 0:
                        x[o] ^= 1 << r.randrange(8)
                    elif m == 1:
                        x[o] = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
                    elif m == 2 and o + 8 <= len(x):
                        q = r.choice([-1, 0, 1, 1 << 31, 1 << 40, (1 << 63) - 1, -(1 << 63), len(x), r.randrange(1 << 16)])
                        x[o:o + 8] = (q & (1 << 64) - 1).to_bytes(8, "little")
                    else:
                        q = r.randrange(len(x) + 1)
                        x[o:o + r.choice([1, 4, 8])] = x[q:q + r.choice([1, 4, 8])]
                    ch.append(o)
                yield "altered:%s at %s %s" % (f, ch, bytes(x).hex() if len(x) < 200 else ""), w(f, bytes(x)), None
        # exchange files
        names = sorted(fs)
        for _ in range(8 * scale):
            if len(names) > 1:
                f, g = r.sample(names, 2)
                yield "exchanged:%s has %s" % (f, g), w(f, fs[g]), None
    return plan


# ---------------------------------------------------------------- failing system calls
CLS = ["open", "fstat", "read", "write", "mmap", "lseek", "stat", "mkdir", "opendir", "readdir", "ftruncate", "unlink", "rename"]
MODES = {"open": [errno.EMFILE, errno.EACCES, errno.ENOENT], "fstat": [errno.EIO], "read": [errno.EIO, errno.EINTR, -1, -2], "write": [errno.ENOSPC, errno.EIO, errno.EINTR, -1], "mmap": [errno.ENOMEM],
         "lseek": [errno.EIO], "stat": [errno.EACCES], "mkdir": [errno.ENOSPC], "opendir": [errno.EMFILE, errno.ENOMEM], "readdir": [errno.EIO], "ftruncate": [errno.EIO], "unlink": [errno.EACCES], "rename": [errno.EIO]}


def faults(exe, variant, cores, seed, arts):
    d = tempfile.mkdtemp(prefix="c33-")
    p = Proc(exe, variant, d, cores)
    counts = {}
    try:
        for art in arts:
            name, make, load, uses = art
            clean(d)
            store(p, art)
            if any(x in name for x in ("splayed", "parted", "enum")):
                p.close()
                p = Proc(exe, variant, d, cores)
                store(p, art)
            loadx = R.E("(set r %s)" % sub(load, d))
            good = p.run([loadx])[0]["v"]
            stores = [[R.E(sub(e, d)) for e in make]] if make else []
            for kind, frames in [("load", [loadx])] + [("store", s) for s in stores]:
                p.run(frames + [R.E(RESET)])
                dry = p.run([b"I none 0 0 0\n"] + frames + [b"J\n", R.E(RESET)])[-2]
                for cls in CLS:
                    for nth in range(1, min(dry["calls"][cls], 60) + 1):
                        for mode in MODES[cls]:
                            for sticky in (0, 1):
                                if kind == "store":
                                    for f in files(d):
                                        if f != "healthy":
                                            os.unlink(d + "/" + f)
                                key = "%s %s with failing %s" % (kind, name, cls)
                                what = "%s nth=%d mode=%d sticky=%d" % (cls, nth, mode, sticky)
                                det = {"artifact": name, "store": make, "load": load, "fault": what, "during": kind, "variant": variant}
                                arm = b"I %s %d %d %d\n" % (cls.encode(), nth, mode, sticky)
                                try:
                                    rounds = []
                                    for k in range(3):
                                        a = p.run([arm] + frames + [b"J\n"])
                                        # what is there afterwards, healthily
                                        b = p.run([R.E(RESET), loadx, R.E("(try (list (count r) (format \"%\" r)) (fn [e] 0))"), R.E(RESET), b"J\n"])
                                        rounds.append((a, b))
                                    a, b = rounds[0]
                                    if a[-1]["fired"] == 0:
                                        continue
                                    counts[key] = counts.get(key, 0) + 1
                                    c.case(key, what + name + variant)
                                    if any(x.get("st", [0] * 5) != [0] * 5 for x in a + b):
                                        c.violation("%s: interpreter stacks unbalanced" % key, det)
                                    for k in ("fds", "maps", "blocks"):
                                        j = [x[1][-1][k] for x in rounds]
                                        if j[2] > j[1] and (k != "blocks" or j[1] > j[0]):
                                            c.violation("%s: %s left behind" % (key, k), dict(det, after=j))
                                    erred = any(x["v"][0] == "err" for x in a[1:-1])
                                    if kind == "load":
                                        v = a[1]["v"]
                                        if name == "journal":
                                            if canon(v) not in (canon(good), '["C8", "E"]') and v[0] != "err":
                                                c.violation("%s: neither an error nor the data" % key, dict(det, got=canon(v)[:500], stored=canon(good)[:500]))
                                        elif v[0] != "err" and canon(v) != canon(good):
                                            c.violation("%s: neither an error nor the data" % key, dict(det, got=canon(v)[:500], stored=canon(good)[:500]))
                                        if canon(b[1]["v"]) != canon(good) and not name.startswith(("splayed-sym",)):
                                            c.violation("%s: a later load is wrong" % key, dict(det, got=canon(b[1]["v"])[:500], stored=canon(good)[:500]))
                                    elif not erred and canon(b[1]["v"]) != canon(good) and name != "vec-GUID":
                                        c.violation("%s: told to be stored, but it is not" % key, dict(det, got=canon(b[1]["v"])[:500], stored=canon(good)[:500]))
                                    bad = canary(p)
                                    if bad:
                                        c.violation("%s: wrong answers afterwards" % key, dict(det, got=bad[:500]))
                                except drv.Died as e:
                                    c.violation("%s: %s" % (key, ck.crash_key(e.text, e.how)), dict(det, report=e.text[-3000:]))
                                    p.close()
                                    p = Proc(exe, variant, d, cores)
                                    p.run(frames)
                # recover for the next kind
                clean(d)
                store(p, art)
                again = p.run([loadx])[0]["v"]
                if canon(again) != canon(good) and name != "vec-GUID":
                    c.violation("%s: after all failures it can not be stored and loaded again" % name, {"got": canon(again)[:500], "want": canon(good)[:500]})
    finally:
        p.close()
        shutil.rmtree(d)
    return counts


def main():
    c.rule = "a damaged file (case: artifact, file, damage) or an injected failing call (case: artifact, call, occurrence, mode) which was loaded, used and released"
    c.assumptions = ["files are not changed by others while they are mapped", "close never reports a delayed write error", "descriptors, mappings and heap blocks are compared between repetitions"]
    exe = {v: build.harness(v, *HARN, link=WR) for v in ("asan", "rel")}
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        sc = c.scale(1, 6)
        for i, art in enumerate(ART):
            jobs.append(ex.submit(batch, exe["asan"], "asan", 1, "d%d" % i, [art], damages(sc)))
            jobs.append(ex.submit(faults, exe["asan"], "asan", 1, "f%d" % i, [art]))
            jobs.append(ex.submit(faults, exe["rel"], "rel", 4, "g%d" % i, [art]))
        tot = {}
        for j in jobs:
            for k, v in (j.result() or {}).items():
                tot[k] = tot.get(k, 0) + v
    c.extra["faults fired"] = tot
    return c.finish(3000)


ck.main(main)
