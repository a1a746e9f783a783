"""Common frame of every check: seeds, evidence, violations, known findings, verdict."""
import hashlib, json, os, random, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and not line.startswith("#"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "open":
                    out.append(k)
    return out


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.n = 0
        self.seen = set()
        self.classes = {}
        self.samples = []
        self.viol = []          # (key, detail)
        self.vkeys = {}
        self.known_seen = {}
        self.known = known_for(pid)
        self.assumptions = []
        self.extra = {}
        self.inconclusive = []
        self.rule = ""

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def sub(self, name):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, name))

    def case(self, cls, ident=None, nontrivial=True, n=1):
        """One evaluated case of class cls; ident makes it distinct."""
        self.n += n
        c = self.classes.setdefault(cls, 0)
        self.classes[cls] = c + n
        if nontrivial:
            self.seen.add(hashlib.blake2b(("%s|%s" % (cls, ident if ident is not None else self.n)).encode("utf8", "replace"),
                                          digest_size=8).digest())

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, (dict, list, int)) else str(s)[:600])

    def violation(self, key, detail):
        """key identifies what failed (input class, call site); detail is replayable."""
        for k in self.known:
            if re.fullmatch(k["key"], key, re.S):
                self.known_seen[k["id"]] = self.known_seen.get(k["id"], 0) + 1
                return False
        c = self.vkeys.get(key, 0)
        self.vkeys[key] = c + 1
        if c == 0:
            self.viol.append((key, detail))
            sys.stderr.write("  ! %s %s\n    %s\n" % (self.pid, key, json.dumps(detail)[:1500]))
        return True

    def probe_known(self, fn):
        """fn(k) -> True while the finding k still shows; prints its KNOWN-FINDING line."""
        for k in self.known:
            try:
                still = fn(k)
            except Exception as e:  # a probe that cannot run says nothing
                still = None
                sys.stderr.write("probe %s: %r\n" % (k["id"], e))
            if still:
                self.known_seen[k["id"]] = self.known_seen.get(k["id"], 0) + 1

    def finish(self, min_cases=1):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k["id"], k["what"]))
        cov = {"evaluations": self.n, "distinct_nontrivial": len(self.seen), "rule": self.rule,
               "samples": self.samples, "classes": dict(sorted(self.classes.items())[:400])}
        cov["known_findings_observed"] = self.known_seen
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:50]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if self.viol:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            for i, (key, detail) in enumerate(self.viol[:20]):
                path = os.path.join(VERIF, "replay", "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "seed": self.seed, "tier": self.tier,
                               "count": self.vkeys[key], "detail": detail}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  key: %s (%d times)" % (key, self.vkeys[key]))
            sys.stdout.flush()
            return 1
        if self.n < min_cases:
            print("INCONCLUSIVE property=%s: only %d cases observed (expected at least %d)" % (self.pid, self.n, min_cases))
            return 3
        print("OK property=%s cases=%d distinct=%d wall=%.1fs inconclusive=%d" % (
            self.pid, self.n, len(self.seen), time.time() - self.t0, len(self.inconclusive)))
        return 0


def crash_key(text, how=""):
    """A short signature of a sanitizer report or crash: the kind and the first frames in /repo."""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan:" + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]*)", text)
        if m:
            kind = "ubsan:" + re.sub(r"[0-9x]+", "N", m.group(1))[:60]
        elif "ThreadSanitizer" in text:
            m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]*)", text)
            kind = "tsan:" + (m.group(1).strip() if m else "?")
        else:
            kind = "died:" + how
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\w+) (/\S+?/core/\w+\.[ch])", text)
    fr = [f for f, p in fr]
    st = []
    for f in fr:
        if f not in st:
            st.append(f)
        if len(st) == 3:
            break
    return kind + "@" + "<".join(st)


def tsan_reports(err):
    return ["WARNING: ThreadSanitizer" + x for x in err.split("WARNING: ThreadSanitizer")[1:]]


def main(fn):
    try:
        rc = fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
