"""Runs batches of (bindings, expression, expected) cases against a harness process."""
import sys
from drv import Rfh, Died
from val import bind, norm, same, show, diff
from chk import crash_key


class Run:
    def __init__(self, chk, variant="rel", cores=1, batch=400, rel=0.0, **kw):
        self.chk, self.variant, self.cores, self.batch, self.rel, self.kw = chk, variant, cores, batch, rel, kw
        self.p = None
        self.q = []
        self.crashes = 0
        self.pre = []            # frames sent to every new process

    def proc(self):
        if self.p is None:
            self.p = Rfh(self.variant, self.cores, **self.kw)
            if self.pre:
                self.p.run(self.pre)
        return self.p

    def add(self, cls, binds, expr, want, ident=None, key=None, after=None, nontrivial=True):
        """binds: [(name, value)] or frames (bytes); expr: text or frame; want: value or callable(value)->None|text"""
        fr = []
        for b in binds:
            fr += [b] if isinstance(b, bytes) else bind(*b)
        self.q.append((cls, fr, expr, want, ident, key, binds, nontrivial))
        if len(self.q) >= self.batch:
            self.flush()

    def desc(self, c):
        cls, fr, expr, want, ident, key, binds, nt = c
        return {"variant": self.variant, "cores": self.cores, "bind": [show(b, 700) for b in binds],
                "expr": expr if isinstance(expr, str) else repr(expr)[:700]}

    def flush(self):
        q, self.q = self.q, []
        while q:
            frames, owner = [], []
            for i, c in enumerate(q):
                for f in c[1]:
                    frames.append(f)
                    owner.append((i, False))
                e = c[2]
                frames.append(Rfh.E(e) if isinstance(e, str) else e)
                owner.append((i, True))
            try:
                ans = self.proc().run(frames)
                died = None
            except Died as d:
                died, ans = d, getattr(d, "done", None)
            if died is None:
                for (i, is_e), a in zip(owner, ans):
                    if is_e:
                        self.judge(q[i], a)
                    elif "v" in a and a["v"][0] == "err":
                        self.chk.violation("setup", dict(self.desc(q[i]), error=a["v"]))
                return
            # find the culprit: rerun one by one up to it
            i = owner[died.at][0] if died.at < len(owner) else 0
            c = q[i]
            self.restart()
            self.crashes += 1
            for j in range(i):
                self.solo(q[j])
            self.chk.case(c[0], c[4], c[7])
            self.chk.violation("crash:%s:%s" % (c[0], crash_key(died.text, died.how)),
                               dict(self.desc(c), how=died.how, report=died.text[-3000:]))
            q = q[i + 1:]
            if self.crashes > 40:
                self.chk.inconclusive.append("too many crashes, %d cases dropped" % len(q))
                return

    def solo(self, c):
        try:
            fr = c[1] + [Rfh.E(c[2]) if isinstance(c[2], str) else c[2]]
            self.judge(c, self.proc().run(fr)[-1])
        except Died as d:
            self.restart()
            self.crashes += 1
            self.chk.violation("crash:%s:%s" % (c[0], crash_key(d.text, d.how)),
                               dict(self.desc(c), how=d.how, report=d.text[-3000:]))

    def judge(self, c, a):
        cls, fr, expr, want, ident, key, binds, nt = c
        self.chk.case(cls, ident if ident is not None else (repr(expr), repr(binds)[:3000]), nt)
        got = norm(a["v"]) if "v" in a else None
        if callable(want):
            why = want(got) if want.__code__.co_argcount - len(want.__defaults__ or ()) == 1 else want(got, a)
        else:
            why = None if same(want, got, self.rel) else diff(want, got, self.rel)
        if why:
            self.chk.violation("%s:%s" % (key or cls, "value"), dict(self.desc(c), why=why, got=show(got, 1500)))
        elif len(self.chk.samples) < 12 and self.chk.n % 97 == 1:
            d = self.desc(c)
            d["got"] = show(got, 200)
            self.chk.sample({k: (v if not isinstance(v, list) else [x[:150] for x in v]) for k, v in d.items()})

    def restart(self):
        if self.p:
            self.p.close()
            self.p = None

    def close(self):
        self.flush()
        self.restart()
