"""Runs many independent expressions on several harness processes at once."""
import os, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from drv import Rfh, Died


def batches(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


class Fleet:
    """workers processes of one variant; every batch starts from the same prelude"""

    def __init__(self, variant, cores, prelude, workers=6, timeout=60, env=None):
        self.variant, self.cores, self.prelude, self.timeout, self.env = variant, cores, prelude, timeout, env
        self.workers = workers
        self.loc = threading.local()
        self.all = []
        self.top = tempfile.mkdtemp(prefix="rf-any-")
        self.lock = threading.Lock()
        self.dirs = 0

    def proc(self):
        p = getattr(self.loc, "p", None)
        if p is None:
            with self.lock:
                self.dirs += 1
                d = os.path.join(self.top, "w%d" % self.dirs)
            os.mkdir(d)
            p = self.loc.p = Rfh(self.variant, self.cores, timeout=self.timeout, cwd=d, env=self.env)
            with self.lock:
                self.all.append(p)
        return p

    def drop(self):
        p = getattr(self.loc, "p", None)
        if p is not None:
            p.close()
            with self.lock:
                self.all.remove(p)
            self.loc.p = None

    def batch(self, frames):
        """-> [(answer, None) | (None, Died)] one per frame; a dead process is replaced and the rest still run"""
        out = []
        while len(out) < len(frames):
            try:
                p = self.proc()
                p.run(self.prelude)
                a = p.run(frames[len(out):])
                out += [(x, None) for x in a]
            except Died as d:
                self.drop()
                # answers before the end were lost; run them again up to the culprit
                k = d.at
                rest = frames[len(out):]
                if k >= len(rest):
                    out += [(None, d)] * len(rest)
                    break
                if k:
                    try:
                        p = self.proc()
                        p.run(self.prelude)
                        out += [(x, None) for x in p.run(rest[:k])]
                        d.alone = False
                    except Died as d2:
                        self.drop()
                        out += [(None, d2)] * k
                        d2.at = 0
                out.append((None, d))
        return out[:len(frames)]

    def map(self, frames, size=200):
        bs = batches(frames, size)
        out = []
        with ThreadPoolExecutor(self.workers) as ex:
            for r in ex.map(self.batch, bs):
                out += r
        return out

    def close(self):
        for p in list(self.all):
            p.close()
        self.all = []
        shutil.rmtree(self.top, ignore_errors=True)
