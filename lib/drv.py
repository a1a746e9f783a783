"""Drives the harness process: sends framed commands, reads one JSON line per command."""
import json, os, select, signal, subprocess, tempfile, threading, time
import build

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=6000:"
                    "handle_abort=1:quarantine_size_mb=64:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_thread_leaks=0",
    "LSAN_OPTIONS": "exitcode=0",
}


class Died(Exception):
    """The process under test ended (or hung) while answering command number `at`."""

    def __init__(self, at, how, text):
        Exception.__init__(self, how)
        self.at, self.how, self.text = at, how, text


class Rfh:
    def __init__(self, variant="rel", cores=1, timeout=60, cwd=None, env=None, exe=None, rlimit_as=None, argv=None):
        self.exe = exe or build.harness(variant)
        self.variant, self.cores, self.timeout = variant, cores, timeout
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        pre = None
        if rlimit_as:
            import resource
            pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (rlimit_as, rlimit_as))
        self.p = subprocess.Popen([self.exe, str(cores)] + (argv or []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=cwd, env=e, preexec_fn=pre, start_new_session=True)
        self.buf = b""
        os.set_blocking(self.p.stdin.fileno(), False)

    # ---- command frames
    @staticmethod
    def E(src):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"E %d\n" % len(b) + b

    @staticmethod
    def L(src, k=3):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"L %d %d\n" % (k, len(b)) + b

    @staticmethod
    def X(src, fmt=1):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"X %d %d\n" % (fmt, len(b)) + b

    @staticmethod
    def K(src, k=2):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"K %d %d\n" % (k, len(b)) + b

    @staticmethod
    def P(src):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"P %d\n" % len(b) + b

    @staticmethod
    def T(src):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"T %d\n" % len(b) + b

    @staticmethod
    def S(src):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"S %d\n" % len(b) + b

    @staticmethod
    def D(b):
        return b"D %d\n" % len(b) + b

    @staticmethod
    def H(b):
        return b"H %d\n" % len(b) + b

    @staticmethod
    def F(src, full=2):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"F %d %d\n" % (full, len(b)) + b

    @staticmethod
    def R(src, full=3):
        b = src.encode("latin1") if isinstance(src, str) else src
        return b"R %d %d\n" % (full, len(b)) + b

    @staticmethod
    def V(name, code, raw, cnt):
        return b"V %d %d %s\n" % (code, cnt, name.encode()) + raw

    @staticmethod
    def Y(name, syms):
        raw = b"".join((b"\xff" if s is None else s.encode("latin1")) + b"\0" for s in syms)
        return b"Y %d %d %s\n" % (len(syms), len(raw), name.encode()) + raw

    @staticmethod
    def G(name, names):
        """bind name to the list of the values of names"""
        raw = b"".join(s.encode() + b"\0" for s in names)
        return b"G %d %d %s\n" % (len(names), len(raw), name.encode()) + raw

    def run(self, frames, timeout=None):
        """Send the frames, return one parsed answer per frame."""
        timeout = timeout or self.timeout
        out, data, off = [], b"".join(frames), 0
        rfd, wfd = self.p.stdout.fileno(), self.p.stdin.fileno()
        last = time.monotonic()
        while len(out) < len(frames):
            r, w, _ = select.select([rfd], [wfd] if off < len(data) else [], [], 1.0)
            if w:
                try:
                    off += os.write(wfd, data[off:off + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    off = len(data)
            if r:
                c = os.read(rfd, 1 << 20)
                if not c:
                    self._died(len(out))
                last = time.monotonic()
                self.buf += c
                while len(out) < len(frames):
                    i = self.buf.find(b"\n")
                    if i < 0:
                        break
                    out.append(json.loads(self.buf[:i].decode("latin1")))
                    self.buf = self.buf[i + 1:]
            elif time.monotonic() - last > timeout:
                self.kill()
                d = Died(len(out), "timeout", self.stderr())
                d.done = out
                raise d
        return out

    def one(self, frame, timeout=None):
        return self.run([frame], timeout)[0]

    def ev(self, src):
        return self.one(self.E(src))["v"]

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("latin1")

    def _died(self, at):
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.kill()
            rc = "no-exit"
        d = Died(at, "exit %s" % rc, self.stderr())
        raise d

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            pass

    def quit(self, timeout=60):
        """Orderly shutdown; returns (exit status, stderr)."""
        try:
            self.one(b"Q\n", timeout)
        except Died as d:
            return d.how, d.text
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            return "timeout", self.stderr()
        return rc, self.stderr()

    def close(self):
        self.kill()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
