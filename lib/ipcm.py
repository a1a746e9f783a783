"""Peers of an observed server: wire codec, server process, and connections driven step by step."""
import os, select, signal, socket, struct, subprocess, tempfile, time
import build, drv

PREFIX = 0xCEFADEFA
ASYN, SYNC, RESP = 0, 1, 2
LIST, I64, SYM, C8, NULL, ERR = 0, 5, 6, 12, 126, 127
ERRN = {}


def _b(x):
    return x.encode("latin1") if isinstance(x, str) else x


# ---- values: ("str", s) ("list", [..]) ("i64", n) ("I64", [..]) ("sym", s) ("un"/"bin"/"var", name) ("null",)
def enc(v):
    t = v[0]
    if t == "str":
        b = _b(v[1])
        return struct.pack("<bBq", C8, 0, len(b)) + b
    if t == "list":
        return struct.pack("<bBq", LIST, 0, len(v[1])) + b"".join(enc(x) for x in v[1])
    if t == "i64":
        return struct.pack("<bq", -I64, v[1])
    if t == "I64":
        return struct.pack("<bBq", I64, 0, len(v[1])) + struct.pack("<%dq" % len(v[1]), *v[1])
    if t == "sym":
        return struct.pack("<b", -SYM) + _b(v[1]) + b"\0"
    if t in ("un", "bin", "var"):
        return struct.pack("<b", {"un": 101, "bin": 102, "var": 103}[t]) + _b(v[1]) + b"\0"
    if t == "null":
        return struct.pack("<B", NULL)
    raise ValueError(t)


def dec(b, o=0):
    t = struct.unpack_from("<b", b, o)[0]
    o += 1
    if t == -I64:
        return ("i64", struct.unpack_from("<q", b, o)[0]), o + 8
    if t == NULL:
        return ("null",), o
    if t == -SYM:
        e = b.index(b"\0", o)
        return ("sym", b[o:e]), e + 1
    if t == -C8:
        return ("c8", b[o:o + 1]), o + 1
    if t == -1:
        return ("b8", b[o]), o + 1
    if t == ERR:
        code = b[o]
        o += 9
        if code == ERRN.get("user", -1):
            e = b.index(b"\0", o)
            return ("err", code, b[o:e]), e + 1
        return ("err", code), o
    o += 1
    n = struct.unpack_from("<q", b, o)[0]
    o += 8
    if t == C8:
        return ("str", b[o:o + n]), o + n
    if t == I64:
        return ("I64", list(struct.unpack_from("<%dq" % n, b, o))), o + 8 * n
    if t == LIST:
        xs = []
        for _ in range(n):
            x, o = dec(b, o)
            xs.append(x)
        return ("list", xs), o
    raise ValueError("type %d" % t)


def show(v, n=160):
    return repr(v)[:n]


def msg(v, typ, version=1):
    p = v if isinstance(v, bytes) else enc(v)
    return struct.pack("<IBBBBq", PREFIX, version, 0, 0, typ, len(p)) + p


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


PRELUDE = """
(set opened [])
(set closed [])
(set .z.po (fn [h] (set opened (concat opened h))))
(set .z.pc (fn [h] (set closed (concat closed h))))
"""


class Dead(Exception):
    pass


class Server:
    def __init__(self, variant="rel", cores=1, prelude=PRELUDE, short=0, seed=1, env=None):
        self.exe = build.harness(variant, "ipcs", ("ipcs.c", "mon.c"), link=("-Wl,--wrap=send", "-Wl,--wrap=recv"))
        self.variant = variant
        self.dir = tempfile.mkdtemp(prefix="rf-ipcs-")
        sp = os.path.join(self.dir, "init.rfl")
        with open(sp, "w") as f:
            f.write("(do " + prelude + ")")
        e = dict(os.environ)
        e.update(drv.SAN_ENV)
        e.update({"RF_SHORT": str(short), "RF_SEED": str(seed)})
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        for _ in range(10):
            self.port = free_port()
            self.p = subprocess.Popen([self.exe, str(cores), str(self.port), sp], stdin=subprocess.DEVNULL, stdout=self.err,
                                      stderr=self.err, env=e, cwd=self.dir, start_new_session=True)
            t = time.monotonic()
            while time.monotonic() - t < 60:
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 5).close()
                    return
                except OSError:
                    time.sleep(0.02)
            if "Failed to listen" not in self.stderr() and self.p.poll() is not None:
                raise Dead("server did not start: %s" % self.stderr()[-2000:])
            self.kill()
        raise Dead("server did not start")

    def stderr(self):
        return os.pread(self.err.fileno(), 1 << 22, 0).decode("latin1")

    def alive(self):
        return self.p.poll() is None

    def fds(self):
        """what the descriptors of the server refer to, sockets counted"""
        d = "/proc/%d/fd" % self.p.pid
        n = 0
        for x in os.listdir(d):
            try:
                n += os.readlink(os.path.join(d, x)).startswith("socket:")
            except OSError:
                pass
        return n

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stop(self, wait=60):
        """ask it to end as ^C does; returns (exit code or None, stderr)"""
        if self.p.poll() is None:
            self.p.send_signal(signal.SIGINT)
            try:
                self.p.wait(wait)
            except subprocess.TimeoutExpired:
                self.kill()
                return None, self.stderr()
        return self.p.returncode, self.stderr()

    def clean(self):
        import shutil
        self.kill()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Conn:
    """A raw connection: what is written to it is cut as the caller says, what arrives is logged."""

    def __init__(self, srv, rcvbuf=None, hand=b"\x01\0", ready=True):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(30)
        self.s.connect(("127.0.0.1", srv.port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.out = bytearray()
        self.inb = bytearray()
        self.hands = 0          # bytes of the server's greeting seen
        self.msgs = []          # (type, value)
        self.eof = None         # None, "eof", "reset"
        self.closed = False
        if hand:
            self.out += hand
        if ready:
            self.pump_until(lambda c: c.hands == 1, 30)

    def fileno(self):
        return self.s.fileno()

    def put(self, v, typ=SYNC):
        self.out += msg(v, typ)

    def send(self, k=None):
        """write up to k bytes of what is queued; returns how many went"""
        if not self.out or self.closed:
            return 0
        try:
            n = self.s.send(bytes(self.out[:k if k else 1 << 18]))
        except (BlockingIOError, InterruptedError):
            return 0
        except OSError:
            self.eof = self.eof or "reset"
            self.out.clear()
            return 0
        del self.out[:n]
        return n

    def recv(self, k=1 << 18):
        if self.closed:
            return 0
        try:
            b = self.s.recv(k)
        except (BlockingIOError, InterruptedError):
            return 0
        except OSError:
            self.eof = self.eof or "reset"
            return 0
        if not b:
            self.eof = self.eof or "eof"
            return 0
        self.inb += b
        self.parse()
        return len(b)

    def parse(self):
        if not self.hands and self.inb:
            self.hands = 1
            self.version = self.inb[0]
            del self.inb[:1]
        while self.hands and len(self.inb) >= 16:
            pre, ver, fl, en, ty, n = struct.unpack_from("<IBBBBq", self.inb, 0)
            if pre != PREFIX or n < 0:
                self.msgs.append((None, ("garbled", bytes(self.inb[:64]))))
                self.inb.clear()
                self.eof = "garbled"
                return
            if len(self.inb) < 16 + n:
                return
            try:
                v, o = dec(bytes(self.inb[16:16 + n]))
                if o != n:
                    v = ("garbled", bytes(self.inb[:64]), o, n)
            except Exception as e:
                v = ("garbled", bytes(self.inb[:64]), repr(e))
            self.msgs.append((ty, v))
            del self.inb[:16 + n]

    def pump_until(self, cond, timeout):
        t = time.monotonic()
        while not cond(self):
            if self.eof:
                return bool(cond(self))
            if time.monotonic() - t > timeout:
                return False
            r, w, _ = select.select([self.s], [self.s] if self.out else [], [], 0.5)
            if w:
                self.send()
            if r:
                self.recv()
        return True

    def ask(self, v, timeout=60):
        """one request, one answer; None when there is none in time"""
        n = len(self.msgs)
        self.put(v if not isinstance(v, (str, bytes)) else ("str", v))
        if not self.pump_until(lambda c: len(c.msgs) > n, timeout):
            return None
        return self.msgs[n]

    def close(self, how="fin"):
        if self.closed:
            return
        self.closed = True
        if how == "rst":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def half(self):
        self.s.shutdown(socket.SHUT_WR)
