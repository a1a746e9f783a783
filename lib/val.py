"""Values: the Python side of the harness dump, generators, literals and binding frames.

A value is a tuple: ('i64', 5) atom (None = null), ('I64', [..]) vector (None = null element),
('C8', 'text') string, ('list', [values]), ('table', keys, vals), ('dict', k, v), ('err', name),
('null',) ..."""
import json, math, struct
from drv import Rfh

CODE = {"B8": 1, "U8": 2, "I16": 3, "I32": 4, "I64": 5, "SYMBOL": 6, "DATE": 7, "TIME": 8, "TIMESTAMP": 9,
        "F64": 10, "GUID": 11, "C8": 12}
SIZE = {"B8": 1, "U8": 1, "I16": 2, "I32": 4, "I64": 8, "SYMBOL": 8, "DATE": 4, "TIME": 4, "TIMESTAMP": 8,
        "F64": 8, "GUID": 16, "C8": 1}
NULLI = {"I16": -2**15, "I32": -2**31, "DATE": -2**31, "TIME": -2**31, "I64": -2**63, "TIMESTAMP": -2**63}
BITS = {"B8": 1, "U8": 8, "I16": 16, "I32": 32, "DATE": 32, "TIME": 32, "I64": 64, "TIMESTAMP": 64}
NULLSYM = {"I16": "0Nh", "I32": "0Ni", "I64": "0Nl", "DATE": "0Nd", "TIME": "0Nt", "TIMESTAMP": "0Np", "F64": "0Nf", "SYMBOL": "0Ns", "GUID": "0Ng"}
ZG = "0" * 32


def norm(j):
    """JSON dump -> value."""
    t = j[0]
    T = t.upper()
    if t == "err":
        return ("err", j[1])
    if t == "null":
        return ("null",)
    if t in ("list",) or (t[0] == "t" and t[1:].isdigit()):
        return (t, [norm(x) for x in j[1]])
    if t in ("table", "dict", "enum", "lambda"):
        return (t, norm(j[1]), norm(j[2]))
    if t == "C8":
        return ("C8", j[1])
    if t == "maplist":
        return (t, norm(j[1]))
    if t == "enumx":
        return (t, j[1], j[2])
    if T in CODE:
        if t == T:
            return (T, [nel(T, x) for x in j[1]])
        return (t, nel(T, j[1]))
    return tuple(json.dumps(x) if isinstance(x, (list, dict)) else x for x in j)


def nel(T, x):
    if T in NULLI:
        return None if x == NULLI[T] else x
    if T == "F64":
        return None if x != x else x
    if T == "GUID":
        return None if x == ZG else x
    return x


def raw(T, x):
    """element -> bytes"""
    if T in NULLI:
        if x is None:
            x = NULLI[T]
        return struct.pack({2: "<h", 4: "<i", 8: "<q"}[SIZE[T]], x)
    if T == "F64":
        return struct.pack("<d", float("nan") if x is None else x)
    if T == "GUID":
        return bytes.fromhex(x or ZG)
    if T == "C8":
        return x.encode("latin1")
    return struct.pack("<B", int(x))


FMT = {"I16": "h", "I32": "i", "DATE": "i", "TIME": "i", "I64": "q", "TIMESTAMP": "q", "F64": "d", "B8": "B", "U8": "B"}


def rawvec(T, xs):
    if T in FMT:
        nv = NULLI.get(T, float("nan") if T == "F64" else 0)
        return struct.pack("<%d%s" % (len(xs), FMT[T]), *[nv if x is None else x for x in xs])
    return b"".join(raw(T, x) for x in xs)


class G:
    """Counter of temporary global names for composite binds."""
    n = 0

    @classmethod
    def name(cls):
        cls.n += 1
        return "tmp%d" % cls.n


def bind(name, v):
    """Frames that bind global `name` to value v (atoms, vectors, strings, lists, dicts, tables)."""
    t = v[0]
    if t == "SYMBOL":
        return [Rfh.Y(name, v[1])]
    if t == "C8":
        return [Rfh.V(name, 12, v[1].encode("latin1"), len(v[1]))]
    if t in CODE:
        return [Rfh.V(name, CODE[t], rawvec(t, v[1]), len(v[1]))]
    if t == "list":
        fr, names = [], []
        for x in v[1]:
            n = G.name()
            fr += bind(n, x)
            names.append(n)
        fr.append(Rfh.G(name, names))
        return fr
    if t in ("table", "dict"):
        a, b = G.name(), G.name()
        return bind(a, v[1]) + bind(b, v[2]) + [Rfh.E("(set %s (%s %s %s))" % (name, t, a, b))]
    if t == "null":
        return [Rfh.E("(set %s null)" % name)]
    # atoms: element 0 of a one-element vector
    T = t.upper()
    if T == "SYMBOL":
        n = G.name()
        return [Rfh.Y(n, [v[1]]), Rfh.E("(set %s (at %s 0))" % (name, n))]
    n = G.name()
    if T == "C8":
        return [Rfh.V(n, 12, v[1].encode("latin1"), 1), Rfh.E("(set %s (at %s 0))" % (name, n))]
    return [Rfh.V(n, CODE[T], raw(T, v[1]), 1), Rfh.E("(set %s (at %s 0))" % (name, n))]


def strlit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'


# ---- generators
ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def sym(r, dom=12):
    k = r.randrange(dom)
    return ("s%d" % k) if r.random() < 0.6 else ALNUM[k % 52] * (1 + k % 9)


def rng_int(T):
    if T == "B8":
        return 0, 1
    if T == "U8":
        return 0, 255
    b = BITS[T]
    return -2 ** (b - 1) + 1, 2 ** (b - 1) - 1


def elem(r, T, mode="small", pnull=0.0):
    """mode: small (few distinct, duplicates), mid, full (whole range), edge, big"""
    if T in NULLI or T in ("F64", "SYMBOL", "GUID"):
        if pnull and r.random() < pnull:
            return None
    if T == "SYMBOL":
        return sym(r, 8 if mode == "small" else 400)
    if T == "C8":
        return r.choice("abc") if mode == "small" else chr(r.randrange(33, 127))
    if T == "GUID":
        return "%032x" % (r.randrange(1, 6) if mode == "small" else r.getrandbits(128) | 1)
    if T == "B8":
        return r.randrange(2)
    if T == "F64":
        if mode == "small":
            return float(r.choice([0, 1, -1, 2, 0.5, -2.5, 3.25, 7]))
        if mode == "mid":
            return round(r.uniform(-1000, 1000), 3)
        if mode == "edge":
            return r.choice([0.0, -0.0, 1e308, -1e308, 5e-324, 1.5, -1.5, 2.0**53, -2.0**53, 1e15, 0.1, float("inf"), float("-inf")])
        x = struct.unpack("<d", struct.pack("<q", r.getrandbits(62) * r.choice([1, -1])))[0]
        return 1.25 if x != x else x
    lo, hi = rng_int(T)
    if mode == "small":
        if T == "U8":
            return r.randrange(0, 6)
        return r.randrange(-3, 6)
    if mode == "mid":
        return max(lo, min(hi, r.randrange(-1000, 1000)))
    if mode == "edge":
        return r.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1 if lo < 0 else 2, 2, lo // 2, hi // 2])
    return r.randint(lo, hi)


def vec(r, T, n, mode="small", pnull=0.0):
    if T == "C8":
        return ("C8", "".join(elem(r, T, mode) for _ in range(n)))
    return (T, [elem(r, T, mode, pnull) for _ in range(n)])


def els(v):
    """elements of a vector/list as atoms"""
    if v[0] == "list":
        return list(v[1])
    return [(v[0].lower(), x) for x in v[1]]


def close(a, b, rel=1e-9, ab=1e-9):
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def same(a, b, rel=0.0):
    """exact equality of values; rel>0 lets floating point differ by that relative amount"""
    if a[0] != b[0]:
        return False
    t = a[0]
    if t == "F64" and rel:
        return len(a[1]) == len(b[1]) and all(close(x, y, rel, rel) for x, y in zip(a[1], b[1]))
    if t == "f64" and rel:
        return close(a[1], b[1], rel, rel)
    if t == "list":
        return len(a[1]) == len(b[1]) and all(same(x, y, rel) for x, y in zip(a[1], b[1]))
    if t in ("table", "dict"):
        return same(a[1], b[1], rel) and same(a[2], b[2], rel)
    return a == b


def show(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b, rel=0.0):
    """where two values first differ"""
    if a[0] != b[0]:
        return "want %s, got %s" % (show(a, 700), show(b, 700))
    if a[0] in ("table", "dict"):
        return diff(a[1], b[1], rel) if not same(a[1], b[1], rel) else diff(a[2], b[2], rel)
    if len(a) == 2 and len(b) == 2 and a[0] == (a[0] if a[0] == "list" else a[0].upper()) and isinstance(a[1], (list, str)):
        if len(a[1]) != len(b[1]):
            return "want length %d, got %d: want %s, got %s" % (len(a[1]), len(b[1]), show(a, 500), show(b, 500))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if a[0] == "list":
                if not same(x, y, rel):
                    return "at %d: %s" % (i, diff(x, y, rel))
            elif not same((a[0].lower(), x), (a[0].lower(), y), rel):
                return "at %d of %d: want %r, got %r" % (i, len(a[1]), x, y)
    return "want %s, got %s" % (show(a, 700), show(b, 700))
