"""Reference model of the scalar aggregates."""
import math
from fractions import Fraction
from val import *

SUMT = {"U8": "i64", "I16": "i64", "I32": "i32", "I64": "i64", "F64": "f64", "TIME": "time"}
AVGT = ["U8", "I16", "I32", "I64", "F64"]
MEDT = ["U8", "I16", "I64"]
DEVT = ["U8", "I16", "I32", "I64", "F64"]
MMT = ["U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP"]
ANY = list(CODE)


def nn(xs):
    return [x for x in xs if x is not None]


def near(want, scale):
    """floating result within rounding of a sum of terms of that magnitude"""
    def f(got):
        if got[0] != "f64":
            return "want f64 %r" % want
        g = got[1]
        if want is None or g is None:
            return None if want is g else "want %r" % want
        if g == want or abs(g - want) <= scale:
            return None
        return "want %r (tolerance %g)" % (want, scale)
    return f


def agg(op, T, xs):
    """expected value (or a judge) of (op vec)"""
    v = nn(xs)
    if op == "count":
        return ("i64", len(xs))
    if op in ("first", "last"):
        if not xs:
            return None
        x = xs[0] if op == "first" else xs[-1]
        return x if T == "list" else (T.lower(), x)
    if op in ("min", "max"):
        if not v:
            return (T.lower(), 0) if T == "U8" else (T.lower(), None)
        return (T.lower(), min(v) if op == "min" else max(v))
    if op == "sum":
        if T == "F64":
            s = math.fsum(v)
            return near(s, 1e-13 * (len(v) + 10) * (max(map(abs, v)) if v else 0) + 1e-300)
        s = sum(v)
        b = 2 ** (31 if SUMT[T] in ("i32", "time") else 63)
        return (SUMT[T], s) if -b < s < b else None
    if op == "avg":
        if not v:
            return ("f64", None)
        m = max(map(abs, v))
        s = math.fsum(v) / len(v) if T == "F64" else float(Fraction(sum(v), len(v)))
        return near(s, 1e-13 * (len(v) + 10) * m / (1 if T == "F64" else len(v)) + 1e-15 * m)
    if op == "med":
        if not v:
            return ("f64", None)
        w = sorted(v)
        k = len(w)
        return near((w[k // 2] + w[(k - 1) // 2]) / 2.0, 1e-15 * max(map(abs, w)))
    if op == "dev":
        if not v:
            return ("f64", None)
        if T == "F64":
            m = math.fsum(v) / len(v)
            s = math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))
        else:
            m = Fraction(sum(v), len(v))
            s = math.sqrt(Fraction(sum(x * x for x in v), len(v)) - m * m)
        return near(s, 1e-9 * (s + 1e-3 * max(map(abs, v)) + 1e-12))
