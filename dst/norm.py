"""Outcomes as plain data, and their comparison."""

import math
import re

import numpy as np

_ADDR = re.compile(r"0x[0-9a-fA-F]+")


def value(v, depth=0):
    """Plain-data form of a returned value."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, np.ma.MaskedArray):
        return ["ma", value(np.ma.getmaskarray(v)), value(v.filled(0))]
    if isinstance(v, np.ndarray) and v.dtype.names:
        return ["rec", {n: value(np.asarray(v[n])) for n in v.dtype.names}]
    if isinstance(v, np.void) and v.dtype.names:
        return ["rec", {n: value(v[n]) for n in v.dtype.names}]
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return ["n", num(float(v))]
    if isinstance(v, np.ndarray):
        if v.ndim == 0 and v.dtype.kind in "fiub":
            return ["n", num(float(v))]
        if v.dtype.kind in "fiub":
            return ["a", list(v.shape), [num(float(x)) for x in v.ravel()]]
        return ["o", list(v.shape), [value(x, depth + 1) for x in v.ravel().tolist()]]
    if isinstance(v, (list, tuple)):
        return ["l", [value(x, depth + 1) for x in v]]
    if isinstance(v, dict) or hasattr(v, "items"):
        if depth > 4:
            return ["deep"]
        return ["d", {str(k): value(x, depth + 1) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}]
    return ["r", type(v).__name__]


def given(v):
    """Plain-data form of an object that a caller handed in: everything the caller can tell."""
    if isinstance(v, np.ma.MaskedArray):
        return ["gma", v.dtype.str, bool(v.flags.writeable), value(v.data), value(np.ma.getmaskarray(v)), bool(v.hardmask), value(v.fill_value)]
    if isinstance(v, np.ndarray):
        r = ["ga", v.dtype.str, bool(v.flags.writeable), list(v.strides), value(v)]
        if type(v) is not np.ndarray:
            r.append([type(v).__name__, str(vars(v))])
        if isinstance(v.base, np.ndarray):
            r.append(value(np.asarray(v.base)))
        return r
    if type(v).__module__.split(".")[0] == "pandas":
        return ["gs", str(v.dtype), [str(x) for x in v.index], str(v.name), str(v.index.name), str(v.attrs), bool(v.to_numpy().flags.writeable), value(np.asarray(v))]
    if isinstance(v, (list, tuple)):
        return ["gl", type(v).__name__, [type(x).__name__ for x in v], value(v)]
    if hasattr(v, "items"):
        return ["gd", type(v).__name__, sorted([str(k), type(x).__name__] for k, x in v.items()), value(dict(v.items()))]
    return value(v)


def num(x):
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x


def exc(e):
    return ["exc", type(e).__name__, _ADDR.sub("0x", str(e))[:300]]


RTOL = 1e-12  # C12 compares exactly (exact())


def same_num(a, b, scale=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a == b:
        return True
    return abs(a - b) <= RTOL * max(abs(a), abs(b), scale)


def exact():
    global RTOL
    RTOL = 0.0


def diff(a, b, path=""):
    """None if equal, else a short description of the first difference (a: got, b: expected)."""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return "%s: got %s, expected %s" % (path or "value", short(a), short(b))
    if isinstance(a, list):
        if len(a) == 3 and a and a[0] == "a" and len(b) == 3 and b[0] == "a":
            if a[1] != b[1]:
                return "%s: shape %s, expected %s" % (path, a[1], b[1])
            scale = max([abs(x) for x in b[2] if not isinstance(x, str)] or [0.0])
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                if not same_num(x, y, scale * 1e-3):
                    return "%s[%d]: got %s, expected %s" % (path, i, x, y)
            return None
        if len(a) != len(b):
            return "%s: got %s, expected %s" % (path or "value", short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + (".%d" % i if len(a) > 2 else ""))
            if d:
                return d
        return None
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s.%s: missing, expected %s" % (path, k, short(b[k]))
            if k not in b:
                return "%s.%s: got unexpected %s" % (path, k, short(a[k]))
            d = diff(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, bool) or isinstance(a, str) or a is None:
        return None if a == b else "%s: got %r, expected %r" % (path or "value", a, b)
    return None if same_num(a, b) else "%s: got %r, expected %r" % (path or "value", a, b)


def diff0(a, b):
    """Like diff, but numbers must be the same to the last bit."""
    global RTOL
    r, RTOL = RTOL, 0.0
    try:
        return diff(a, b)
    finally:
        RTOL = r


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."
