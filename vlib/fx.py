"""Conversion of numbers to the integers the specification works on (see spec/Num.tla)."""
import math
import numpy as np

FX = 65536
NAN, PINF, NINF, MAXFX = -2000000001, 2000000000, -2000000000, 1900000000


def fx(x):
    """Real number -> fixed point (units of 1/65536), with tokens for NaN and infinities."""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    v = round(x * FX) if abs(x) < 40000 else (MAXFX if x > 0 else -MAXFX)
    return int(max(-MAXFX, min(MAXFX, v)))


def ex(x):
    """Exact integer (or a token when it is not one)."""
    x = x.item() if hasattr(x, "item") else x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, complex):
        return NAN
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        if x != int(x):
            return NAN
        x = int(x)
    if not isinstance(x, int):
        return NAN
    return x if abs(x) <= MAXFX else (MAXFX if x > 0 else -MAXFX)


def _map(a, f):
    if isinstance(a, np.ndarray):
        a = a.tolist() if a.dtype.kind in "iubfO" else a.astype(float).tolist()
    if isinstance(a, (list, tuple)):
        return [_map(v, f) for v in a]
    return f(a)


def fxa(a):
    return _map(np.asarray(a, dtype=float), fx)


def exa(a):
    return _map(np.asarray(a), ex)


def shape(a):
    return list(np.shape(a))


def mat(a, f=fx):
    """A two-dimensional array as rows; anything else as the empty list of rows."""
    a = np.asarray(a)
    if a.ndim != 2:
        return []
    return [[f(v) for v in row] for row in a.tolist()] if a.dtype.kind in "iubf" else []


def vec(a, f=fx):
    a = np.asarray(a)
    if a.ndim != 1 or a.dtype.kind not in "iubf":
        return []
    return [f(v) for v in a.tolist()]


def fl(x):
    """Real number -> the pair <<m, e>> of Num.tla with 2^14 <= |m| <= 2^15."""
    x = float(x)
    if x == 0 or not math.isfinite(x):
        return [0, 0]
    m, e = math.frexp(x)
    return [round(m * 32768), e - 15]


def fla(a):
    return _map(np.asarray(a, dtype=float), fl)
