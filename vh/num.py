"""Encoding of Python values for Num.tla (see there)."""
import math
import numpy as np

SCALE = 10 ** 16


def num(x):
    """float/int -> limb tuple of Num.tla"""
    x = float(x) if not isinstance(x, (int, np.integer)) else int(x)
    if isinstance(x, float):
        if math.isnan(x):
            return [9]
        if math.isinf(x):
            return [8] if x > 0 else [-8]
        n, d = x.as_integer_ratio()
        u = abs(n) * SCALE // d
        neg = n < 0
    else:
        u = abs(x) * SCALE
        neg = x < 0
    if u == 0:
        return [0]
    out = [-1 if neg else 1]
    while u:
        u, r = divmod(u, 10000)
        out.append(r)
    return out


def vec(v):
    return [num(x) for x in np.asarray(v, dtype=float).ravel()]


def mat(m):
    return [[num(x) for x in row] for row in np.asarray(m, dtype=float)]


def dec(t):
    """inverse of num (for messages)"""
    if t == [9]:
        return float('nan')
    if t == [8]:
        return float('inf')
    if t == [-8]:
        return float('-inf')
    u = 0
    for limb in reversed(t[1:]):
        u = u * 10000 + limb
    return t[0] * u / SCALE


def isnum(t):
    return isinstance(t, list) and t and all(isinstance(i, int) for i in t) and (
        t in ([9], [8], [-8], [0]) or t[0] in (-1, 1))
