"""Encoding of IEEE doubles as the dyadic tuples of spec/Dyadic.tla:
<<sign, exponent, limb0, limb1, ...>>, base 2^15, canonical (no leading/trailing zero limbs)."""
import math
import numpy as np

B = 15


def enc(v):
    v = float(v)
    if v != v:
        return [7, 0]
    if v == math.inf:
        return [8, 0]
    if v == -math.inf:
        return [9, 0]
    if v == 0.0:
        return [0, 0]
    s = 1 if v > 0 else -1
    m, e = math.frexp(abs(v))
    k = int(m * 9007199254740992)  # 2^53
    e -= 53
    q, r = divmod(e, B)
    k <<= r
    while k & 32767 == 0:
        k >>= B
        q += 1
    out = [s, q]
    while k:
        out.append(k & 32767)
        k >>= B
    return out


def encv(a):
    return [enc(v) for v in np.asarray(a, dtype=float).ravel()]


def encm(a):
    return [encv(r) for r in np.asarray(a, dtype=float)]


def undy(d):
    """inverse of enc"""
    if d[0] in (7, 8, 9):
        return {7: math.nan, 8: math.inf, 9: -math.inf}[d[0]]
    v = 0
    for l in reversed(d[2:]):
        v = (v << B) | l
    return math.ldexp(float(v), d[1] * B) * d[0] if v else 0.0
