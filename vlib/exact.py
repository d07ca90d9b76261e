"""Exact (rational) Bardell polynomials, for the basis and integral oracles."""
from fractions import Fraction as Fr
from functools import lru_cache


@lru_cache(None)
def legendre(k):
    if k == 0:
        return (Fr(1),)
    if k == 1:
        return (Fr(0), Fr(1))
    a = [Fr(0)] + [Fr(2*k - 1, k)*c for c in legendre(k-1)]
    for i, c in enumerate(legendre(k-2)):
        a[i] -= Fr(k - 1, k)*c
    return tuple(a)


def add(p, q, s=1):
    n = max(len(p), len(q))
    return tuple((p[i] if i < len(p) else 0) + s*(q[i] if i < len(q) else 0) for i in range(n))


def scale(p, s):
    return tuple(c*s for c in p)


@lru_cache(None)
def poly(i, d=0):
    """Ascending coefficients of the d-th derivative of term i (0-based)."""
    if d:
        p = poly(i, d - 1)
        return tuple(k*p[k] for k in range(1, len(p))) or (Fr(0),)
    if i < 4:
        return [(Fr(1, 2), Fr(-3, 4), Fr(0), Fr(1, 4)), (Fr(1, 8), Fr(-1, 8), Fr(-1, 8), Fr(1, 8)),
                (Fr(1, 2), Fr(3, 4), Fr(0), Fr(-1, 4)), (Fr(-1, 8), Fr(-1, 8), Fr(1, 8), Fr(1, 8))][i]
    a = scale(add(legendre(i), legendre(i-2), -1), Fr(1, 2*i - 1))
    b = scale(add(legendre(i-2), legendre(i-4), -1), Fr(1, 2*i - 5))
    return scale(add(a, b, -1), Fr(1, 2*i - 3))


@lru_cache(None)
def integral(i, di, j, dj):
    """int_-1^1 f_i^(di) f_j^(dj), all flags 1."""
    p, q = poly(i, di), poly(j, dj)
    tot = Fr(0)
    for a, x in enumerate(p):
        if x == 0:
            continue
        for b, y in enumerate(q):
            if y != 0 and (a + b) % 2 == 0:
                tot += x*y*Fr(2, a + b + 1)
    return tot
