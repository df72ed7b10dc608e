"""Reference computations, written independently of the code under test and usable on both backends
(symbolic values or floats).  Deliberately plain: loops and defining sums."""
import cmath
import itertools
import math
from fractions import Fraction

import numpy as np

from . import num as N
from . import snp


def root(B, k, n):
    """exp(2 pi i k/n), exact on the symbolic side."""
    if B.sym:
        c = N.Cyc.root(k % n, n)
        return SN(c)
    k %= n
    return cmath.exp(2j * math.pi * k / n)


def SN(c):
    return N.SNum({0: c}, "c") if not isinstance(c, int) else N.SNum({0: c} if c else {}, "c")


def wrap(B, out, dt=complex):
    if B.sym:
        return snp.from_objects(out, np.dtype(dt))
    return np.array(out.tolist(), dtype=dt).reshape(out.shape)


def obj(x):
    return x.a if isinstance(x, snp.SymArray) else np.asarray(x)


def cdft(B, x, axes, inverse=False):
    """Centred DFT by its definition: index n//2 is zero position and zero frequency."""
    a = obj(x)
    for ax in axes:
        a = _cdft1(B, a, ax % a.ndim, inverse)
    return wrap(B, a)


def _cdft1(B, a, ax, inverse):
    n = a.shape[ax]
    c = n // 2
    s = 1 if inverse else -1
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        k = i[ax] - c
        t = 0
        for j in range(n):
            v = a[i[:ax] + (j,) + i[ax + 1:]]
            t = v * root(B, s * k * (j - c), n) + t
        out[i] = t / n if inverse else t
    return out


def freq(n, d, i):
    """i-th DFT frequency of n samples spaced d, in unshifted order."""
    return (i if i < (n + 1) // 2 else i - n) / (d * n)


def amap(B, shape, f, dt=float):
    out = np.empty(shape, object)
    for i in np.ndindex(*shape):
        out[i] = f(*i)
    return wrap(B, out, dt)
