"""zernike() executed on symbolic r and theta.  cos(m*theta) and sin(m*theta) are kept as formal
exponentials, the Jacobi polynomials become polynomials in r, and each value is compared with the
textbook radial sum; the unit-disk boundary r<=1 is a branch the solver decides."""
import math
from fractions import Fraction

import numpy as np

from sx.harness import Case

BOUNDS = ("all real r>=0 and theta; every Noll index 1..120 (single samples), every (n, m) with n<=8, |m|<=n (odd n-m included) and n up to 14 "
          "through the indices; r of shapes (), (2,), (2,2), (1,), integer r, and symbolic degrees -3..8; norm on and off")


def _noll(n, m):
    q = n % 4
    b = n * (n + 1) // 2 + abs(m)
    return b + (1 if m == 0 else (0 if q in (0, 1) else 1) if m > 0 else (0 if q in (2, 3) else 1))


DEG = {_noll(n, m): (n, m) for n in range(15) for m in range(-n, n + 1, 2)}


def zern(B, r, t, n, m, norm=True):
    """Textbook definition at one point."""
    a = abs(m)
    if (n - a) % 2 or r > 1:
        return 0 * r
    R = 0
    for s in range((n - a) // 2 + 1):
        c = (-1) ** s * math.factorial(n - s) // (math.factorial(s) * math.factorial((n + a) // 2 - s) * math.factorial((n - a) // 2 - s))
        R = R + c * r ** (n - 2 * s)
    if norm:
        R = R * B.np.sqrt((n + 1 if m == 0 else 2 * (n + 1)) * 1.0)
    return R * (B.np.cos(a * t) if m >= 0 else B.np.sin(a * t))


def ref(B, r, t, n, m, norm=True):
    o = np.empty(np.shape(r) if not B.sym else r.shape, object)
    for i in np.ndindex(*o.shape):
        o[i] = zern(B, r[i], t[i], n, m, norm)
    return B.arr(o.tolist())


def coords(B, shape, kind="f"):
    if kind == "i":
        r = B.array("r", shape, "i", lo=0, hi=3)
    else:
        r = B.array("r", shape, lo=0, hi=None)
    return r, B.array("t", shape)


def scalars(B, kind="f"):
    r = B.int("r", 0, 3) if kind == "i" else B.real("r", lo=0)
    return r, B.real("t")


def by_noll(B, js, norm):
    r, t = scalars(B)
    z = B.m.zernike.zernike
    kw = {} if norm is None else {"norm": norm}
    for j in js:
        n, m = DEG[j]
        y = z(r, t, j, **kw)
        B.eq(y, zern(B, r, t, n, m, norm is not False), "Noll %d" % j, scale=1)
        B.same(tuple(B.np.asarray(y).shape), (), "shape")


def forms(B, js, shape, kind="f", norm=None):
    """All call forms with a sequence of orders give one array per order, in order."""
    r, t = coords(B, shape, kind)
    r0, t0 = r.copy(), t.copy()
    z = B.m.zernike.zernike
    kw = {} if norm is None else {"norm": norm}
    want = B.np.array([ref(B, r0, t0, *DEG[j], norm is not False) for j in js])
    ns, ms = [DEG[j][0] for j in js], [DEG[j][1] for j in js]
    B.eq(z(r, t, js, **kw), want, "Noll sequence", scale=1)
    B.eq(z(r, t, np.array(js) if not B.sym else B.arr(js), **kw), want, "Noll array", scale=1, out=False)
    B.eq(z(r, t, (ns, ms), **kw), want, "tuple of degrees", scale=1, out=False)
    B.eq(z(r, t, ns, ms, **kw), want, "separate degrees", scale=1, out=False)
    B.eq(z(r, t, B.arr(ns), B.arr(ms), **kw), want, "separate degree arrays", scale=1, out=False)
    B.eq(z(r, t, js[0], **kw), want[0], "single Noll index", scale=1, out=False)
    B.eq(z(r, t, ns[1], ms[1], **kw), want[1], "single degrees", scale=1, out=False)
    B.eq(r, r0, "r untouched", out=False)
    B.eq(t, t0, "theta untouched", out=False)


def degrees(B, nlo, nhi, norm):
    """Symbolic degrees."""
    r, t = scalars(B)
    n = B.int("n", nlo, nhi)
    m = B.int("m", -nhi - 2, nhi + 2)
    z = B.m.zernike.zernike
    kw = {} if norm is None else {"norm": norm}
    if abs(m) > n:
        B.raises(ValueError, lambda: z(r, t, n, m, **kw), "|m| > n")
        return
    y = z(r, t, n, m, **kw)
    n, m = int(n), int(m)
    B.eq(y, zern(B, r, t, n, m, norm is not False), "value", scale=1)


def negative(B, shape):
    r = B.array("r", shape, lo=-5, hi=5)
    t = B.array("t", shape)
    bad = False
    for v in r.ravel():
        bad = bad | (v < 0)
    z = B.m.zernike.zernike
    if bad:
        B.raises(ValueError, lambda: z(r, t, 4), "negative r")
    else:
        B.eq(z(r, t, 4), ref(B, r, t, 2, 0), "value", scale=1)


def seq_errors(B):
    r, t = coords(B, (2,))
    z = B.m.zernike.zernike
    B.raises(ValueError, lambda: z(r, t, [2, 4], [0, 6]), "|m| > n in a sequence")
    B.raises(ValueError, lambda: z(r, t, ([2, 1], [0, -3])), "|m| > n in a tuple")


def cases(tier):
    big = tier == "thorough"
    out = []
    for k in range(1, 121, 8):
        out.append(Case("Noll %d..%d" % (k, k + 7), by_noll, js=list(range(k, k + 8)), norm=None, weight=k, budget=240))
    for k in (1, 10, 19, 28, 37) if not big else range(1, 121, 9):
        js = list(range(k, min(k + 9, 121)))
        out.append(Case("Noll %d..%d norm=False" % (k, js[-1]), by_noll, js=js, norm=False, weight=k))
        out.append(Case("Noll %d..%d norm=True" % (k, js[-1]), by_noll, js=js, norm=True, weight=k))
    for shape in [(2,), (3,), (2, 2)]:
        out.append(Case("call forms %s" % (shape,), forms, js=[4, 1, 7, 2], shape=shape, weight=60, budget=120))
    out.append(Case("call forms high orders", forms, js=[36, 11, 22], shape=(2,), weight=60))
    out.append(Case("call forms ints", forms, js=[4, 2, 11], shape=(2,), kind="i", weight=60))
    out.append(Case("call forms norm=False", forms, js=[3, 12, 2], shape=(2,), norm=False, weight=60))
    for lo, hi in [(-3, 3), (4, 5), (6, 7)] + ([(8, 9), (10, 11), (12, 14)] if big else [(8, 8)]):
        for norm in (None, False):
            out.append(Case("degrees %d..%d norm=%s" % (lo, hi, norm), degrees, nlo=lo, nhi=hi, norm=norm, weight=70, budget=240))
    out.append(Case("negative r", negative, shape=(2,)))
    out.append(Case("negative r 2D", negative, shape=(2, 2)))
    out.append(Case("errors in sequences", seq_errors))
    return out
