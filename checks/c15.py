"""remove_bg, center_data, prep_data_for_PR, psqrt and cart2pol on stacks of symbolic samples; the
solver decides the comparisons (mode, maximum, clipping) for every value."""
from fractions import Fraction

import numpy as np

from sx import optics as P
from sx.harness import Case
from sx.oracle import obj

BOUNDS = ("remove_bg: up to 4 free samples (5 thorough) of every integer type, values up to the type's limits (100000 for 32 and 64 bits), any real or integer multiplier; "
          "center_data: up to 9 free samples of up to 3 axes; prep_data_for_PR: stacks up to 2x4x5 of which 2 or 3 voxels are free and the rest one free background value, "
          "all targets from 1 to the larger size + 2, any multiplier; up to 4 voxels entirely free; psqrt, cart2pol: all reals")


def mode(B, xs):
    best, n = None, 0
    for i, v in enumerate(xs):
        c = 0
        for w in xs:
            if v == w:
                c += 1
        if c > n or (c == n and v < best):
            best, n = v, c
    return best


def bg(B, shape, dtype, mult):
    ii = np.iinfo(dtype)
    x = B.array("x", shape, "i", lo=0, hi=min(int(ii.max), 10 ** 5), dtype=dtype)
    x0 = x.copy()
    kw = {}
    if mult == "default":
        k = B.const(P3)
    elif mult == "int":
        k = kw["multiplier"] = B.int("m", -5, 5)
    else:
        k = kw["multiplier"] = B.real("m", -10, 10)
    y = B.m.utils.remove_bg(x, **kw)
    m = _py(B, mode(B, list(obj(x0).flat)))
    B.eq(y, B.arr(_map(x0, lambda v: _py(B, v) - k * m)), "background removed")
    B.eq(x, x0, "input untouched", out=False)


P3 = Fraction(3, 2)
PI = 3.1415926536


def _py(B, v):
    return v if B.sym else int(v)


def _map(x, f):
    a = obj(x)
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out.tolist()


def first_max(B, x):
    a = obj(x)
    it = list(np.ndindex(*a.shape))
    best = it[0]
    for i in it[1:]:
        if a[i] > a[best]:
            best = i
    return best


def roll(x, loc, to):
    a = obj(x)
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = a[tuple((j - t + l) % n for j, t, l, n in zip(i, to, loc, a.shape))]
    return out


def centre(B, shape, kind, dtype=None):
    kw = {} if kind == "f" else dict(lo=-100 if dtype is None else 0, hi=255)
    x = B.array("x", shape, kind, dtype=dtype, **kw)
    x0 = x.copy()
    y = B.m.utils.center_data(x)
    loc = first_max(B, x0)
    B.eq(y, B.arr(roll(x0, loc, [n // 2 for n in shape]).tolist()), "first maximum at n//2")
    B.eq(x, x0, "input untouched", out=False)


def prep(B, shape, size, free, dtype, mult):
    """A flat background with a few free voxels, or all free."""
    hi = min(int(np.iinfo(dtype).max), 10 ** 5)
    if free is None:
        x = B.array("x", shape, "i", lo=0, hi=hi, dtype=dtype)
    else:
        b = B.int("bg", 0, hi, dtype=dtype)
        a = np.empty(shape, object)
        a[...] = b
        for n, i in enumerate(free):
            a[i] = B.int("v%d" % n, 0, hi, dtype=dtype)
        x = B.arr(a.tolist(), np.dtype(dtype))
    x0 = x.copy()
    args = [] if size is None else [size]
    kw = {}
    k = B.const(P3)
    if mult:
        k = kw["multiplier"] = B.real("m", 0, 10)
    y = B.m.utils.prep_data_for_PR(x, *args, **kw)
    nz, ny, nx = shape
    s = max(ny, nx) if size is None else size
    B.same(tuple(y.shape), (nz, s, s), "shape")
    if tuple(y.shape) != (nz, s, s):
        return
    m = _py(B, mode(B, list(obj(x0).flat)))
    w = np.empty(shape, object)
    for i in np.ndindex(*shape):
        v = _py(B, obj(x0)[i]) - k * m
        w[i] = v if v > 0 else 0 * v
    if s < ny or s < nx:
        w = roll(w, first_max(B, x0), [n // 2 for n in shape])
    ref = np.empty((nz, s, s), object)
    for i in np.ndindex(nz, s, s):
        src = [i[0]]
        ok = True
        for j, n in zip(i[1:], (ny, nx)):
            # cropping keeps n//2 at s//2; padding follows fft_pad
            o = s // 2 - n // 2 if s < n else (s + 1) // 2 - (n + 1) // 2
            src.append(j - o)
            ok = ok and 0 <= j - o < n
        ref[i] = w[tuple(src)] if ok else 0
    B.eq(y, B.arr(ref.tolist(), float), "prepared data")
    B.eq(x, x0, "input untouched", out=False)


def sqrts(B, shape, kind):
    x = B.array("x", shape, kind, **(dict(lo=-1000, hi=1000) if kind == "i" else {}))
    x0 = x.copy()
    y = B.m.utils.psqrt(x)
    out = np.empty(shape, object)
    for i in np.ndindex(*shape):
        v = obj(x0)[i]
        out[i] = P.sqrt(B, v) if v > 0 else 0
    B.eq(y, B.arr(out.tolist(), float), "square root, 0 for negatives")
    B.eq(x, x0, "input untouched", out=False)


def sqrt1(B):
    v = B.real("v")
    B.eq(B.m.utils.psqrt(v), P.sqrt(B, v) if v > 0 else 0, "scalar")


def polar(B, form):
    if form == "scalar":
        y, x = B.real("y"), B.real("x")
    elif form == "array":
        y, x = B.array("y", (2, 2)), B.array("x", (2, 2))
    else:
        y, x = B.array("y", (2, 1)), B.array("x", (1, 2))
    rho, theta = B.m.utils.cart2pol(y, x)
    c, s = B.np.cos(theta), B.np.sin(theta)
    one = B.arr([[1.0, 1.0], [1.0, 1.0]]) if form == "grid" else 1
    B.eq(rho * c, x * one, "x = rho cos theta")
    B.eq(rho * s, y * one, "y = rho sin theta")
    B.eq(rho * rho, (x * x + y * y) * one, "rho")
    for r in (obj(rho).flat if form != "scalar" else [rho]):
        B.claim(r >= 0, "rho is not negative")
    for t in (obj(theta).flat if form != "scalar" else [theta]):
        B.claim(t <= PI, "theta up to pi")
        B.claim(t >= -PI, "theta from -pi")


def cases(tier):
    big = tier == "thorough"
    out = []
    for dt in ("uint8", "uint16", "uint32", "int8", "int16", "int32", "int64"):
        for mult in ("default", "int", "real"):
            out.append(Case("remove_bg %s %s multiplier" % (dt, mult), bg, split=True, shape=(3,), dtype=dt, mult=mult, weight=5))
    for s in ((2, 2), (1, 1), (2, 1, 2), (1, 4)) + (((5,), (1, 2, 3)) if big else ()):
        for dt in ("uint8", "int64"):
            out.append(Case("remove_bg %s %s" % ("x".join(map(str, s)), dt), bg, split=True, shape=s, dtype=dt, mult="default", weight=20, budget=200 if not big else 2000))
    for s in ((1,), (2,), (3,), (4,), (5,), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (2, 2, 2), (1, 3, 2), (3, 1, 2)):
        out.append(Case("center_data %s" % "x".join(map(str, s)), centre, split=True, shape=s, kind="f", weight=20, budget=200))
    out.append(Case("center_data int", centre, split=True, shape=(2, 3), kind="i"))
    out.append(Case("center_data uint8", centre, split=True, shape=(4,), kind="i", dtype="uint8"))
    for s, free in (((1, 3, 3), [(0, 0, 1), (0, 2, 0)]), ((2, 2, 3), [(0, 1, 2), (1, 0, 0), (1, 1, 1)]), ((1, 4, 2), [(0, 3, 1), (0, 0, 0)]),
                    ((2, 4, 5), [(1, 0, 4), (0, 3, 2)]), ((1, 3, 4), [(0, 1, 3), (0, 2, 2)]), ((2, 4, 4), [(1, 1, 0), (0, 3, 3)])):
        for size in [None] + list(range(1, max(s) + 3)):
            for dt in ("uint16", "int64") if size in (None, 2) else ("uint16",):
                out.append(Case("prep %dx%dx%d to %s %s" % (s + (size, dt)), prep, split=True, shape=s, size=size, free=free, dtype=dt, mult=size in (3, None),
                                weight=20, budget=200))
    for s in ((1, 2, 2), (2, 1, 2), (1, 1, 3)):
        for size in (None, 1, 3):
            out.append(Case("prep free %dx%dx%d to %s" % (s + (size,)), prep, split=True, shape=s, size=size, free=None, dtype="uint16", mult=False, weight=40, budget=200))
    out.append(Case("psqrt 2x2", sqrts, split=True, shape=(2, 2), kind="f"))
    out.append(Case("psqrt int", sqrts, split=True, shape=(3,), kind="i"))
    out.append(Case("psqrt scalar", sqrt1, split=True))
    for f in ("scalar", "array", "grid"):
        out.append(Case("cart2pol %s" % f, polar, form=f))
    return out
