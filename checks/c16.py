"""radial_profile on symbolic samples, centres and bin sizes against the mean and deviation of each ring by definition."""
import math
from fractions import Fraction

import numpy as np

from sx import optics as P
from sx.harness import Case
from sx.oracle import obj

BOUNDS = ("all real or complex samples, and all integers of every type; shapes up to 6x6 with the default centre and given centres and bin sizes; "
          "shapes up to 3x2 with symbolic centre (within 3 pixels of the array), 4x3 with any sample as centre, or bin size (0.4 to 4)")

half = Fraction(1, 2)


def rings(B, shape, center, binsize):
    """Ring of every sample; halves round to even, as numpy rounds."""
    out = {}
    top = 0
    for i in np.ndindex(*shape):
        d = [i[a] - center[a] for a in range(2)]
        r2 = d[0] * d[0] + d[1] * d[1]
        # the integer k with |r - k b| <= b / 2
        k = 0
        while True:
            m = (k + B.const(half)) * binsize
            m2 = m * m
            if r2 < m2 or (k % 2 == 0 and r2 == m2):
                break
            k += 1
        out.setdefault(k, []).append(i)
        top = max(top, k)
    return out, top + 1


def check(B, data, got, center, binsize, cplx):
    mean, std = got
    a = obj(data)
    rs, n = rings(B, a.shape, center, binsize)
    B.same(tuple(mean.shape), (n,), "number of rings")
    B.same(tuple(std.shape), (n,), "number of deviations")
    for k in range(n):
        if k not in rs:
            continue
        xs = [a[i] for i in rs[k]]
        c = len(xs)
        m = _sum(B, xs) / c
        B.eq(mean[k], m, "mean of ring %d" % k, scale=1)
        v = 0
        for x in xs:
            d = x - m
            v = v + (P.abs2(d) if cplx else d * d)
        v = v / c
        s = std[k]
        if B.sym:
            B.eq(s, P.sqrt(B, v), "deviation of ring %d" % k)
        else:
            B.eq(s, math.sqrt(v), "deviation of ring %d" % k, scale=1 + max(abs(x) for x in xs))


def _sum(B, xs):
    t = 0
    for x in xs:
        t = t + (x if B.sym else (complex(x) if isinstance(x, (complex, np.complexfloating)) else float(x)))
    return t


def default(B, shape, kind):
    data = B.array("x", shape, kind, lo=-1000 if kind == "i" else None, hi=1000 if kind == "i" else None)
    check(B, data, B.m.utils.radial_profile(data), [n // 2 for n in shape], 1, kind == "c")


def narrow(B, shape, dtype):
    ii = np.iinfo(dtype)
    data = B.array("x", shape, "i", lo=int(ii.min), hi=int(ii.max), dtype=dtype)
    check(B, data, B.m.utils.radial_profile(data), [n // 2 for n in shape], 1, False)


def given(B, shape, kind, center, binsize):
    data = B.array("x", shape, kind)
    check(B, data, B.m.utils.radial_profile(data, B.arr(center) if B.choice("as array", (True, False)) else center, binsize), center, binsize, kind == "c")


def where(B, shape, binsize):
    """Any centre."""
    data = B.array("x", shape, "f")
    c = [B.real("c%d" % a, lo=-3, hi=shape[a] + 2, sample=(-1, shape[a])) for a in range(2)]
    check(B, data, B.m.utils.radial_profile(data, center=tuple(c), binsize=binsize), c, binsize, False)


def icentre(B, shape, kind, margin=2):
    """Any integer centre."""
    data = B.array("x", shape, kind)
    c = [B.int("c%d" % a, lo=-margin, hi=shape[a] - 1 + margin) for a in range(2)]
    check(B, data, B.m.utils.radial_profile(data, tuple(c)), c, 1, kind == "c")


def width(B, shape, center):
    """Any bin size."""
    data = B.array("x", shape, "f")
    b = B.real("b", lo=Fraction(2, 5), hi=4, sample=(0.5, 3.5))
    check(B, data, B.m.utils.radial_profile(data, center, b), [n // 2 for n in shape] if center is None else center, b, False)


def cases(tier):
    big = tier == "thorough"
    out = []
    for s in ((1, 1), (1, 4), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (5, 4), (5, 5), (6, 6)) + (((7, 7), (8, 8), (7, 10)) if big else ()):
        for k in ("f", "c") + (("i",) if s[0] < 6 else ()):
            out.append(Case("default %dx%d %s" % (s + (k,)), default, shape=s, kind=k, weight=s[0] * s[1]))
    for dt in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "int64"):
        out.append(Case("integers %s" % dt, narrow, shape=(3, 3), dtype=dt))
    for s in ((3, 3), (4, 3), (3, 5)):
        for c in ((0, 0), (1, 2), (0.5, 1.25), (-1, 4)):
            for b in (1, 2, 0.5, 1.5, 3):
                for k in ("f", "c") if (b in (1, 2) and s == (4, 3)) else ("f",):
                    out.append(Case("centre %s bins %s on %dx%d %s" % (c, b, s[0], s[1], k), given, shape=s, kind=k, center=c, binsize=b))
    for s in ((2, 2), (3, 2)):
        out.append(Case("any integer centre %dx%d" % s, icentre, split=True, shape=s, kind="f", weight=30, budget=300))
    out.append(Case("any integer centre 2x2 complex", icentre, split=True, shape=(2, 2), kind="c", weight=30, budget=300))
    out.append(Case("any integer centre 4x3", icentre, split=True, shape=(4, 3), kind="f", weight=60, budget=300, margin=2 if big else 0))
    for s in ((1, 1), (1, 2), (2, 2) if big else (2, 1)):
        for b in (1, 2):
            out.append(Case("any centre %dx%d bins %s" % (s + (b,)), where, split=True, shape=s, binsize=b, weight=50, budget=300 if not big else 2500))
    for s in ((2, 2), (3, 2), (3, 3), (4, 4), (5, 5)):
        out.append(Case("any bin size %dx%d" % s, width, split=True, shape=s, center=None, weight=50, budget=300))
    out.append(Case("any bin size 3x3 from (0.5, 2)", width, split=True, shape=(3, 3), center=(0.5, 2), weight=50, budget=300))
    return out
