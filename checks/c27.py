"""ApotomeMicroscope around a model whose intensity is free: the PSF against the intensity weighted plane by plane with the
ring average of the plane's DFT, ring and Abbe frequency by their formulas."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, cdft, obj
from checks import scope as S

BOUNDS = ("fine grids of 1 to 7 pixels with 1 to 3 planes, factors 1 and 3, every non-negative intensity of up to 4 pixels in one plane and 3 pixels in 2 planes; else 2 or 4 free voxels per plane (none for 5 and 7 pixels); every na, wl and pixel size within the Abbe limit")


def ring(B, n, k):
    """Samples whose distance from n // 2 rounds to k, halves to even (no distance of integer points is a half)."""
    c = n // 2
    return [(i, j) for i in range(n) for j in range(n) if (2 * k - 1) ** 2 < 4 * ((i - c) ** 2 + (j - c) ** 2) <= (2 * k + 1) ** 2 or k == 0 and i == j == c]


def rounded(B, x):
    """Nearest integer, halves to even, by searching."""
    q = 0
    while x > q + F(1, 2):
        q += 1
    if q % 2 == 0:
        if x == q + F(1, 2):
            return q
    elif x == q + F(1, 2):
        return q + 1
    return q


def weights(B, I, L):
    o = obj(cdft(B, I, (1, 2)))
    n = o.shape[1]
    pts = ring(B, n, L // 2)
    out = []
    for p in o:
        s = S.total(p[q] for q in pts) / len(pts)
        out.append(O.sqrt(B, O.abs2(s if B.sym else complex(s))))
    return out


def run(B, size, nz, f, free, how):
    n = size * f
    wl, na, px = 0.5, 0.9, 0.2
    if how != "fixed":
        wl = B.real("wl", pos=True, sample=(0.4, 0.8)) if how != "px" else wl
        na = B.real("na", pos=True, sample=(0.5, 1.4)) if how != "px" else na
        px = B.real("px", pos=True, sample=(0.05, 0.25)) if how == "px" else px
        B.assume(na <= 1.5)
        B.assume(2 * na * px < wl * f)
        # the Abbe frequency not within rounding of a half (where, besides, both roundings name the same ring)
        x = 2 * n * (px / f) * na / wl
        for q in range(2 * n + 1):
            B.assume(abs(x - q - 0.5) > 1e-6)
    m = S.make(B, "apotome", size, f, wl=wl, na=na, pixel=px, zsize=nz, zres=0.3)
    if free is None:
        I = B.array("I", (nz, n, n), lo=0, hi=4)
    else:
        c = n // 2
        pts = ((c, c), (0, 0), (0, c), (c, n - 1))[:free]
        I = amap(B, (nz, n, n), lambda l, i, j: B.real("I%d%d%d" % (l, i, j), lo=0, hi=4, sample=(0, 2)) if (i, j) in pts else B.const(F(1 + (i * 3 + j * 5 + l * 2) % 7, 4)))
    m.model = S.stub(B, m.model, I)
    L = rounded(B, 2 * n * (px / f) * na / wl)
    w = weights(B, m.model.PSFi, L)
    a = obj(I)
    ref = S.image(B, amap(B, (nz, n, n), lambda l, i, j: a[l, i, j] * w[l]), size, f)
    B.eq(m.PSF, ref, "PSF")
    B.eq(m.model.PSFi, I, "model's intensity untouched", out=False)


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(budget=200, qtimeout=2000)
    for size, nz, f in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (3, 3, 1), (4, 1, 1), (4, 2, 1), (5, 1, 1), (5, 2, 1), (6, 1, 1), (6, 2, 1), (7, 2, 1), (1, 2, 3), (2, 2, 3), (1, 3, 3)):
        n = size * f
        for free in (None, 0, 2, 4):
            if free is None and (n > 4 or n * nz > 6 or f > 1) or free == 4 and n > 4 or free and (n in (5, 7) or nz == 3 and (n > 3 or free > 2)):
                continue
            for how in ("fixed", "na", "px"):
                if free is None and n == 3 and nz == 2 and how != "fixed":
                    continue
                out.append(Case("%d pixels, %d planes, factor %d, free %s, %s" % (size, nz, f, "all" if free is None else free, how), run, size=size, nz=nz, f=f, free=free, how=how, split=True, weight=n * n * nz, **k))
    return out
