"""Symmetry and centring of ideal intensities at symbolic optical parameters and z positions."""
from fractions import Fraction as F

from sx.harness import Case
from sx import optics as O
from sx.oracle import amap, obj

BOUNDS = ("Hanser: size 1..4 (5, 6 thorough), zsize 1..4, every vec_corr and condition; Sheppard: size x zsize 2x3, 3x2, 3x3, 4x2 (4x3 thorough), zres/res fixed; "
          "all wl, na, ni, res, zres within the model's limits")


def flip(B, I, ax):
    """Mirror about index n//2 of an axis (the grid is periodic)."""
    a = obj(I)
    n = a.shape[ax]
    c = n // 2
    return amap(B, a.shape, lambda *i: a[i[:ax] + ((2 * c - i[ax]) % n,) + i[ax + 1:]])


def lateral(B, I, vec, cond):
    B.eq(I, flip(B, I, 2), "mirror x")
    B.eq(I, flip(B, I, 1), "mirror y")
    if vec in ("none", "total"):
        a = obj(I)
        B.eq(I, amap(B, a.shape, lambda l, i, j: a[l, j, i]), "exchange x and y")


def hanser(B, size, vec, cond):
    p = O.params(B, size, 1, vec, cond, zres=1)
    z = B.real("z", sample=(-1, 1))
    m = B.m.otf.HanserPSF(zrange=[z, -z, 0], **p.args())
    I = m.PSFi
    lateral(B, I, vec, cond)
    B.eq(I[0], I[1], "z to -z")
    if vec == "none":
        c = size // 2
        for i in range(size):
            for j in range(size):
                if (i, j) != (c, c):
                    peak(B, I[2, c, c], I[2, i, j], "brightest in focus at the central pixel")


def peak(B, a, b, label):
    B.claim(a >= b if B.sym else a >= b - 1e-9 * abs(a), label)


def grid(B, size, zsize, vec, cond, given):
    p = O.params(B, size, zsize, vec, cond)
    kw = p.args()
    if not given:
        del kw["zres"], kw["zsize"]
        p = p.but(zres=p.res, zsize=size)
        zsize = size
    m = B.m.otf.HanserPSF(**kw)
    c = zsize // 2
    B.eq(m.zrange[c], 0, "z = 0 at index zsize//2")
    I = m.PSFi
    B.same(tuple(I.shape), (zsize, size, size), "shape")
    lateral(B, I, vec, cond)
    for d in range(1, zsize):
        if c + d < zsize:
            B.eq(I[c + d], I[c - d], "mirror z")
    if vec == "none":
        h = size // 2
        peak(B, I[c, h, h], I[0, h, h], "brightest in focus") if zsize > 1 else None
        peak(B, I[c, h, h], I[c, 0, 0], "brightest at the centre") if size > 1 else None


def sheppard(B, size, zsize, vec, cond, dual, ratio):
    p = O.params(B, size, zsize, vec, cond, zres=1)
    p = p.but(zres=p.res * B.const(ratio))
    B.assume(2 * p.ni * p.zres < p.wl)
    m = B.m.otf.SheppardPSF(dual=dual, **p.args())
    I = m.PSFi
    B.eq(I, flip(B, flip(B, flip(B, I, 0), 1), 2), "inversion")
    if vec == "none":
        for ax in range(3):
            B.eq(I, flip(B, I, ax), "mirror axis %d" % ax)


def cases(tier):
    big = tier == "thorough"
    out = []
    for vec in O.VEC:
        for cond in O.COND:
            for s in (2, 3, 4) + ((5, 6) if big else ()):
                out.append(Case("hanser %d %s/%s" % (s, vec, cond), hanser, split=True, size=s, vec=vec, cond=cond, budget=300 if s < 5 else 2500, weight=s ** 3 * (3 if vec == "total" else 1)))
    out.append(Case("hanser 1 none/sine", hanser, split=True, size=1, vec="none", cond="sine"))
    for s, z in ((2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (3, 1), (4, 2), (4, 3), (1, 3)):
        out.append(Case("grid %dx%d none/sine" % (s, z), grid, split=True, size=s, zsize=z, vec="none", cond="sine", given=True, budget=300, weight=s ** 2 * z))
    for vec in O.VEC:
        out.append(Case("grid 3x3 %s/herschel" % vec, grid, split=True, size=3, zsize=3, vec=vec, cond="herschel", given=True, budget=300, weight=30))
    for s in (2, 3, 4):
        out.append(Case("default grid %d" % s, grid, split=True, size=s, zsize=None, vec="none", cond="sine", given=False, budget=300, weight=30))
    for vec in O.VEC:
        for cond in O.COND:
            for dual in (False, True):
                out.append(Case("sheppard 3x2 %s/%s dual=%s" % (vec, cond, dual), sheppard, split=True, size=3, zsize=2, vec=vec, cond=cond, dual=dual, ratio=F(3, 4), budget=300, weight=20, qtimeout=1500))
        for s, z in ((2, 3), (3, 3), (4, 2)) + (((4, 3), (4, 4)) if big else ()):
            out.append(Case("sheppard %dx%d %s/sine dual" % (s, z, vec), sheppard, split=True, size=s, zsize=z, vec=vec, cond="sine", dual=True, ratio=F(3, 4), budget=300 if s * z < 12 else 2500, weight=s * s * z, qtimeout=1500))
            out.append(Case("sheppard %dx%d %s/sine" % (s, z, vec), sheppard, split=True, size=s, zsize=z, vec=vec, cond="sine", dual=False, ratio=F(1), budget=300 if s * z < 12 else 2500, weight=s * s * z, qtimeout=1500))
    return out
