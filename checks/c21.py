"""ConfocalMicroscope around two models whose intensities are free: the PSF against excitation times disk-blurred
detection by index arithmetic, the disk's radius following from a free pinhole size."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, obj
from checks import scope as S

BOUNDS = ("fine grids of 1 to 7 pixels (9 thorough) with 1 to 3 planes and factors 1 and 3; every pair of non-negative intensities; every pinhole size up to a radius of 3.1 fine pixels (4.2 thorough) and a few larger ones, "
          "wl, na, pixel size free with a fixed pinhole; real Hanser models of 3 fine pixels with free z spacing")


def blur(B, det, radius):
    """Detection intensity convolved with the pinhole, uniform over the pixels closer than its radius."""
    a = obj(det)
    nz, n, _ = a.shape
    if not radius > 1.5:
        return a
    q = 0
    while radius > q:  # q = number of pixels within the radius along an axis, centre included
        q += 1
    disk = [(u, v) for u in range(-q, q + 1) for v in range(-q, q + 1) if u * u + v * v < q * q and O.sqrt(B, (u * u + v * v) * 1.0) < radius]
    out = np.empty(a.shape, object)
    for l, i, j in np.ndindex(*a.shape):
        out[l, i, j] = S.total(a[l, i - u, j - v] for u, v in disk if 0 <= i - u < n and 0 <= j - v < n) / len(disk)
    return out


def confocal(B, det, exc, radius):
    a, e = blur(B, det, radius), obj(exc)
    return amap(B, e.shape, lambda *q: a[q] * e[q])


def stubbed(B, size, nz, f, lo, hi, kind, vary=False, unit=None):
    """unit: the Airy unit in fine pixels."""
    wl, na, ni = 0.5, 0.9, 1.5
    if vary:
        wl, na = B.real("wl", lo=F(2, 5), hi=F(4, 5), sample=(0.4, 0.8)), B.real("na", lo=F(4, 5), hi=F(6, 5), sample=(0.8, 1.2))
        px = B.real("px", lo=F(1, 20), hi=F(3, 20), sample=(0.05, 0.15))
        p = B.choice("p", (1, 0.5, 2.5))
        radius = p * 1.22 * wl / na / (px / f) / 2
        B.assume(radius <= 3.1)
    else:
        px = 0.2
        au = 1.22 * 0.5 / 0.9 / (px / f) / 2
        p = B.int("p", int(lo / au), int(hi / au) + 1) if kind == "i" else B.real("p", lo=F(lo) / F(au), hi=F(hi) / F(au), sample=(lo / au, hi / au))
        radius = p * 1.22 * 0.5 / 0.9 / (px / f) / 2
    m = S.make(B, "confocal", size, f, wl=wl, na=na, ni=ni, pixel=px, zsize=nz, wl_exc=0.45, pinhole_size=p)
    n = size * f
    m.model = S.stub(B, m.model, B.array("D", (nz, n, n), lo=0))
    m.model_exc = S.stub(B, m.model_exc, B.array("E", (nz, n, n), lo=0))
    det, exc = m.model.PSFi, m.model_exc.PSFi
    ref = S.image(B, confocal(B, det, exc, radius), size, f)
    S.both(B, m, ref, otf=size <= 3)
    B.eq(m.model.PSFi, det, "detection intensity untouched", out=False)
    B.eq(m.model_exc.PSFi, exc, "excitation intensity untouched", out=False)


def real(B, size, f, p, vec, cond, extra):
    wx = B.const(F(9, 20))
    kw = dict(vec_corr=vec, condition=cond)
    zres = B.real("zres", pos=True, sample=(0.1, 0.4))
    if extra == "zrange":
        zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(2)]
        kw.update(zrange=list(zs))
    else:
        kw.update(zres=zres, zsize=2)
    px = B.const(F(1, 5)) if f == 1 else B.const(F(6, 25))
    q = O.P(wl=B.const(F(1, 2)), na=B.const(F(9, 10)), ni=B.const(F(3, 2)), res=px / f, size=size * f, zres=zres, zsize=2, vec_corr=vec, condition=cond)
    if extra != "zrange":
        zs = O.default_z(q)
    m = S.make(B, "confocal", size, f, pixel=px, na=q.na, ni=q.ni, wl=q.wl, wl_exc=wx, pinhole_size=p, **kw)
    S.params(B, m.model, dict(wl=q.wl, na=q.na, ni=q.ni, res=q.res, size=q.size, vec_corr=vec, condition=cond))
    e = q.but(wl=wx)
    S.params(B, m.model_exc, dict(wl=wx, na=q.na, ni=q.ni, res=q.res, size=q.size, vec_corr=vec, condition=cond), "excitation model ")
    B.same(m.wl_exc, wx, "wl_exc")
    B.same(m.pinhole_size, p, "pinhole_size")
    det, exc = (O.intensity(B, O.hanser_psfa(B, x, zs)) for x in (q, e))
    radius = p * 1.22 * q.wl / q.na / q.res / 2
    B.eq(m.PSF, S.image(B, confocal(B, det, exc, radius), size, f), "PSF")


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, budget=200, qtimeout=2000)
    top = 4.2 if big else 3.1
    for size, nz, f in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (3, 2, 1), (4, 1, 1), (5, 1, 1), (6, 1, 1), (7, 1, 1), (1, 1, 3), (1, 2, 3), (2, 1, 3), (1, 3, 1)) + (((9, 1, 1), (8, 1, 1), (3, 1, 3), (5, 2, 1)) if big else ()):
        out.append(Case("%d pixels, %d planes, factor %d, every pinhole" % (size, nz, f), stubbed, size=size, nz=nz, f=f, lo=0, hi=top if size < 6 or big else 2.3, kind="f", weight=(size * f) ** 2 * nz, **k))
        if size * f <= 4:
            out.append(Case("%d pixels, %d planes, factor %d, whole pinholes" % (size, nz, f), stubbed, size=size, nz=nz, f=f, lo=0, hi=7, kind="i", weight=(size * f) ** 2 * nz, **k))
    for size, nz, f in ((2, 1, 1), (3, 1, 1), (1, 1, 3)):
        out.append(Case("%d pixels, factor %d, any wl, na and pixel" % (size, f), stubbed, size=size, nz=nz, f=f, lo=0, hi=0, kind="f", vary=True, weight=50, **k))
    for size, f in ((2, 1), (3, 1), (1, 3)):
        for p in (0, 0.9, 1, 2):
            for vec, cond in (("none", "none"), ("total", "sine"), ("y", "herschel")):
                if vec == "total" and p != 1 or vec == "y" and p != 2:
                    continue
                out.append(Case("Hanser, size %d, factor %d, pinhole %s, %s/%s" % (size, f, p, vec, cond), real, size=size, f=f, p=p, vec=vec, cond=cond, extra="zrange" if p == 0.9 else "zres", weight=60, **k))
    return out
