"""SIM microscopes around a model whose intensity is free: the PSF against the intensity of the interfering plane waves
written out wave by wave, with the excitation's angle, wavelength and orientations free; the Wiener filter on the model's OTF
by its formula."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, cdft, obj
from checks import scope as S

BOUNDS = ("fine grids of 1 to 4 pixels (6 thorough) and 1 to 3 planes, factors 1 and 3; every non-negative intensity without a filter, 1 or 2 free voxels with it; every na_exc <= ni, wl_exc, Wiener parameter and up to 2 free orientations (3 thorough); "
          "2D, 3D, lattice and the base class with both flags; dc_suppress on and off")
KIND = {"sim2d": (False, False), "sim3d": (False, True), "lattice": (True, True)}


def make(B, kind, size, f, **kw):
    if kind in KIND:
        return S.make(B, kind, size, f, **kw), KIND[kind]
    coherent, dc = kind
    a = dict(model="hanser", na=0.9, ni=1.5, wl=0.5, size=size, pixel_size=0.2, oversample_factor=f, coherent=coherent, dc=dc)
    a.update(kw)
    return B.m.microscope.BaseSIMMicroscope(**a), kind


def waves(B, kind, x, z, sin_a, freq, dirs):
    """Intensity of the excitation at one point, as a list of the patterns that add up."""
    coherent, dc = kind
    cos_a = O.sqrt(B, 1 - sin_a * sin_a)
    axial = O.expi(B, z * freq) if dc else 0

    def pair(cx, sx):
        r = x[1] * cx + x[0] * sx
        return O.expi(B, (z * cos_a - r * sin_a) * freq) + O.expi(B, (z * cos_a + r * sin_a) * freq)
    if coherent:
        t = axial
        for c, s in dirs:
            t = t + pair(c, s)
        return O.abs2(t if B.sym else complex(t))
    return S.total(O.abs2(axial + pair(c, s)) for c, s in dirs)


def filtered(B, I, w):
    """The model intensity after the Wiener filter."""
    if w is None:
        return I
    o = obj(cdft(B, I, (0, 1, 2)))
    nz, n = o.shape[:2]
    p = amap(B, o.shape, lambda *q: O.abs2(o[q]))
    top = obj(p)[nz // 2, n // 2, n // 2]  # the intensity is non-negative
    if isinstance(w, int) and w == 0:
        # voxels are either exactly empty or clearly not
        def sup(*q):
            v = obj(p)[q]
            if v > 1e-6:
                return 1.0
            B.assume(v == 0 if B.sym else v < 1e-20)
            return 0.0
        r = amap(B, o.shape, sup)
    else:
        r = amap(B, o.shape, lambda *q: obj(p)[q] / (obj(p)[q] + w * w * top))
    y = obj(cdft(B, r, (0, 1, 2), inverse=True))
    return amap(B, y.shape, lambda *q: y[q].real)


def voxels(B, shape, free):
    """Free voxels; the others are the given constants (all free when free is None)."""
    if free is None:
        return B.array("I", shape, lo=0)
    base, which = free
    return amap(B, shape, lambda *q: B.real("I%d%d%d" % q, lo=0, hi=4, sample=(0, 2)) if q in which else B.const(F(base(*q))))


def smooth(l, i, j):
    return F(1, 1 + l + (i - 1) ** 2 + 2 * (j - 1) ** 2)


def row(l, i, j):
    return F(1, 1 + l + i)


def run(B, kind, size, nz, f, free, wiener, dc, orient, exc="free", zres=0.3, order="tuple", planes=False):
    n = size * f
    kw = dict(zsize=nz, zres=zres, dc_suppress=dc)
    ni = 1.5
    zs = [(l - nz // 2) * zres for l in range(nz)]
    if planes:
        # planes of the caller's choice; zsize is the default or another number
        zs = [B.real("z%d" % l, sample=(-1, 1)) for l in range(nz)]
        kw["zrange"] = zs[0] if planes == "scalar" else list(zs)
        if B.choice("zsize", (True, False)):
            kw.pop("zsize")
            kw.pop("zres")
    if exc == "free":
        na_exc = B.real("na_exc", lo=F(1, 10), hi=F(3, 2), sample=(0.2, 1.4))
        wl_exc = B.real("wl_exc", pos=True, sample=(0.3, 0.7))
    elif exc == "none":
        na_exc, wl_exc = 0.9, 0.5
    else:
        na_exc, wl_exc = exc
    kw.update(na_exc=None if exc == "none" else na_exc, wl_exc=None if exc == "none" else wl_exc)
    w = wiener
    if wiener == "free":
        w = B.real("w", pos=True, sample=(0.05, 1))
    kw["wiener"] = w
    dirs, given = [], []
    for q in range(len(orient)):
        t = B.real("phi%d" % q, sample=(-3, 3)) if orient[q] == "free" else orient[q]
        given.append(t)
        dirs.append((B.np.cos(t), B.np.sin(t)))
    if kind != "lattice":
        kw["orientations"] = tuple(given) if order == "tuple" else list(given) if order == "list" else B.arr(given, float)
    m, flags = make(B, kind, size, f, **kw)
    m.model = S.stub(B, m.model, voxels(B, (nz, n, n), free))
    I = m.model.PSFi
    g = obj(filtered(B, I, w))
    freq = 2 * B.np.pi * ni / wl_exc
    res = 0.2 / f

    def at(l, i, j):
        v = waves(B, flags, ((i - n // 2) * res, (j - n // 2) * res), zs[l], na_exc / ni, freq, dirs)
        if dc and not flags[0]:
            v = v - (2 * len(dirs) - 1)
        return g[l, i, j] * v
    ref = S.image(B, amap(B, (nz, n, n), at), size, f)
    B.eq(m.PSF, ref, "PSF")
    B.same(m.dc_suppress, dc, "dc_suppress")
    if kind != "lattice":
        B.same(len(kw["orientations"]), len(given), "orientations untouched")
        for a, b, c in zip(kw["orientations"], given, m.orientations):
            B.eq(a, b, "orientations untouched", out=False)
            B.eq(c, b, "orientations read back", out=False)
    B.eq(m.model.PSFi, I, "model's intensity untouched", out=False)
    B.eq(m.wl_exc, wl_exc, "wl_exc", out=False)
    B.eq(m.na_exc, na_exc, "na_exc", out=False)


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, budget=200, qtimeout=2000)

    def add(name, **kw):
        out.append(Case(name, run, weight=(kw["size"] * kw["f"]) ** 2 * kw["nz"] * len(kw["orient"]), **kw, **k))

    every = ("sim2d", "sim3d", "lattice", (True, False), (False, True))
    for kind in every:
        for size, nz, f in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 3, 1), (3, 2, 1), (1, 1, 3), (4, 1, 1)) + (((5, 1, 1), (3, 3, 1), (2, 1, 3), (6, 1, 1)) if big else ()):
            for dc in (False, True):
                if kind in ((True, False), (False, True)) and (dc or size == 4):
                    continue
                ors = [(0, np.pi / 2)] if kind == "lattice" else [("free",), ("free", "free")] + ([("free",) * 3] if big else [])
                for o in ors:
                    add("%s, %d pixels, %d planes, factor %d, %d orientations%s" % (kind, size, nz, f, len(o), ", dc suppressed" if dc else ""), kind=kind, size=size, nz=nz, f=f, free=None, wiener=None, dc=dc, orient=o,
                        order=("tuple", "list", "array")[(size + nz) % 3])
    for kind in every:
        for size, nz, f in ((2, 1, 1), (3, 2, 1), (2, 3, 1), (1, 2, 3)):
            o = (0, np.pi / 2) if kind == "lattice" else ("free",)
            for pl in ("list", "scalar") if nz == 1 else ("list",):
                add("%s, %d pixels, %d planes, factor %d, zrange %s" % (kind, size, nz, f, pl), kind=kind, size=size, nz=nz, f=f, free=None, wiener=None, dc=False, orient=o, planes=pl)
    for kind in ("sim2d", "sim3d", "lattice"):
        for exc in ("none", (0.7, 0.45), (1, 1), (1.5, 0.4)):
            for o in ((0,), (0, np.pi / 3, 2 * np.pi / 3)):
                if kind == "lattice" and len(o) == 3:
                    continue
                add("%s, excitation %s, orientations %d" % (kind, exc, len(o)), kind=kind, size=3, nz=2, f=1, free=None, wiener=None, dc=False, orient=(0, np.pi / 2) if kind == "lattice" else o, exc=exc)
        for size, nz, f in ((2, 1, 1), (3, 1, 1), (2, 2, 1), (4, 1, 1), (1, 1, 3), (3, 2, 1)):
            o = (0, np.pi / 2) if kind == "lattice" else (0.4,)
            for fr, nm in (((smooth, ()), "no free voxel"), ((smooth, ((0, 0, 0),)), "1 free voxel"), ((row, ()), "a row")):
                for w in ("free", 0, 0.5):
                    if w == 0 and nm == "1 free voxel" and size * f > 2:
                        continue
                    for dc in (False, True):
                        if dc and (w == 0.5 or nm == "a row"):
                            continue
                        add("%s, %d pixels, %d planes, factor %d, Wiener %s, %s%s" % (kind, size, nz, f, w, nm, ", dc suppressed" if dc else ""), kind=kind, size=size, nz=nz, f=f, free=fr, wiener=w, dc=dc, orient=o, exc=(0.7, 0.45))
    return out
