"""WidefieldMicroscope around a model whose intensity is free: the PSF against block sums by index arithmetic, the OTF
against the DFT of the PSF; and with real models, whose grid must be the oversampled one."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import obj
from checks import scope as S

BOUNDS = ("detector sizes 1 to 5 (7 thorough) and 1 to 3 planes with factors 1, 3, 5 and 7 up to 21 fine pixels, every non-negative intensity; real Hanser models of up to 6 fine pixels with free z spacing, "
          "one representative wl, na, ni, pixel size; every factor -3..9 and the listed model names")


def stubbed(B, size, nz, f, otf, kind="hanser"):
    m = S.make(B, "widefield", size, f, model=kind, zsize=nz)
    m.model = S.stub(B, m.model, S.intensity(B, (nz, size * f, size * f)))
    fine = m.model.PSFi
    ref = S.image(B, fine, size, f)
    if B.choice("OTF first", (False, True)) and otf:
        m.OTF
    S.both(B, m, ref, otf)
    if otf:
        B.eq(m.OTF[nz // 2, size // 2, size // 2], 1, "OTF is 1 at its centre", out=False)
        B.eq(m.PSF, ref, "PSF again", out=False)
    B.eq(m.model.PSFi, fine, "model's intensity untouched", out=False)


def real(B, size, nz, f, vec, cond, how):
    """The model is the one asked for, on the oversampled grid."""
    px = B.real("px", lo=F(1, 10), hi=F(1, 4), sample=(0.1, 0.25)) if how == "grid" else B.const(F(1, 5))
    kw = dict(vec_corr=vec, condition=cond)
    zres = px
    if how == "z":
        zres = B.real("zres", pos=True, sample=(0.1, 0.4))
        kw.update(zres=zres, zsize=nz)
    elif how == "zrange":
        zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
        kw["zrange"] = list(zs)
    p = O.P(wl=B.const(F(1, 2)), na=B.const(F(9, 10)), ni=B.const(F(3, 2)), res=px / f, size=size * f, zres=zres, zsize=nz if how == "z" else size, vec_corr=vec, condition=cond)
    if how != "zrange":
        zs = O.default_z(p)
    m = S.make(B, "widefield", size, f, pixel=px, na=p.na, ni=p.ni, wl=p.wl, **kw)
    S.params(B, m.model, dict(wl=p.wl, na=p.na, ni=p.ni, res=p.res, size=p.size, zres=p.zres, zsize=p.zsize, vec_corr=vec, condition=cond))
    B.same(m.oversample_factor, f, "factor")
    if how == "grid":
        return
    B.same(isinstance(m.model, B.m.otf.HanserPSF), True, "Hanser model")
    ref = O.intensity(B, O.hanser_psfa(B, p, zs))
    B.eq(m.PSF, S.image(B, ref, size, f), "PSF")


def sheppard(B, size, f):
    m = S.make(B, "widefield", size, f, model="sheppard", na=1.3, pixel=0.12 * f, zres=0.1, zsize=5, dual=True, condition="none", vec_corr="none")
    B.same(isinstance(m.model, B.m.otf.SheppardPSF), True, "Sheppard model")
    S.params(B, m.model, dict(size=size * f, zsize=5, zres=0.1, dual=True, vec_corr="none", condition="none"))
    B.eq(m.model.res, 0.12, "res")
    S.both(B, m, S.image(B, m.model.PSFi, size, f))


def rejected(B):
    f = B.int("f", -3, 9)
    ok = f % 2 == 1 and f > 0
    fn = lambda: S.make(B, "widefield", 2, f)
    if ok:
        m = fn()
        B.same(m.model.size, 2 * f, "fine size")
    else:
        B.raises(Exception, fn, "factor")


def names(B):
    for n, c in (("hanser", "HanserPSF"), ("sheppard", "SheppardPSF"), ("Hanser", "HanserPSF"), ("SHEPPARD", "SheppardPSF")):
        m = S.make(B, "widefield", 2, model=n, pixel=0.1)
        B.claim(isinstance(m.model, getattr(B.m.otf, c)), n)
    for n in ("", "hansen", "HanserPSF", "sheppard ", "widefield"):
        for k in S.CLS:
            kw = dict(wl_exc=0.45, pinhole_size=1) if k == "confocal" else dict(wl_exc=0.45, na_exc=0.8, wiener=0.1, dc_suppress=False, **({} if k == "lattice" else dict(orientations=(0,)))) if k in ("sim2d", "sim3d", "lattice") else {}
            B.raises(ValueError, lambda: S.make(B, k, 2, model=n, **kw), "%s microscope with model %r" % (k, n))
    for k in (2, 4, 0, -1, -3, 6):
        B.raises(Exception, lambda: S.make(B, "widefield", 2, k), "factor %d" % k)


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(budget=120, qtimeout=2000)
    for size in range(1, 8 if big else 6):
        for f in (1, 3, 5, 7):
            for nz in (1, 2, 3):
                if size * f > 21 or (size * f) ** 2 * nz > (900 if big else 460):
                    continue
                out.append(Case("size %d, factor %d, %d planes" % (size, f, nz), stubbed, size=size, nz=nz, f=f, otf=size ** 4 * nz < (3000 if big else 800), kind="sheppard" if (size + f + nz) % 3 == 0 and 0 else "hanser", split=True, weight=size * f * nz, **k))
    for size, f in ((1, 1), (2, 1), (3, 1), (4, 1), (1, 3), (2, 3), (1, 5)):
        for how in ("grid", "z", "zrange", "default"):
            for vec, cond in (("none", "none"), ("total", "sine"), ("x", "herschel")):
                if size * f > 4 and how in ("z", "zrange") and vec != "none":
                    continue
                out.append(Case("Hanser model, size %d, factor %d, %s, %s/%s" % (size, f, how, vec, cond), real, size=size, nz=2, f=f, vec=vec, cond=cond, how=how, split=True, weight=(size * f) ** 2, **k))
    for size, f in ((4, 1), (5, 1), (2, 3)):
        out.append(Case("Sheppard model, size %d, factor %d" % (size, f), sheppard, size=size, f=f, split=True, **k))
    out.append(Case("factors", rejected, split=True))
    out.append(Case("names", names))
    return out
