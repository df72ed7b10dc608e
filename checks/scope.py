"""Common parts of the microscope checks: microscopes whose model has a free intensity, and the pipeline from the fine
grid to the normalised image, written from the definitions."""
from fractions import Fraction as F

import numpy as np

from sx.oracle import amap, cdft, obj

CLS = {"widefield": "WidefieldMicroscope", "confocal": "ConfocalMicroscope", "apotome": "ApotomeMicroscope", "sim2d": "SIM2DMicroscope", "sim3d": "SIM3DMicroscope", "lattice": "LatticeSIMMicroscope"}


def stub(B, model, value, **attrs):
    """The model with its intensity replaced: PSFi is `value`, PSFa its square root, OTFi follows."""
    base = type(model)
    np_ = B.np

    class Stub(base):
        PSFi = property(lambda self: value.copy())
        PSFa = property(lambda self: np_.sqrt(value)[None])
        OTFi = property(lambda self: B.m.utils.easy_fft(value))

        def __deepcopy__(self, memo):
            return self

    new = Stub.__new__(Stub)
    new.__dict__.update({k: v for k, v in model.__dict__.items() if k not in ("PSFi", "PSFa", "OTFi", "OTFa")})
    return new


def make(B, kind, size, f=1, model="hanser", pixel=None, **kw):
    a = dict(model=model, na=0.9, ni=1.5, wl=0.5, size=size, pixel_size=0.2 if pixel is None else pixel, oversample_factor=f)
    a.update(kw)
    return getattr(B.m.microscope, CLS[kind])(**a)


def intensity(B, shape, zero=True):
    return B.array("I", shape, lo=0, hi=None) if zero else B.array("I", shape, pos=True)


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def image(B, fine, size, f):
    """Blocks of f by f fine pixels centred on the detector pixels, the central one on fine pixel n // 2, normalised to sum 1."""
    a = obj(fine)
    nz, n = a.shape[:2]
    h = f // 2
    off = n // 2 - f * (size // 2)

    def at(l, i, j):
        return total(a[l, (f * i + off + u) % n, (f * j + off + v) % n] for u in range(-h, h + 1) for v in range(-h, h + 1))
    raw = obj(amap(B, (nz, size, size), at))
    s = total(raw.flat)
    if not B.sym:
        B.assume(abs(s) > 1e-9)
    return amap(B, raw.shape, lambda *q: raw[q] / s)


def both(B, m, ref, otf=True, label=""):
    B.eq(m.PSF, ref, "PSF" + label)
    if otf:
        B.eq(m.OTF, cdft(B, ref, (0, 1, 2)), "OTF" + label, scale=1 if not B.sym else None)


def params(B, m, want, label="model "):
    for k, v in want.items():
        B.same(getattr(m, k), v, label + k)
