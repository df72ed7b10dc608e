"""Reference optics, written from the definitions and independent of the package; usable on symbolic
values and on floats."""
import cmath
import math

import numpy as np

from . import num as N
from .oracle import cdft, freq, obj, root, wrap

VEC = ("none", "x", "y", "z", "total")
COND = ("none", "sine", "herschel")


class P:
    """Optical parameters."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def but(self, **k):
        return P(**{**self.__dict__, **k})

    def args(self):
        return dict(wl=self.wl, na=self.na, ni=self.ni, res=self.res, size=self.size, zres=self.zres, zsize=self.zsize,
                    vec_corr=self.vec_corr, condition=self.condition)


def params(B, size, zsize=1, vec_corr="none", condition="none", zres=None, tag="", wl=None, sheppard=False):
    """Any physically meaningful parameter set."""
    wl = B.real("wl" + tag, pos=True, sample=(0.4, 0.8)) if wl is None else wl
    na = B.real("na" + tag, pos=True, sample=(0.3, 1.1))
    ni = B.real("ni" + tag, pos=True, sample=(1.1, 1.6))
    res = B.real("res" + tag, pos=True, sample=(0.05, 0.35))
    B.assume(na <= ni)
    B.assume(2 * na * res < wl)
    if zres is None:
        zres = B.real("zres" + tag, pos=True, sample=(0.05, 0.25))
        if sheppard:
            B.assume(2 * ni * zres < wl)
    return P(wl=wl, na=na, ni=ni, res=res, size=size, zres=zres, zsize=zsize, vec_corr=vec_corr, condition=condition)


def sqrt(B, x):
    return N.sqrt(N.lift(x)) if B.sym else math.sqrt(x)


def lateral(B, p):
    """kx[i], kr2[iy][ix], kr[iy][ix] in unshifted order."""
    n = p.size
    k = [freq(n, p.res, i) for i in range(n)]
    kr2 = [[k[i] * k[i] + k[j] * k[j] for j in range(n)] for i in range(n)]
    kr = [[sqrt(B, kr2[i][j]) if (i or j) else 0 for j in range(n)] for i in range(n)]
    return k, kr2, kr


def ideal_pupil(B, p):
    k, kr2, kr = lateral(B, p)
    out = np.empty((p.size, p.size), object)
    for i in range(p.size):
        for j in range(p.size):
            out[i, j] = 1 if kr[i][j] < p.na / p.wl else 0
    return out


def expi(B, x):
    """exp(i x)"""
    return N.exp(N.lift(x) * N.IMAG) if B.sym else cmath.exp(1j * x)


def two_pi(B):
    return 2 * B.np.pi


def factor(B, c, condition):
    if condition == "none":
        return 1
    if condition == "sine":
        return 1 / sqrt(B, c)
    return 1 / c


def polar(B, vec, c, s, cp, sp):
    """Polarisation terms at polar angle theta (cosine c, sine s) and azimuth phi."""
    if vec == "none":
        return [1]
    out = []
    if vec in ("z", "total"):
        out += [s * cp, s * sp]
    if vec in ("y", "total"):
        out += [(c - 1) * sp * cp, c * sp * sp + cp * cp]
    if vec in ("x", "total"):
        out += [c * cp * cp + sp * sp, (c - 1) * sp * cp]
    return out


def hanser_field(B, p, zs, pupil=None):
    """Pupil-plane fields [component][z][iy][ix], unshifted order."""
    n = p.size
    k, kr2, kr = lateral(B, p)
    km = p.ni / p.wl
    if pupil is None:
        pupil = ideal_pupil(B, p)
    nc = {"none": 1, "total": 6}.get(p.vec_corr, 2)
    out = np.empty((nc, len(zs), n, n), object)
    for i in range(n):
        for j in range(n):
            a = obj(pupil)[i, j]
            if kr[i][j] < km:
                kz = sqrt(B, km * km - kr2[i][j])
                c, s = kz / km, kr[i][j] / km
            elif isinstance(a, (int, float)) and a == 0:
                kz, c, s = 0, 1, 0
            else:
                # outside the propagating range: only a zero pupil is meaningful there
                B.assume(a == 0)
                kz, c, s, a = 0, 1, 0, 0
            if i or j:
                cp, sp = k[j] / kr[i][j], k[i] / kr[i][j]
            else:
                cp, sp = 1, 0
            pol = polar(B, p.vec_corr, c, s, cp, sp)
            f = factor(B, c, p.condition)
            for q, t in enumerate(pol):
                for zi, z in enumerate(zs):
                    out[q, zi, i, j] = a * f * t * expi(B, two_pi(B) * kz * z) if not (isinstance(a, (int, float)) and a == 0) else 0
    return out


def hanser_psfa(B, p, zs, pupil=None, field=None):
    f = hanser_field(B, p, zs, pupil) if field is None else field
    n = p.size
    c = n // 2
    out = np.empty(f.shape, object)
    # separable inverse DFT with its origin at n // 2
    mid = np.empty(f.shape, object)
    for q in np.ndindex(*f.shape):
        mid[q] = _sum(f[q[:3] + (j,)] * root(B, j * (q[3] - c), n) for j in range(n)) / n
    for q in np.ndindex(*f.shape):
        out[q] = _sum(mid[q[:2] + (j, q[3])] * root(B, j * (q[2] - c), n) for j in range(n)) / n
    return wrap(B, out)


def _sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def abs2(x):
    return x.real * x.real + x.imag * x.imag


def intensity(B, psfa):
    a = obj(psfa)
    out = np.empty(a.shape[1:], object)
    for i in np.ndindex(*out.shape):
        out[i] = _sum(abs2(a[(q,) + i]) for q in range(a.shape[0]))
    return wrap(B, out, float)


def default_z(p):
    return [(i - p.zsize // 2) * p.zres for i in range(p.zsize)]


def sheppard_otfa(B, p, dual):
    """Centred amplitude OTF of the spherical cap."""
    n, nz = p.size, p.zsize
    dk, dkz = 1 / (p.res * n), 1 / (p.zres * nz)
    km = p.ni / p.wl
    cut = sqrt(B, km * km - (p.na / p.wl) * (p.na / p.wl))
    nc = {"none": 1, "total": 6}.get(p.vec_corr, 2)
    out = np.empty((nc, nz, n, n), object)
    out[...] = 0
    for l in range(nz):
        for i in range(n):
            for j in range(n):
                kz, ky, kx = (l - nz // 2) * dkz, (i - n // 2) * dk, (j - n // 2) * dk
                if l == nz // 2 and i == n // 2 and j == n // 2:
                    continue  # the origin is never on the shell of a valid model
                k2 = kz * kz + ky * ky + kx * kx
                k = sqrt(B, k2)
                d = sqrt(B, kz * kz * dkz * dkz + (ky * ky + kx * kx) * dk * dk) / k
                u = abs(kz) if dual else kz
                if not (km - k < d and k - km < d and u > cut + d):
                    continue
                s, m, nn = abs(kz) / k, kx / k, ky / k
                f = factor(B, s, p.condition)
                if p.vec_corr == "none":
                    t = [1]
                else:
                    t = []
                    if p.vec_corr in ("z", "total"):
                        t += [-m, -nn]
                    if p.vec_corr in ("y", "total"):
                        t += [-nn * m / (1 + s), 1 - nn * nn / (1 + s)]
                    if p.vec_corr in ("x", "total"):
                        t += [1 - m * m / (1 + s), -m * nn / (1 + s)]
                for q, v in enumerate(t):
                    out[q, l, i, j] = f * v
    return wrap(B, out)
