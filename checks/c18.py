"""fit_to_zernikes, ZernikeDecomposition and generate_zd_psf on results whose pupil is symbolic: the design matrix is a
constant of the grid, so coefficients are linear forms in the pupil's samples and are compared as such."""
import math
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, obj
from checks.c10 import DEG

BOUNDS = ("grids of 1 to 11 pixels with the apertures listed in GRIDS (samples exactly on the edge included), every pupil on them; 1 to 36 modes (66 thorough), resolvable or not; "
          "reconstructions of every mode, every coefficient and every slice with bounds -4..5 and steps of 1, 2, -1 of up to 4 modes; PSFs of 3x3 and 4x4 pupils with 6 modes")
ASSUMES = ["the least squares solver returns the minimum norm solution (checked against numpy at concrete points)"]

# size, wl, na, ni, res: the frequencies are multiples of 1/(size*res), the aperture's edge na/wl
GRIDS = [
    (1, 0.5, 1.0, 1.5, 0.2),
    (2, 0.5, 1.0, 1.5, 0.2),
    (3, 0.5, 1.0, 1.5, 0.2),
    (3, 0.5, 1.2, 1.5, 0.2),
    (4, 0.5, 0.8, 1.5, 0.2),
    (4, 1.0, 1.0, 1.5, 0.25),  # (1, 0) is on the edge
    (5, 0.5, 1.0, 1.4, 0.22),
    (8, 1.0, 1.0, 1.5, 0.25),  # (2, 0) is on the edge
    (7, 0.5, 1.0, 1.5, 0.24),
    (8, 0.5, 1.0, 1.5, 0.24),
    (11, 0.5, 1.0, 1.5, 0.24),
]


def grid(g):
    """Centred r (1 on the edge), azimuth, and the samples inside; constants, so plain floats."""
    n, wl, na, ni, res = g
    k = [(i - n // 2) / (n * res) for i in range(n)]
    r = np.array([[math.hypot(x, y) * wl / na for x in k] for y in k])
    t = np.array([[math.atan2(y, x) for x in k] for y in k])
    # exactly: sqrt(x^2+y^2) < na/wl
    q = [F(i - n // 2) / (n * F(str(res))) for i in range(n)]
    lim = F(str(na)) / F(str(wl))
    inside = np.array([[x * x + y * y < lim * lim for x in q] for y in q])
    return r, t, inside


def Z(j, r, t):
    n, m = DEG[j]
    a = abs(m)
    R = 0
    for s in range((n - a) // 2 + 1):
        c = (-1) ** s * math.factorial(n - s) // (math.factorial(s) * math.factorial((n + a) // 2 - s) * math.factorial((n - a) // 2 - s))
        R = R + c * r ** (n - 2 * s)
    return R * math.sqrt(n + 1 if m == 0 else 2 * (n + 1)) * (np.cos(a * t) if m >= 0 else np.sin(a * t)) * (r <= 1)


def modes(g, n):
    r, t, inside = grid(g)
    return np.array([Z(j, r, t) for j in range(1, n + 1)]), inside


def resolved(g, n):
    """Are the modes independent on the grid?"""
    z, inside = modes(g, n)
    return inside.sum() >= n and np.linalg.cond(z[:, inside]) < 1e4


def result(B, g, mag, phase, nz=1):
    n, wl, na, ni, res = g
    model = B.m.otf.HanserPSF(wl=wl, na=na, ni=ni, res=res, size=n, zres=0.3, zsize=nz, vec_corr="none", condition="none")
    one = B.arr([0.0])
    return B.m.phaseretrieval.PhaseRetrievalResult(mag, phase, one, one, one, model)


def lin(B, c, z, extra=0):
    """sum_j c_j z_j with plain float modes"""
    t = extra
    for a, b in zip(c, z):
        t = t + a * float(b)
    return t


def recover(B, g, n, odd):
    z, inside = modes(g, n)
    mc = [B.real("m%d" % j, lo=-2, hi=2) for j in range(n)]
    pc = [B.real("p%d" % j, lo=-2, hi=2) for j in range(n)]
    s = g[0]
    mag = amap(B, (s, s), lambda i, j: lin(B, mc, z[:, i, j]) if inside[i, j] else 0)
    ph = amap(B, (s, s), lambda i, j: lin(B, pc, z[:, i, j]) if inside[i, j] else 0)
    m0, p0 = mag.copy(), ph.copy()
    r = result(B, g, mag, ph)
    d = r.fit_to_zernikes(np.int64(n) if odd else n)
    B.claim(d is r.zd_result, "kept as zd_result")
    B.near(d.mcoefs, B.arr(mc, float), "magnitude coefficients")
    B.near(d.pcoefs, B.arr(pc, float), "phase coefficients")
    B.same(tuple(d.zerns.shape), (n, s, s), "one mode per coefficient")
    B.near(d.zerns, B.arr(z.tolist()), "modes", 1e-9)
    B.eq(r.mag, m0, "magnitude untouched", out=False)
    B.eq(r.phase, p0, "phase untouched", out=False)
    for w, c, name in ((d.mag, mc, "magnitude"), (d.phase, pc, "phase")):
        B.near(w(slice(None)), amap(B, (s, s), lambda i, j: lin(B, c, z[:, i, j])), "reconstructed " + name)


def least(B, g, n):
    """Any pupil: the residual inside the aperture is orthogonal to every mode."""
    z, inside = modes(g, n)
    s = g[0]
    mag, ph = B.array("m", (s, s), lo=-2, hi=2), B.array("p", (s, s), lo=-2, hi=2)
    r = result(B, g, mag, ph)
    d = r.fit_to_zernikes(n)
    pts = np.argwhere(inside)
    for c, x, name in ((d.mcoefs, obj(mag), "magnitude"), (d.pcoefs, obj(ph), "phase")):
        B.same(tuple(c.shape), (n,), "one %s coefficient per mode" % name)
        c = list(obj(c))
        res = [lin(B, c, z[:, i, j], -x[i, j]) for i, j in pts]
        B.near(B.arr([lin(B, res, [z[q, i, j] for i, j in pts]) for q in range(n)]), B.arr([0.0] * n), "least squares of the " + name, out=False)
    # fitting again, and with another number, starts afresh
    e = r.fit_to_zernikes(1)
    B.claim(e is r.zd_result, "the latest fit is kept")
    B.same(tuple(e.mcoefs.shape), (1,), "one mode")
    B.same(tuple(d.mcoefs.shape), (n,), "the earlier fit is left alone")


def recon(B, n, step):
    """Reconstruction by slices."""
    mc, pc = B.array("m", (n,)), B.array("p", (n,))
    z = B.array("z", (n, 2, 2))
    d = B.m.phaseretrieval.ZernikeDecomposition(mc, pc, z)
    o, a, b = obj(z), obj(mc), obj(pc)
    opts = (None,) + tuple(range(-n, n + 2))
    lo, hi = B.choice("start", opts), B.choice("stop", opts)
    s = slice(lo, hi, step)
    idx = list(range(n))[s]

    def comb(c, ks):
        def at(i, j):
            t = 0
            for k in ks:
                t = t + c[k] * o[k, i, j]
            return t
        return amap(B, (2, 2), at)
    ph, mg = comb(b, idx), comb(a, idx)
    B.eq(d.phase(s), ph, "phase")
    B.eq(d.mag(s), mg, "magnitude")
    every = range(n)

    def pup(m, p):
        return amap(B, (2, 2), lambda i, j: obj(m)[i, j] * O.expi(B, obj(p)[i, j]), complex)
    B.eq(d.complex_pupil(sphase=s), pup(comb(a, every), ph), "complex pupil, slice for the phase")
    B.eq(d.complex_pupil(smag=s), pup(mg, comb(b, every)), "complex pupil, slice for the magnitude")
    B.eq(d.complex_pupil(s, slice(1, None)), pup(mg, comb(b, list(every)[1:])), "complex pupil, two slices")
    B.eq(d.complex_pupil(), pup(comb(a, every), comb(b, every)), "complex pupil")
    B.eq(mc, B.arr(list(a)), "coefficients untouched", out=False)


def wrong(B):
    D = B.m.phaseretrieval.ZernikeDecomposition
    for a, b, c in ((2, 3, 3), (3, 2, 3), (3, 3, 2), (1, 1, 2)):
        B.raises(Exception, lambda: D(B.array("a", (a,)), B.array("b", (b,)), B.array("c", (c, 2, 2))), "sizes %d %d %d" % (a, b, c))


def zd_psf(B, g, n, s, nz, new, fit):
    """generate_zd_psf is the PSF of the decomposition's pupil with the slice of the phase."""
    size, wl, na, ni, res = g
    p = O.P(wl=B.const(F(str(wl))), na=B.const(F(str(na))), ni=B.const(F(str(ni))), res=B.const(F(str(res))), size=size, zsize=nz, zres=None, vec_corr="none", condition="none")
    mag, ph = B.array("M", (size, size)), B.array("P", (size, size))
    r = result(B, g, mag, ph, nz)
    z, inside = modes(g, n)
    mc = [B.real("m%d" % j, sample=(-1, 1)) for j in range(n)]
    pc = [B.real("p%d" % j, sample=(-1, 1)) for j in range(n)]
    if fit:
        r.fit_to_zernikes(3)
    r.zd_result = B.m.phaseretrieval.ZernikeDecomposition(B.arr(mc), B.arr(pc), B.arr((z * (z * z > 1e-20)).tolist()))
    zs = [(i - nz // 2) * B.const(F(3, 10)) for i in range(nz)]
    kw = {}
    if s is not None:
        kw["sphase"] = s
    if new == "zrange":
        zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(2)]
        kw["zrange"] = list(zs)
    keep = list(range(n))[slice(4, None, None) if s is None else s]
    c = size // 2
    pupil = np.empty((size, size), object)
    for i, j in np.ndindex(size, size):
        u, v = (i + c) % size, (j + c) % size
        m, f = lin(B, mc, z[:, u, v] * (z[:, u, v] ** 2 > 1e-20)), lin(B, [pc[q] for q in keep], [z[q, u, v] * (z[q, u, v] ** 2 > 1e-20) for q in keep])
        pupil[i, j] = m * O.expi(B, f) if abs(z[:, u, v]).max() > 0 else 0
    B.eq(r.generate_zd_psf(**kw), O.intensity(B, O.hanser_psfa(B, p, zs, pupil)), "PSF")


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(budget=200, qtimeout=2000)
    for q, g in enumerate(GRIDS):
        r, t, inside = grid(g)
        for n in (1, 2, 3, 4, 6, 10, 15, 21, 28, 36) + ((45, 66) if big else ()):
            if resolved(g, n):
                out.append(Case("recover grid %d, %d modes" % (q, n), recover, g=g, n=n, odd=n % 2, weight=n * g[0], **k))
                out.append(Case("fit grid %d, %d modes" % (q, n), least, g=g, n=n, weight=n * g[0], **k))
    for n in (1, 2, 4):
        for step in (None, 2, -1):
            out.append(Case("%d modes by slices of step %s" % (n, step), recon, n=n, step=step, split=True, **k))
    out.append(Case("mismatched sizes", wrong))
    for g in (GRIDS[2], GRIDS[4]):
        for s in (None, slice(None), slice(1, 5), slice(5, 2, -1), slice(0, 0)):
            for nz, new in ((1, None), (2, None), (1, "zrange")):
                out.append(Case("PSF size %d, slice %s, %d planes %s" % (g[0], s, nz, new or ""), zd_psf, g=g, n=6, s=s, nz=nz, new=new, fit=nz == 2, split=True, weight=30, **k))
    return out
