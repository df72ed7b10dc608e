"""retrieve_phase executed on symbolic data, z spacing and tolerances against the documented iteration written out;
both stop where the solver says the tolerances are met, and every reported quantity is compared."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, obj, root

BOUNDS = ("data of 3x3 pixels with 1 or 2 planes, every voxel free for one update (positive data) and 1 to 3 free voxels, the others fixed, for 2 and 3 updates (4 thorough), where 2 planes are thorough only; every tolerance, the pupil's, the error's and both; apertures of 1, 5 and 9 frequencies (1 and 5 for 3 updates); phase_only up to 2 updates (3 thorough); "
          "wl, na, ni, res one representative set per aperture, z planes free")
ASSUMES = ["skimage's unwrap_phase adds a multiple of 2 pi to each pixel"]

# na per aperture at wl = 1/2, res = 1/5, ni = 3/2: frequencies 0, 5/3, 2.357 of size 3; 5/4.. of size 4
NA = {(3, 1): F(1, 2), (3, 5): F(1), (3, 9): F(6, 5), (4, 5): F(4, 5), (4, 9): F(11, 10)}


V1 = [(0, 1, 2)]
V3 = [(0, 1, 2), (0, 0, 0), (0, 2, 1)]


def build(B, size, nz, ap, form):
    p = O.P(wl=B.const(F(1, 2)), na=B.const(NA[size, ap]), ni=B.const(F(3, 2)), res=B.const(F(1, 5)), size=size, zsize=nz, zres=None, vec_corr="none", condition="none")
    params = dict(wl=p.wl, na=p.na, ni=p.ni, res=p.res)
    if form == "zrange":
        zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
        params["zrange"] = list(zs)
    else:
        z = B.real("zres", pos=True, sample=(0.1, 0.4))
        params["zres"] = z
        zs = [(i - nz // 2) * z for i in range(nz)]
    return p, params, zs


def samples(B, nz, size, free, kind):
    """Free voxels; the square root of the data is what is chosen, so that no roots appear."""
    out, mag = np.empty((nz, size, size), object), np.empty((nz, size, size), object)
    for n, i in enumerate(np.ndindex(nz, size, size)):
        if free is None or i in free:
            if kind == "any":
                v = B.real("d%d" % n, sample=(-1, 2))
                out[i] = v
                mag[i] = O.sqrt(B, v) if v > 0 else 0
            else:
                m = B.real("m%d" % n, pos=True, sample=(0.05, 2))
                out[i], mag[i] = m * m, m
        else:
            c = F((n * 7) % 5 + 1, 4)
            out[i], mag[i] = B.const(c * c), B.const(c)
    return B.arr(out.tolist(), float), mag


def phasor(B, z):
    # the phase of exactly 0 is arbitrary
    B.assume(z != 0 if B.sym else abs(z) > 1e-9)
    return z / abs(z)


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def reference(B, p, zs, data, mag, max_iters, ptol, mtol, phase_only):
    n = p.size
    nz = len(zs)
    ideal = O.ideal_pupil(B, p)
    pup = ideal
    unit = O.hanser_field(B, p, zs, ideal)  # the defocus factors inside the aperture
    mse, mdiff, pdiff = [], [], []
    a = obj(data)
    old = None
    c = n // 2
    for it in range(max_iters):
        f = np.empty((1, nz, n, n), object)
        for q in np.ndindex(nz, n, n):
            f[(0,) + q] = pup[q[1:]] * unit[(0,) + q] if ideal[q[1:]] == 1 else 0
        psfa = obj(O.hanser_psfa(B, p, zs, field=f))[0]
        e = total((a[q] - O.abs2(psfa[q])) * (a[q] - O.abs2(psfa[q])) for q in np.ndindex(nz, n, n)) / (nz * n * n)
        mse.append(e)
        if it:
            mdiff.append(abs(mse[-2] - e) / mse[-2])
            cells = list(np.ndindex(n, n))
            pdiff.append(total(O.abs2(old[q] - pup[q]) for q in cells if ideal[q] == 1) / total(O.abs2(_c(B, old[q])) for q in cells if ideal[q] == 1))
            if pdiff[-1] < ptol or mdiff[-1] < mtol or e < mtol:
                break
        elif e < mtol:
            break
        old = pup
        g = np.empty((nz, n, n), object)
        for q in np.ndindex(nz, n, n):
            g[q] = mag[q] * phasor(B, psfa[q])
        # forward transform, origin at n // 2
        h1, h = np.empty((nz, n, n), object), np.empty((n, n), object)
        for l, i, k in np.ndindex(nz, n, n):
            h1[l, i, k] = total(g[l, i, j] * root(B, -k * (j - c), n) for j in range(n))
        for i, k in np.ndindex(n, n):
            if ideal[i, k] != 1:
                h[i, k] = 0
                continue
            s = 0
            for l in range(nz):
                s = s + total(h1[l, j, k] * root(B, -i * (j - c), n) for j in range(n)) / unit[0, l, i, k]
            s = s / nz
            h[i, k] = phasor(B, s) if phase_only else s
        pup = h
    return pup, mse, mdiff, pdiff


def _c(B, x):
    return x if B.sym else complex(x)


def retrieve(B, size, nz, ap, iters, free=None, kind="square", tols="zero", phase_only=False, form="zres", extra=False):
    p, params, zs = build(B, size, nz, ap, form)
    if extra:
        params.update(vec_corr="total", condition="sine", size=17, zsize=5)
    keep = dict(params)
    data, mag = samples(B, nz, size, free, kind)
    d0 = data.copy()
    args = {}
    if tols == "free":
        pt, mt = B.real("ptol", sample=(0, 0.05)), B.real("mtol", sample=(0, 0.05))
    elif tols == "pupil":
        pt, mt = B.real("ptol", sample=(0, 0.05)), -1
    elif tols == "mse":
        pt, mt = -1, B.real("mtol", sample=(0, 0.5))
    else:
        pt, mt = -1, -1
    kw = dict(max_iters=iters, pupil_tol=pt, mse_tol=mt)
    if phase_only or B.choice("spell phase_only", (False, True)):
        kw["phase_only"] = phase_only
    r = B.m.phaseretrieval.retrieve_phase(data, params, **kw)
    pup, mse, mdiff, pdiff = reference(B, p, zs, d0, mag, iters, pt, mt, phase_only)
    n = len(mse)
    for name in ("mse", "mse_diff", "pupil_diff"):
        B.same(tuple(getattr(r, name).shape), (n,), "one entry per iteration in " + name)
    B.eq(r.mse, mse, "mse")
    if r.mse_diff.shape == (n,) and r.pupil_diff.shape == (n,):
        for name, x in (("mse_diff", mdiff), ("pupil_diff", pdiff)):
            v = getattr(r, name)
            B.claim(bool(B.np.isnan(v[0])), "no first " + name)
            if n > 1:
                B.eq(v[1:], x, name, scale=1 if not B.sym else None)
    c = size // 2
    cen = amap(B, (size, size), lambda i, j: pup[(i - c) % size, (j - c) % size], complex)
    inside = amap(B, (size, size), lambda i, j: 1 if O.ideal_pupil(B, p)[(i - c) % size, (j - c) % size] == 1 else 0)
    s = 1 if not B.sym else None
    B.eq(r.complex_pupil, cen, "complex pupil", scale=s)
    B.eq(r.mag, amap(B, (size, size), lambda i, j: abs(obj(cen)[i, j])), "magnitude", scale=s)
    for i, j in np.ndindex(size, size):
        if obj(inside)[i, j] == 0:
            B.eq(r.mag[i, j], 0, "no magnitude outside the aperture")
            B.eq(r.phase[i, j], 0, "no phase outside the aperture")
    B.eq(data, d0, "data untouched", out=False)
    B.same(sorted(params), sorted(keep), "params untouched")
    for k, v in keep.items():
        if isinstance(v, list):
            B.eq(params[k], v, "params untouched", out=False)
        else:
            B.same(params[k], v, "params untouched")


def defaults(B):
    """Default tolerances and the error cases."""
    p, params, zs = build(B, 3, 1, 5, "zrange")
    data, mag = samples(B, 1, 3, None, "square")
    f = B.m.phaseretrieval.retrieve_phase
    r = f(data, params, max_iters=1)
    e = 1e-8
    pup, mse, mdiff, pdiff = reference(B, p, zs, data, mag, 1, e, e, False)
    B.eq(r.mse, mse, "mse")
    c = 1
    B.eq(r.complex_pupil, amap(B, (3, 3), lambda i, j: pup[(i - c) % 3, (j - c) % 3], complex), "complex pupil")
    B.raises(Exception, lambda: f(data, params, max_iters=0), "no iterations")
    B.raises(Exception, lambda: f(B.array("q", (2, 3, 2)), params), "not square")


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, budget=400, qtimeout=500)

    def add(name, weight=50, **kw):
        out.append(Case(name, retrieve, weight=weight, **{**k, **kw}))

    for ap in (1, 5, 9):
        for po in (False, True):
            for nz in (1, 2):
                add("1 update, %d frequencies, %d planes%s" % (ap, nz, " phase only" if po else ""), size=3, nz=nz, ap=ap, iters=1, phase_only=po, form="zrange" if nz == 2 or ap == 9 else "zres")
    for tols in ("zero", "free", "pupil", "mse"):
        for po in (False, True):
            t = "%s tolerances%s" % (tols, ", phase only" if po else "")
            kk = dict(size=3, tols=tols, phase_only=po)
            add("2 updates, 1 frequency, 1 plane, 3 free voxels, " + t, nz=1, ap=1, iters=2, free=V3, **kk)
            add("2 updates, 5 frequencies, 1 plane, 1 free voxel, " + t, nz=1, ap=5, iters=2, free=V1, **kk)
            add("2 updates, 5 frequencies, 1 plane, 2 free voxels, " + t, nz=1, ap=5, iters=2, free=V3[:2], **kk)
            if not po or big and tols == "zero":
                add("3 updates, 1 frequency, 1 plane, 2 free voxels, " + t, nz=1, ap=1, iters=3, free=V3[:2], weight=100, **kk)
            if not po:
                add("3 updates, 5 frequencies, 1 plane, no free voxel, " + t, nz=1, ap=5, iters=3, free=(), **kk)
                if tols == "free" or big:
                    add("2 updates, 9 frequencies, 1 plane, 1 free voxel, " + t, nz=1, ap=9, iters=2, free=V1, form="zrange", weight=200, **kk)
                if big:
                    add("4 updates, 1 frequency, 1 plane, 2 free voxels, " + t, nz=1, ap=1, iters=4, free=V3[:2], **kk)
                    add("2 updates, 5 frequencies, 2 planes, 1 free voxel, " + t, nz=2, ap=5, iters=2, free=V1, **kk)
    out.append(Case("defaults", defaults, weight=20, **k))
    return out
