"""generate_psf on a result with a symbolic pupil: the intensity of the pupil's field written out, cropped or padded by
index arithmetic; the result and its model are read again afterwards."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, obj

BOUNDS = ("models of 1 to 5 pixels (6 thorough) and 1 to 3 planes; target sizes 1 to 8; zsize 1 to 3 and zrange of 1 or 2 free planes or a scalar, alone and with size, and up to three calls in a row; every magnitude, phase and z spacing; "
          "all five vec_corr and three conditions; wl, na, ni, res free for sizes up to 3, else one representative set")


def setup(B, n, nz, vec="none", cond="none", form="zres", free=False):
    if free:
        p = O.params(B, n, nz, vec, cond, zres=B.real("zres", pos=True, sample=(0.1, 0.4)))
    else:
        p = O.P(wl=B.const(F(1, 2)), na=B.const(F(9, 10)), ni=B.const(F(3, 2)), res=B.const(F(1, 5)), size=n, zsize=nz, zres=B.real("zres", pos=True, sample=(0.1, 0.4)),
                vec_corr=vec, condition=cond)
    kw, zs = {}, O.default_z(p)
    if form == "zrange":
        zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
        kw["zrange"] = list(zs)
    m = B.m.otf.HanserPSF(**p.args(), **kw)
    ideal = O.ideal_pupil(B, p)
    c = n // 2
    # any pupil of the aperture
    mag, ph, pup = np.empty((n, n), object), np.empty((n, n), object), np.empty((n, n), object)
    for i, j in np.ndindex(n, n):
        u, v = (i - c) % n, (j - c) % n
        if ideal[u, v] == 1:
            mag[i, j] = B.real("m%d_%d" % (i, j), sample=(0.1, 1))
            ph[i, j] = B.real("p%d_%d" % (i, j), sample=(-1, 1))
            pup[u, v] = mag[i, j] * O.expi(B, ph[i, j])
        else:
            mag[i, j] = ph[i, j] = pup[u, v] = 0
    mag, ph = B.arr(mag.tolist(), float), B.arr(ph.tolist(), float)
    mse = B.array("e", (2,))
    r = B.m.phaseretrieval.PhaseRetrievalResult(mag, ph, mse, mse, mse, m)
    return p, r, pup, zs


def window(B, ref, size):
    """Lateral window of the intensity: old pixel n // 2 at new pixel size // 2."""
    a = obj(ref)
    nz, n = a.shape[:2]
    if size is None:
        return ref
    d = n // 2 - size // 2

    def at(l, i, j):
        i, j = i + d, j + d
        return a[l, i, j] if 0 <= i < n and 0 <= j < n else 0
    return amap(B, (nz, size, size), at)


def planes(B, p, zs, call, k):
    """z planes a call asks for."""
    kw = {}
    if call.get("zsize"):
        q = p.but(zsize=call["zsize"])
        zs = O.default_z(q)
        kw["zsize"] = call["zsize"]
    w = call.get("zrange")
    if w == "scalar":
        z = B.real("w%d" % k, sample=(-1, 1))
        zs, kw["zrange"] = [z], z
    elif w:
        zs = [B.real("w%d_%d" % (k, i), sample=(-1, 1)) for i in range(w)]
        kw["zrange"] = list(zs)
    if "size" in call:
        kw["size"] = call["size"]
    return kw, zs


def psf(B, n, nz, calls, vec="none", cond="none", form="zres", free=False, read=()):
    p, r, pup, zs = setup(B, n, nz, vec, cond, form, free)
    before = {a: getattr(r.model, a) for a in read}
    keep = {a: x.copy() for a, x in before.items()}
    mag, ph, mse = r.mag.copy(), r.phase.copy(), r.mse.copy()
    for k, call in enumerate(calls):
        kw, zz = planes(B, p, zs, call, k)
        given = list(kw["zrange"]) if isinstance(kw.get("zrange"), list) else None
        ref = O.intensity(B, O.hanser_psfa(B, p, zz, pup))
        B.eq(r.generate_psf(**kw), window(B, ref, call.get("size")), "PSF of call %d" % k)
        if given is not None:
            B.eq(B.arr(kw["zrange"]), B.arr(given), "zrange untouched", out=False)
    m = r.model
    B.eq(r.mag, mag, "magnitude kept", out=False)
    B.eq(r.phase, ph, "phase kept", out=False)
    B.eq(r.mse, mse, "history kept", out=False)
    for a in ("wl", "na", "ni", "res", "zres", "size", "zsize", "vec_corr", "condition"):
        B.same(getattr(m, a), getattr(p, a), "model's %s kept" % a)
    B.eq(m.zrange, B.arr(zs, float), "model's planes kept", out=False)
    for a, x in keep.items():
        B.eq(getattr(m, a), x, "model's %s kept" % a, out=False)
    if not read:
        B.eq(m.PSFa, O.hanser_psfa(B, p, zs), "model's PSFa kept", out=False)


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, budget=200, qtimeout=2000)

    def add(name, **kw):
        out.append(Case(name, psf, weight=kw["n"] ** 2 * len(kw["calls"]) * (5 if kw.get("free") else 1), **kw, **k))

    for n in range(1, 7 if big else 6):
        add("size %d as it is" % n, n=n, nz=2, calls=[{}])
        for s in range(1, 9):
            add("size %d to %d" % (n, s), n=n, nz=1 + (n + s) % 2, calls=[dict(size=s)], form="zrange" if s % 3 == 0 else "zres", read=("PSFi",) if s % 2 else ())
    for n in (2, 3, 4):
        for nz in (1, 2, 3):
            for form in ("zres", "zrange"):
                for call in (dict(zsize=1), dict(zsize=2), dict(zsize=3), dict(zrange=1), dict(zrange=2), dict(zrange="scalar"), dict(zsize=2, zrange=1), dict(zsize=3, size=n + 1), dict(zrange=2, size=n - 1)):
                    if n > 2 and form == "zrange" and not big and nz != 2:
                        continue
                    add("size %d, %d planes by %s, %s" % (n, nz, form, call), n=n, nz=nz, calls=[call], form=form, read=("PSFi", "OTFa") if nz == 2 else ())
    for vec in O.VEC:
        for cond in O.COND:
            add("vec_corr %s, condition %s" % (vec, cond), n=3, nz=1, calls=[dict(size=4), dict(zsize=2)], vec=vec, cond=cond)
    for n in (1, 2, 3):
        for vec, cond in (("none", "none"), ("none", "sine"), ("total", "herschel")):
            add("any parameters, size %d, %s/%s" % (n, vec, cond), n=n, nz=1, calls=[dict(size=n + 1, zsize=2)], vec=vec, cond=cond, free=True)
    for i, calls in enumerate(([dict(zrange=2), {}], [dict(zsize=3), {}, dict(zsize=3)], [dict(size=5), dict(size=2), {}], [{}, dict(zrange="scalar"), dict(zsize=1)], [{}, {}])):
        for form in ("zres", "zrange"):
            add("calls %d in a row by %s" % (i, form), n=3, nz=2, calls=calls, form=form, read=("PSFi", "PSFa", "OTFi", "OTFa") if i % 2 else ())
    return out
