"""Sums of HanserPSF intensities with symbolic pupils, z planes and optical parameters: every plane
holds the same energy, Parseval against the pupil, and the vectorial parts add up."""
import numpy as np

from sx.harness import Case
from sx import optics as O
from sx.oracle import obj

BOUNDS = ("size 2..4 (5 thorough), 2-3 planes at symbolic z; pupils of symbolic complex values (any values, evanescent range included) and the ideal "
          "pupil; every vec_corr and condition; all wl, na, ni, res with 0 < na <= ni, res < wl/(2 na)")


def total(x):
    t = 0
    for v in obj(x).flat:
        t = t + v
    return t


def planes(B, size, nz, vec, cond, pupil):
    p = O.params(B, size, nz, vec, cond, zres=1)
    zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
    m = B.m.otf.HanserPSF(zrange=zs, **p.args())
    e = None
    if pupil:
        pup = B.array("p", (size, size), "c")
        m.apply_pupil(pup)
        if cond == "none":
            e = total(np.array([O.abs2(v) for v in obj(pup).flat], object)) / size ** 2
    elif cond == "none":
        e = total(O.ideal_pupil(B, p)) * 1 / B.const(size ** 2)
    I = m.PSFi
    s = [total(I[i]) for i in range(nz)]
    for i in range(1, nz):
        B.eq(s[i], s[0], "plane %d holds the energy of plane 0" % i)
    if e is not None and vec in ("none", "total"):
        B.eq(s[0], e * (2 if vec == "total" else 1), "energy of the pupil")


def parts(B, size, cond, pupil, via):
    p = O.params(B, size, 1, "total", cond, zres=1)
    z = B.real("z", sample=(-1, 1))
    pup = B.array("p", (size, size), "c") if pupil else None
    r = {}
    m = None
    for vec in ("x", "total", "y", "z"):
        if via == "assign" and m is not None:
            m.vec_corr = vec
        else:
            m = B.m.otf.HanserPSF(zrange=[z], **p.but(vec_corr=vec).args())
        if pupil:
            m.apply_pupil(pup)
        r[vec] = m.PSFi
    B.eq(r["total"], r["x"] + r["y"] + r["z"], "total = x + y + z")


def cases(tier):
    big = tier == "thorough"
    out = []
    for vec in O.VEC:
        for cond in O.COND:
            for s in (2, 3):
                out.append(Case("planes pupil %d %s/%s" % (s, vec, cond), planes, split=True, size=s, nz=2, vec=vec, cond=cond, pupil=True, budget=300, weight=s * (5 if vec == "total" else 2)))
            for s in (2, 3, 4):
                out.append(Case("planes ideal %d %s/%s" % (s, vec, cond), planes, split=True, size=s, nz=2, vec=vec, cond=cond, pupil=False, budget=300, weight=s * (5 if vec == "total" else 2)))
    for cond in O.COND:
        for via in ("new", "assign"):
            out.append(Case("parts pupil 3 %s %s" % (cond, via), parts, split=True, size=3, cond=cond, pupil=True, via=via, budget=300, weight=20))
            out.append(Case("parts ideal 4 %s %s" % (cond, via), parts, split=True, size=4, cond=cond, pupil=False, via=via, budget=300, weight=20))
        out.append(Case("parts pupil 2 %s" % cond, parts, split=True, size=2, cond=cond, pupil=True, via="new", budget=300))
        out.append(Case("planes pupil 4 none/%s" % cond, planes, split=True, size=4, nz=2, vec="none", cond=cond, pupil=True, budget=300, weight=30))
    out.append(Case("three planes pupil 3", planes, split=True, size=3, nz=3, vec="none", cond="sine", pupil=True, budget=300))
    if big:
        for vec in O.VEC:
            out.append(Case("planes ideal 5 %s/none" % vec, planes, split=True, size=5, nz=2, vec=vec, cond="none", pupil=False, budget=2500, weight=100))
            out.append(Case("planes pupil 4 %s/none" % vec, planes, split=True, size=4, nz=2, vec=vec, cond="none", pupil=True, budget=2500, weight=100))
        out.append(Case("parts ideal 5 sine", parts, split=True, size=5, cond="sine", pupil=False, via="new", budget=2500, weight=100))
    return out
