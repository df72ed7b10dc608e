"""HanserPSF.PSFa on symbolic optical parameters, z planes and pupils, against the defining sum of the
defocused pupil; every way the grid can meet the aperture and the propagating range is a path."""
from sx.harness import Case
from sx import optics as O

BOUNDS = ("size 1..4 (5, 6 thorough), 1-2 z planes at symbolic positions, every vec_corr and condition; default pupil and pupils of symbolic "
          "complex values; all wl, na, ni, res with 0 < na <= ni, res < wl/(2 na)")
ASSUMES = ["custom pupils are zero at frequencies at or beyond ni/wl (evanescent waves are outside the model)"]


def build(B, p, zs):
    return B.m.otf.HanserPSF(wl=p.wl, na=p.na, ni=p.ni, res=p.res, size=p.size, zres=p.zres, zsize=p.zsize, vec_corr=p.vec_corr,
                             condition=p.condition, **({} if zs is None else dict(zrange=zs)))


def default(B, size, nz, vec, cond, form="list"):
    p = O.params(B, size, nz, vec, cond, zres=1)
    zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
    arg = zs[0] if form == "scalar" else B.arr(zs) if form == "array" else zs
    B.eq(build(B, p, arg).PSFa, O.hanser_psfa(B, p, zs), "PSFa")


def grid(B, size, nz, vec, cond):
    p = O.params(B, size, nz, vec, cond)
    m = build(B, p, None)
    B.eq(m.PSFa, O.hanser_psfa(B, p, O.default_z(p)), "PSFa on the default z grid")


def custom(B, size, nz, vec, cond):
    p = O.params(B, size, nz, vec, cond, zres=1)
    zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
    pup = B.array("p", (size, size), "c")
    k, kr2, kr = O.lateral(B, p)
    km = p.ni / p.wl
    pup0 = pup.copy()
    for i in range(size):
        for j in range(size):
            if kr[i][j] >= km:
                pup[i, j] = 0
                pup0[i, j] = 0
    m = build(B, p, zs)
    m.apply_pupil(pup)
    B.eq(m.PSFa, O.hanser_psfa(B, p, zs, pup0), "PSFa of the applied pupil")
    B.eq(pup, pup0, "pupil untouched", out=False)


def cases(tier):
    big = tier == "thorough"
    out = []
    for vec in O.VEC:
        for cond in O.COND:
            for size in (2, 3, 4):
                nz = 2 if size < 4 and vec != "total" else 1
                out.append(Case("default size %d nz %d %s/%s" % (size, nz, vec, cond), default, split=True, size=size, nz=nz, vec=vec,
                                cond=cond, weight=size ** 3 * (6 if vec == "total" else 2), budget=200))
            out.append(Case("pupil size 3 %s/%s" % (vec, cond), custom, split=True, size=3, nz=1, vec=vec, cond=cond, budget=200,
                            weight=50))
    for cond in O.COND:
        out.append(Case("pupil size 4 none/%s" % cond, custom, split=True, size=4, nz=1, vec="none", cond=cond, budget=200, weight=90))
    out.append(Case("pupil size 4 total/sine", custom, split=True, size=4, nz=1, vec="total", cond="sine", budget=300, weight=200))
    out.append(Case("pupil size 2 nz 2 x/sine", custom, split=True, size=2, nz=2, vec="x", cond="sine", budget=200))
    out.append(Case("scalar z", default, split=True, size=3, nz=1, vec="none", cond="sine", form="scalar"))
    out.append(Case("z array", default, split=True, size=3, nz=3, vec="none", cond="sine", form="array"))
    out.append(Case("size 1", default, split=True, size=1, nz=1, vec="none", cond="sine"))
    for size, nz in ((2, 3), (3, 2), (3, 3), (4, 2)):
        out.append(Case("default grid size %d zsize %d" % (size, nz), grid, split=True, size=size, nz=nz, vec="none", cond="sine", budget=200))
    out.append(Case("default grid size 3 zsize 2 total", grid, split=True, size=3, nz=2, vec="total", cond="herschel", budget=200, weight=60))
    sizes = (5, 6) if big else ()
    out.append(Case("default size 5 none/sine", default, split=True, size=5, nz=1, vec="none", cond="sine", budget=300, weight=150))
    for size in sizes:
        for vec in O.VEC:
            for cond in O.COND:
                out.append(Case("default size %d %s/%s" % (size, vec, cond), default, split=True, size=size, nz=1, vec=vec, cond=cond, budget=1500,
                                weight=size ** 3))
    return out
