"""SheppardPSF.OTFa on symbolic optical parameters and voxel sizes against the definition of the
NA-limited spherical shell; every set of voxels the shell can select is a path."""
from fractions import Fraction as F

from sx.harness import Case
from sx import optics as O

BOUNDS = ("grids size x zsize 2x2 .. 4x3, every vec_corr, condition and dual; all wl, na, ni, res with 0 < na <= ni, res < wl/(2 na), zres < wl/(2 ni), "
          "for zres/res = 1/2, 3/4, 1, 3/2 (and zres alone symbolic over its whole range at fixed wl, na, ni, res)")


def field(B, size, zsize, vec, cond, dual, ratio=None, fixed=None, give=True):
    if fixed is None:
        p = O.params(B, size, zsize, vec, cond, zres=1)
        p = p.but(zres=p.res * B.const(ratio))
    else:
        wl, na, ni, res = [B.const(v) for v in fixed]
        p = O.P(wl=wl, na=na, ni=ni, res=res, size=size, zsize=zsize, vec_corr=vec, condition=cond,
                zres=B.real("zres", pos=True, sample=(0.02, 0.2)))
    B.assume(2 * p.ni * p.zres < p.wl)
    kw = {}
    if give:
        kw["zres"] = p.zres
    if dual is not None:
        kw["dual"] = dual
    m = B.m.otf.SheppardPSF(wl=p.wl, na=p.na, ni=p.ni, res=p.res, size=size, zsize=zsize, vec_corr=vec, condition=cond, **kw)
    o = m.OTFa
    B.eq(o, O.sheppard_otfa(B, p, bool(dual)), "OTFa")
    B.claim(B.np.isfinite(o).all(), "finite")


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(s, z, vec, cond, dual, **k):
        name = "%dx%d %s/%s dual=%s " % (s, z, vec, cond, dual) + (("zres/res=%s" % k["ratio"]) if "ratio" in k else "zres free")
        if not k.get("give", True):
            name += " defaulted"
        out.append(Case(name, field, split=True, size=s, zsize=z, vec=vec, cond=cond, dual=dual, budget=2000 if big else 250, weight=s * s * z, qtimeout=1500 if (s, z) == (3, 3) else 6000, **k))

    for vec in O.VEC:
        for cond in O.COND:
            for dual in (False, True):
                add(2, 3, vec, cond, dual, ratio=F(3, 4))
                add(3, 3, vec, cond, dual, ratio=F(1, 2))
    for s, z in ((2, 2), (3, 2), (2, 4), (4, 3), (3, 4)):
        for r in (F(1, 2), F(1), F(3, 2)):
            if big or (s, z) not in ((4, 3), (3, 4)) or r == (F(3, 2) if s == 4 else F(1)):
                add(s, z, "none", "sine", None, ratio=r)
        if big or (s, z) != (3, 4):
            add(s, z, "total", "herschel", True, ratio=F(3, 2))
    add(3, 3, "total", "sine", False, ratio=F(1), give=False)
    add(4, 4, "total", "none", False, ratio=F(1), give=False)
    fixed = (F(1, 2), F(6, 5), F(4, 3), F(1, 6))
    add(2, 3, "total", "sine", True, fixed=fixed)
    add(3, 3, "total", "herschel", False, fixed=fixed)
    if big:
        for s, z in ((4, 4), (5, 4), (4, 5), (5, 5)):
            for vec in ("none", "total"):
                for dual in (False, True):
                    add(s, z, vec, "sine", dual, ratio=F(3, 4))
    return out
