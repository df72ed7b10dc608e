"""The four arrays of a model against each other, by the definition of the centred DFT: HanserPSF with
pupils of symbolic complex values and with its own pupil, SheppardPSF with symbolic parameters, in
every reading order."""
from fractions import Fraction as F

from sx.harness import Case
from sx import optics as O
from sx.oracle import cdft, obj

BOUNDS = ("size x zsize 2x2 .. 4x2, 3x3 (all parities); Hanser: pupils of symbolic complex values, and the ideal pupil at symbolic parameters; Sheppard: "
          "symbolic parameters (zres/res fixed); vec_corr none, x and total; reading orders: each array first")

ORDERS = [("PSFa", "PSFi", "OTFa", "OTFi"), ("OTFi", "OTFa", "PSFi", "PSFa"), ("PSFi", "OTFi", "PSFa", "OTFa"), ("OTFa", "PSFa", "OTFi", "PSFi")]


def consistent(B, m, order, shape, nc):
    r = {k: getattr(m, k) for k in order}
    A, I, OA, OI = r["PSFa"], r["PSFi"], r["OTFa"], r["OTFi"]
    B.same(tuple(I.shape), shape, "shape of PSFi")
    B.same(tuple(OI.shape), shape, "shape of OTFi")
    B.same(tuple(A.shape), (nc,) + shape, "shape of PSFa")
    B.same(tuple(OA.shape), (nc,) + shape, "shape of OTFa")
    B.same(I.dtype.kind, "f", "PSFi is real")
    B.eq(I, O.intensity(B, A), "PSFi = sum |PSFa|^2")
    B.eq(OI, cdft(B, I, (0, 1, 2)), "OTFi is the centred DFT of PSFi")
    B.eq(OA, cdft(B, A, (1, 2, 3)), "OTFa is the centred DFT of PSFa")
    B.eq(A, cdft(B, OA, (1, 2, 3), inverse=True), "PSFa is the inverse centred DFT of OTFa")
    c = tuple(n // 2 for n in shape)
    B.eq(OI[c], sum_all(I), "central OTFi value is the total intensity", out=False)


def sum_all(a):
    t = 0
    for v in obj(a).flat:
        t = t + v
    return t


def ncomp(vec):
    return {"none": 1, "total": 6}.get(vec, 2)


def hanser(B, size, nz, vec, cond, order, pupil, fixed=False):
    if fixed:
        p = O.P(wl=B.const(F(1, 2)), na=B.const(F(6, 5)), ni=B.const(F(3, 2)), res=B.const(F(1, 5)), zres=B.real("zres", pos=True), size=size,
                zsize=nz, vec_corr=vec, condition=cond)
    else:
        p = O.params(B, size, nz, vec, cond)
    m = B.m.otf.HanserPSF(**p.args())
    if pupil:
        m.apply_pupil(B.array("p", (size, size), "c"))
    consistent(B, m, ORDERS[order], (nz, size, size), ncomp(vec))


def sheppard(B, size, nz, vec, cond, order, dual, ratio):
    p = O.params(B, size, nz, vec, cond, zres=1)
    p = p.but(zres=p.res * B.const(ratio))
    B.assume(2 * p.ni * p.zres < p.wl)
    m = B.m.otf.SheppardPSF(**p.args(), dual=dual)
    consistent(B, m, ORDERS[order], (nz, size, size), ncomp(vec))


def cases(tier):
    big = tier == "thorough"
    out = []
    for o in range(4):
        for s, z in ((2, 2), (2, 3), (3, 2), (3, 3)):
            out.append(Case("hanser ideal %dx%d none/sine order %d" % (s, z, o), hanser, split=True, size=s, nz=z, vec="none", cond="sine", order=o, pupil=False, budget=250, weight=s * s * z))
        for s, z in ((2, 2), (2, 3), (3, 2)):
            out.append(Case("hanser pupil %dx%d none/none order %d" % (s, z, o), hanser, split=True, size=s, nz=z, vec="none", cond="none", order=o, pupil=True, fixed=True, budget=250, weight=s ** 4 * z))
        for s, z in ((2, 3), (3, 2), (3, 3)):
            out.append(Case("sheppard %dx%d none/sine order %d" % (s, z, o), sheppard, split=True, size=s, nz=z, vec="none", cond="sine", order=o, dual=o % 2 == 1, ratio=F(3, 4), budget=250, weight=s * s * z, qtimeout=1500))
    for vec in ("x", "y", "z", "total"):
        out.append(Case("hanser ideal 3x2 %s/herschel" % vec, hanser, split=True, size=3, nz=2, vec=vec, cond="herschel", order=1, pupil=False, budget=250, weight=40))
        out.append(Case("hanser pupil 2x2 %s/sine" % vec, hanser, split=True, size=2, nz=2, vec=vec, cond="sine", order=2, pupil=True, fixed=True, budget=250, weight=80))
        out.append(Case("sheppard 3x2 %s/herschel" % vec, sheppard, split=True, size=3, nz=2, vec=vec, cond="herschel", order=0, dual=False, ratio=F(1), budget=250, weight=40, qtimeout=1500))
    out.append(Case("hanser ideal 4x2 none/none", hanser, split=True, size=4, nz=2, vec="none", cond="none", order=0, pupil=False, budget=250, weight=100))
    out.append(Case("sheppard 4x2 none/none", sheppard, split=True, size=4, nz=2, vec="none", cond="none", order=1, dual=True, ratio=F(3, 2), budget=250, weight=100, qtimeout=1500))
    if big:
        out.append(Case("hanser pupil 3x3 none/none", hanser, split=True, size=3, nz=3, vec="none", cond="none", order=0, pupil=True, fixed=True, budget=2500, weight=300))
        out.append(Case("hanser pupil 3x2 total/sine", hanser, split=True, size=3, nz=2, vec="total", cond="sine", order=0, pupil=True, fixed=True, budget=2500, weight=300))
        for s, z in ((4, 3), (4, 4), (5, 2), (5, 3)):
            for o in range(4):
                out.append(Case("hanser ideal %dx%d none/sine order %d" % (s, z, o), hanser, split=True, size=s, nz=z, vec="none", cond="sine", order=o, pupil=False, budget=2500, weight=s * s * z))
    return out
