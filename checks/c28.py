"""plot_psf and plot_otf of models and microscopes with free images, pitches and optical parameters (matplotlib replaced by a
recorder when symbolic, real matplotlib on replay): what is drawn against the window, scale and outlines by definition."""
from fractions import Fraction as F

import numpy as np

from sx import num as N
from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, obj
from checks import scope as S
from checks.c24 import check as panels, close

BOUNDS = ("models of 3 pixels with 3 to 5 planes of free positive intensity and any place of the brightest voxel, microscopes of up to 13 pixels with 1 free voxel; window widths from any wl, na, ni, pixel and step one at a time "
          "(axial windows above 0.6 planes, lateral ones by the pixel size, away from rounding ties); any positive OTF; planes at any 3 or 4 free positions for the refusals; outlines for every na <= ni and wl")
ASSUMES = ["the brightest voxel is unique"]


def rnd(B, v):
    """Nearest integer, away from ties."""
    r = B.np.rint(v)
    B.assume(abs(v - r) < F(499, 1000) if B.sym else abs(v - r) < 0.499)
    return int(r)


def window(x, w, n):
    """Indices of the window of w samples about x, clipped to the array."""
    lo = x - w // 2
    return max(0, lo), min(n, lo + w)


def derived(m, **attrs):
    """m with the given arrays in place of its own."""
    base = type(m)
    new = type(base.__name__, (base,), {k: property(lambda self, v=v: v) for k, v in attrs.items()})
    m.__class__ = new
    return m


def peaked(B, shape, peak, free, scale=1):
    """Positive values below 1, free ones at `free`, and a free one above 1 at the peak."""
    def at(*q):
        nm = "I%d_%d_%d" % q
        if free is None:
            return 2.0 if q == peak else 1 / 2 ** ((3 * q[0] + 5 * q[1] + 7 * q[2]) % 11)
        if q == peak:
            return 1 + B.real(nm, pos=True, sample=(0.1, 1))
        if q in free:
            return B.real(nm, lo=F(1, 100), hi=F(99, 100), sample=(0.05, 0.95))
        return B.const(F(1, 2 + (3 * q[0] + 5 * q[1] + 7 * q[2]) % 11))
    return amap(B, shape, at)


BASE = dict(wl=F(3, 5), na=F(9, 10), ni=F(3, 2), res=F(1, 5), zres=F(1, 4))
RANGE = dict(wl=(F(1, 2), F(7, 10)), na=(F(4, 5), F(1)), ni=(F(5, 4), F(2)), res=(F(1, 10), F(1, 4)), zres=(F(5), F(50)))


def optics(B, vary, **over):
    over = dict(over)
    lo, hi = over.pop("range", None) or RANGE.get(vary, (0, 0))
    c = {k: B.const(F(v)) for k, v in dict(BASE, **over).items()}
    if vary in c:
        c[vary] = B.real(vary, lo=lo, hi=hi)
    return c


def axial(B, c, step):
    return c["wl"] / (c["ni"] - O.sqrt(B, c["ni"] * c["ni"] - c["na"] * c["na"])) / step * 16


def lateral(c, pixel):
    return c["wl"] / 2 / c["na"] / pixel * 32


def drawn(B, grid, x, cut, steps, mip):
    lo = [a for a, b in cut]
    shape = tuple(b - a for a, b in cut)
    a = obj(x)
    y = amap(B, shape, lambda *q: a[q[0] + lo[0], q[1] + lo[1], q[2] + lo[2]])
    r = [(-(n // 2) * d, ((n - 1) // 2) * d) for n, d in zip(shape, steps)]
    if r[0][0] == r[0][1] if not B.sym else shape[0] == 1:
        r[0] = None
    panels28(B, grid, y, r, "max" if mip else "slice")


def panels28(B, grid, y, r, how):
    # a single plane has an extent of no length, which matplotlib replaces
    if r[0] is None:
        ax = [g for g in (grid[k] for k in range(4)) if "XY" in g.get_title()]
        B.same(len(ax), 1, "a panel called XY")
        im = ax[0].get_images()[0]
        d = im.data if B.sym else np.asarray(im.get_array())
        B.eq(d, amap(B, obj(y).shape[1:], lambda i, j: obj(y)[0, i, j]), "image XY")
        ext = im.extent if B.sym else im.get_extent()
        for k in range(4):
            B.eq(ext[k], (tuple(r[2]) + tuple(r[1]))[k], "extent %d of XY" % k, scale=1)
        return
    panels(B, grid, y, r, how)


def model_psf(B, cls, vary, nz, size, peak, free, how="zres", mip=None, base={}):
    c = optics(B, vary, **base)
    kw = {}
    if how == "zrange":
        # evenly spaced planes of the caller's, up or down
        z0, d = B.real("z0", sample=(-1, 1)), c["zres"]
        if B.choice("down", (False, True)):
            d = -d
        kw["zrange"] = B.arr([z0 + i * d for i in range(nz)], float) if B.choice("array", (True, False)) else [z0 + i * d for i in range(nz)]
        step = d
        m = getattr(B.m.otf, cls)(c["wl"], c["na"], c["ni"], c["res"], size, **kw)
    else:
        step = c["zres"]
        m = getattr(B.m.otf, cls)(c["wl"], c["na"], c["ni"], c["res"], size, zres=c["zres"], zsize=nz)
    x = peaked(B, (nz, size, size), peak, free)
    x0 = x.copy()
    derived(m, PSFi=x)
    fig, grid = m.plot_psf(**({} if mip is None else dict(mip=mip)))
    B.eq(x, x0, "PSFi", out=False)
    W = (rnd(B, axial(B, c, abs(step))), rnd(B, lateral(c, c["res"])), rnd(B, lateral(c, c["res"])))
    drawn(B, grid, x0, [window(p, w, n) for p, w, n in zip(peak, W, (nz, size, size))], (step, c["res"], c["res"]), mip is not False)
    close(B)


def micro_psf(B, kind, vary, nz, size, f, peak, free, pixel, mip=None, base={}, model="hanser", zrange=False, **kw):
    c = optics(B, vary, **base)
    px = B.real("pixel", lo=pixel[0], hi=pixel[1]) if isinstance(pixel, tuple) else B.const(F(pixel))
    a = dict(zres=c["zres"], zsize=nz)
    if zrange:
        z0 = B.real("z0", sample=(-1, 1))
        a = dict(zrange=[z0 + i * c["zres"] for i in range(nz)])
    m = S.make(B, kind, size, f, model=model, pixel=px, wl=c["wl"], na=c["na"], ni=c["ni"], **a, **kw)
    x = peaked(B, (nz, size, size), peak, free)
    x0 = x.copy()
    derived(m, PSF=x)
    fig, grid = m.plot_psf(**({} if mip is None else dict(mip=mip)))
    B.eq(x, x0, "PSF", out=False)
    W = (rnd(B, axial(B, c, c["zres"])), rnd(B, lateral(c, px)), rnd(B, lateral(c, px)))
    drawn(B, grid, x0, [window(p, w, n) for p, w, n in zip(peak, W, (nz, size, size))], (c["zres"], px, px), mip is not False)
    close(B)


def otf_image(B, shape):
    """Free positive magnitudes (the largest at the centre) with the phase of one of the axes."""
    mid = tuple(n // 2 for n in shape)
    vals = {}

    def at(*q):
        v = B.real("o%d_%d_%d" % q, lo=F(1, 1000), hi=1, sample=(0.01, 0.9)) if q != mid else B.real("top", lo=1, hi=4, sample=(1.1, 4))
        vals[q] = v
        return v * (1 + 0j, 1j, -1 + 0j, -1j)[sum(q) % 4 if q != mid else 0]
    return amap(B, shape, at, complex), amap(B, shape, lambda *q: vals[q] / vals[mid])


def otf_panels(B, grid, y, steps):
    n = obj(y).shape
    r = [(-(k // 2) / (d * k), ((k - 1) // 2) / (d * k)) for k, d in zip(n, steps)]
    panels(B, grid, y, r, "slice")


def model_otf(B, cls, vary, nz, size, how="zres"):
    c = optics(B, vary, **({} if cls[0] == "H" else dict(zres=F(1, 8))))
    if how == "zrange":
        z0 = B.real("z0", sample=(-1, 1))
        m = getattr(B.m.otf, cls)(c["wl"], c["na"], c["ni"], c["res"], size, zrange=[z0 + i * c["zres"] for i in range(nz)])
    else:
        m = getattr(B.m.otf, cls)(c["wl"], c["na"], c["ni"], c["res"], size, zres=c["zres"], zsize=nz)
    x, y = otf_image(B, (nz, size, size))
    x0 = x.copy()
    derived(m, OTFi=x)
    fig, grid = m.plot_otf()
    B.eq(x, x0, "OTFi", out=False)
    otf_panels(B, grid, y, (c["zres"], c["res"], c["res"]))
    outline(B, grid, c)
    close(B)


def micro_otf(B, kind, vary, nz, size, f, model="hanser", zrange=False, **kw):
    c = optics(B, vary)
    px = B.real("pixel", lo=F(1, 10), hi=F(1, 4))
    a = dict(zrange=[i * c["zres"] for i in range(nz)]) if zrange else dict(zres=c["zres"], zsize=nz)
    m = S.make(B, kind, size, f, model=model, pixel=px, wl=c["wl"], na=c["na"], ni=c["ni"], **a, **kw)
    x, y = otf_image(B, (nz, size, size))
    x0 = x.copy()
    derived(m, OTF=x)
    fig, grid = m.plot_otf()
    B.eq(x, x0, "OTF", out=False)
    otf_panels(B, grid, y, (c["zres"], px, px))
    outline(B, grid, c)
    close(B)


# ---- outlines
def fields(B, p, kind):
    """Centre, radius (and angles in degrees) of a circle or wedge."""
    names = ("xy", "radius") if kind == "Circle" else ("center", "r", "theta1", "theta2")
    if B.sym:
        v = dict(zip(names, p._args))
        v.update({k: x for k, x in p._kw.items() if k in names})
        return v
    if kind == "Circle":
        return dict(xy=p.center, radius=p.radius)
    return {k: getattr(p, k) for k in names}


def outline(B, grid, c):
    """A circle of the lateral cutoff 2 na / wl, and in the two axial panels the four arcs of radius ni / wl that join the
    zero frequency with the cutoff, above and below the lateral axis."""
    cut, n_l = 2 * c["na"] / c["wl"], c["ni"] / c["wl"]
    depth = n_l - O.sqrt(B, n_l * n_l - cut * cut / 4)
    for k in range(4):
        t = grid[k].get_title()
        ps = [(p, p._name if B.sym else type(p).__name__) for p in grid[k].patches]
        if "XY" in t:
            circles = [fields(B, p, n) for p, n in ps if n == "Circle"]
            B.same(len(circles), 1, "one circle")
            for f in circles:
                B.eq(f["radius"], cut, "radius of the cutoff", out=False)
                for u in f["xy"]:
                    B.eq(u, 0, "centre of the cutoff", out=False)
        elif "YZ" in t or "XZ" in t:
            arcs = [fields(B, p, n) for p, n in ps if n == "Wedge"]
            B.same(len(arcs), 4, "four arcs")
            lat = 1 if "YZ" in t else 0
            pts = []
            for f in arcs:
                B.eq(f["r"], n_l, "radius of an arc", out=False)
                row = []
                for th in (f["theta1"], f["theta2"], (f["theta1"] + f["theta2"]) / 2):
                    a = B.np.deg2rad(th)
                    q = (f["center"][0] + f["r"] * B.np.cos(a), f["center"][1] + f["r"] * B.np.sin(a))
                    row.append((q[lat], q[1 - lat]))
                pts.append(row)
            with B.splitting(False):
                for s in (1, -1):
                    for side in (1, -1):
                        want = [(0, 0), (s * cut, 0), (s * cut / 2, side * depth)]
                        hits = []
                        for one, two, mid in pts:
                            for ends in ((one, two), (two, one)):
                                hits.append(_all(B, [_is(B, u, v) for p, w in zip(ends + (mid,), want) for u, v in zip(p, w)]))
                        B.claim(_any(B, hits), "an arc joins zero and the cutoff on side %d, %d" % (s, side))


def _all(B, cs):
    return N.b_and(*cs) if B.sym else all(cs)


def _any(B, cs):
    return N.b_or(*cs) if B.sym else any(cs)


def _is(B, a, b):
    if B.sym:
        c = N.lift(a) - N.lift(b) == 0
        return c if type(c) is N.SBool else bool(c)
    return abs(a - b) < 1e-9 * (1 + abs(b))


def overlay(B, shape):
    x = B.array("x", shape, "f", pos=True)
    ni = B.real("ni", pos=True, sample=(1, 2))
    s = B.real("s", lo=F(1, 100), hi=1, sample=(0.1, 0.95))
    c = dict(ni=ni, na=ni * s, wl=B.real("wl", pos=True, sample=(0.3, 0.8)))
    fig, grid = B.m.display.otf_plot(x, na=c["na"], ni=c["ni"], wl=c["wl"], zres=B.const(F(1, 4)), res=B.const(F(1, 5)))
    outline(B, grid, c)
    close(B)


# ---- refusals
def refuse(B, nz, what, unit):
    """Planes that are uneven by more than a thousandth of the mean step, or fewer than 3, are refused; even ones are not."""
    u = B.const(F(unit))
    z0 = B.real("z0", lo=-5, hi=5) * u
    d = B.real("d", lo=F(1, 100) if what != "even" else 1, hi=2) * u
    zs = [z0 + i * d for i in range(nz)]
    if what == "uneven":
        e = B.real("e", lo=F(-9, 10), hi=3, sample=(-0.9, 3))
        B.assume((abs(e) > F(1, 100)) if B.sym else abs(e) > 0.01)
        k = B.choice("which", tuple(range(nz)))
        zs[k] = zs[k] + e * d
    m = B.m.otf.HanserPSF(u / 2, B.const(F(9, 10)), B.const(F(3, 2)), u / 5, 3, zrange=zs)
    ones = amap(B, (nz, 3, 3), lambda *q: 2 if q == (nz // 2, 1, 1) else 1)
    derived(m, PSFi=ones, OTFi=ones)
    for f in (m.plot_psf, m.plot_otf):
        if what == "even":
            B.claim(not B.fails(f), "even planes are plotted")
        else:
            B.raises(RuntimeError, f, "uneven planes" if what == "uneven" else "too few planes")
    close(B)


def whole(B, cls, size, nz, who, **over):
    """The model's own arrays are those drawn."""
    c = {k: float(v) for k, v in dict(BASE, **over).items()}
    if who == "model":
        m = getattr(B.m.otf, cls)(c["wl"], c["na"], c["ni"], c["res"], size, zres=c["zres"] / 2, zsize=nz)
        psf, otf = m.PSFi, m.OTFi
    else:
        m = S.make(B, who, size, 1, model=cls, pixel=c["res"], wl=c["wl"], na=c["na"], ni=c["ni"], zres=c["zres"] / 2, zsize=nz, **({} if who == "widefield" else dict(wl_exc=0.5, pinhole_size=1)))
        psf, otf = m.PSF, m.OTF
    x, o = psf.copy(), obj(otf)
    if B.choice("what", ("psf", "otf")) == "psf":
        fig, grid = m.plot_psf(mip=False)
        drawn(B, grid, x, [(0, nz), (0, size), (0, size)], (c["zres"] / 2, c["res"], c["res"]), False)
    else:
        fig, grid = m.plot_otf()
        top = abs(o[nz // 2, size // 2, size // 2])
        y = amap(B, o.shape, lambda *q: _floored(B, O.sqrt(B, O.abs2(o[q])) / top))
        otf_panels(B, grid, y, (c["zres"] / 2, c["res"], c["res"]))
    close(B)


def _floored(B, v):
    eps = np.finfo(float).eps
    return v if v > eps else eps


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, qtimeout=2000, budget=120)
    for cls in ("HanserPSF", "SheppardPSF"):
        for how in ("zres", "zrange") if cls[0] == "H" else ("zres",):
            for nz, peak in ((4, (2, 1, 1)), (4, (0, 2, 0)), (5, (4, 0, 2)), (3, (1, 1, 1))):
                if cls[0] == "H":
                    out.append(Case("%s %s, zres free, %d planes, peak %s" % (cls, how, nz, peak), model_psf, cls=cls, vary="zres", nz=nz, size=3, peak=peak, free=((1, 1, 2),), how=how, mip=False, weight=20, **k))
                out.append(Case("%s %s, images free, %d planes, peak %s" % (cls, how, nz, peak), model_psf, cls=cls, vary=None, nz=nz, size=3, peak=peak, free=((1, 1, 2), (2, 0, 0)), how=how, base=dict(zres=F(1, 8)), weight=5, **k))
        for vary in ("wl", "na", "ni") if cls[0] == "H" else ("wl",):
            for mip in (None, False):
                b = dict(zres=F(13, 2)) if cls[0] == "H" else dict(zres=F(1, 10), range=(F(1, 2), F(13, 25)))
                out.append(Case("%s %s free%s" % (cls, vary, "" if mip is None else ", slices"), model_psf, cls=cls, vary=vary, nz=5, size=3, peak=(1, 2, 1), free=((1, 1, 2),), mip=mip, base=b, weight=20, **k))
        out.append(Case("%s res free" % cls, model_psf, cls=cls, vary="res", nz=3, size=3, peak=(1, 2, 1), free=((1, 1, 2),), mip=False, base=dict(zres=F(1, 8)), **k))
        # lateral windows narrower than the image
        if cls[0] == "S":
            for size, peak in ((44, (0, 22, 22)), (45, (0, 40, 3)), (46, (0, 20, 45))):
                out.append(Case("%s wide image, peak %s" % (cls, peak), model_psf, cls=cls, vary="res", nz=1, size=size, peak=peak, free=None, mip=False, base=dict(zres=F(1, 8), range=(F(3, 20), F(33, 100))), weight=60, **k))
        for vary in (None, "res", "zres", "wl"):
            if cls[0] == "S" and vary == "zres":
                continue
            for nz in (3, 4):
                out.append(Case("%s OTF, %s free, %d planes" % (cls, vary, nz), model_otf, cls=cls, vary=vary, nz=nz, size=2, **k) if cls[0] == "H" or True else None)
    out.append(Case("HanserPSF OTF zrange", model_otf, cls="HanserPSF", vary="zres", nz=3, size=3, how="zrange", **k))
    conf = dict(wl_exc=0.5, pinhole_size=1)
    sim = dict(na_exc=0.8, wl_exc=0.45, wiener=None, dc_suppress=False)
    kinds = (("widefield", {}), ("confocal", conf), ("apotome", {}), ("sim2d", dict(sim, orientations=(0,))), ("sim3d", dict(sim, orientations=(0,))), ("lattice", sim))
    for kind, kw in kinds:
        for f in (1, 3):
            out.append(Case("%s factor %d, zres free" % (kind, f), micro_psf, kind=kind, vary="zres", nz=4, size=3, f=f, peak=(2, 1, 1), free=((1, 1, 2),), pixel="1/5", mip=False, weight=20, **kw, **k))
        out.append(Case("%s pixel free" % kind, micro_psf, kind=kind, vary=None, nz=1, size=13, f=3, peak=(0, 7, 4), free=((0, 6, 6),), pixel=(F(3, 10), F(9, 10)), mip=False, weight=40, **kw, **k))
        out.append(Case("%s OTF" % kind, micro_otf, kind=kind, vary="zres", nz=3, size=2, f=3, **kw, **k))
    out.append(Case("widefield zrange", micro_psf, kind="widefield", vary="zres", nz=4, size=3, f=3, peak=(2, 1, 1), free=((1, 1, 2),), pixel="1/5", mip=False, zrange=True, weight=20, **k))
    out.append(Case("widefield OTF zrange", micro_otf, kind="widefield", vary="zres", nz=3, size=2, f=1, zrange=True, **k))
    for vary in ("wl", "na", "ni"):
        out.append(Case("widefield %s free" % vary, micro_psf, kind="widefield", vary=vary, nz=4, size=3, f=1, peak=(2, 1, 1), free=((1, 1, 2),), pixel="1/5", base=dict(zres=F(13, 2)), weight=20, **k))
    out.append(Case("widefield Sheppard", micro_psf, kind="widefield", vary="wl", nz=3, size=3, f=1, model="sheppard", peak=(2, 1, 1), free=((1, 1, 2),), pixel="1/5", base=dict(zres=F(1, 10), range=(F(1, 2), F(13, 25))), weight=20, **k))
    for s in ((3, 2, 2), (2, 3, 3)):
        out.append(Case("outlines %dx%dx%d" % s, overlay, shape=s, **k))
    for nz in (1, 2):
        out.append(Case("%d planes" % nz, refuse, nz=nz, what="few", unit=1, **k))
    for nz in (3, 4) + ((5,) if big else ()):
        for unit in ("1", "1/1000000", "1000"):
            for what in ("even", "uneven"):
                out.append(Case("%d %s planes, unit %s" % (nz, what, unit), refuse, nz=nz, what=what, unit=unit, weight=10, **k))
    out.append(Case("HanserPSF itself", whole, cls="HanserPSF", size=2, nz=3, who="model", **k))
    # (a grid whose transfer function is not zero everywhere)
    out.append(Case("SheppardPSF itself", whole, cls="SheppardPSF", size=4, nz=5, who="model", res=F(3, 20), zres=F(1, 5), **k))
    for kind in ("widefield", "confocal"):
        out.append(Case("%s itself" % kind, whole, cls="hanser", size=2, nz=2, who=kind, **k))
    return [c for c in out if c]
