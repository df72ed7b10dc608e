"""The plot methods of a retrieval's result and of its Zernike decomposition executed on symbolic pupils, histories and
coefficients; what reaches the axes is compared, panel by panel, with the result's own quantities under their names."""
import itertools
from fractions import Fraction as F

import numpy as np

from sx import num as N
from sx import optics as O
from sx import shims
from sx.harness import Case
from sx.oracle import amap, obj

BOUNDS = ("pupils up to 3x3 with every magnitude (zeros anywhere) and phase; histories of 1 to 4 iterations; 1 to 20 modes with every coefficient; "
          "slices with bounds -2..3 and steps 1, -1 of 3 modes; axes given by the caller and not")
ASSUMES = ["matplotlib draws what its stand-in records (the panels are read back from the real figures at concrete points)"]

# Noll's index -> classical name
NAMES = {1: "piston", 2: "tip", 3: "tilt", 4: "defocus", 5: "oblique astigmatism", 6: "vertical astigmatism", 7: "vertical coma", 8: "horizontal coma",
         9: "vertical trefoil", 10: "oblique trefoil", 11: "primary spherical", 12: "vertical secondary astigmatism", 13: "oblique secondary astigmatism",
         14: "vertical quadrafoil", 15: "oblique quadrafoil"}


def close(B):
    if not B.sym:
        import matplotlib.pyplot as plt
        plt.close("all")


def image(B, ax):
    """Data and mask of the only image of some axes."""
    ims = list(ax.get_images())
    B.same(len(ims), 1, "one image")
    im = ims[0]
    if B.sym:
        return im.data, im.mask
    a = im.get_array()
    return np.ma.getdata(a), np.ma.getmaskarray(a)


def pupil(B, axs, mag, phase, given=None):
    ax_phase, ax_mag = axs
    if given:
        B.claim(ax_phase is given[0] and ax_mag is given[1], "drawn in the axes given")
    B.same(ax_phase.get_title(), "Pupil Phase", "title of the phase")
    B.same(ax_mag.get_title(), "Pupil Magnitude", "title of the magnitude")
    d, mask = image(B, ax_phase)
    o = obj(mag)
    full = amap(B, o.shape, lambda *q: False) if mask is None else mask
    B.same(tuple(full.shape), o.shape, "shape of the mask")
    m, x, p = obj(full), obj(d), obj(phase)
    B.same(x.shape, p.shape, "shape of the phase")
    for q in np.ndindex(*o.shape):
        if B.sym:
            z, h = N.lift(o[q]) == 0, m[q]
            B.claim(N.b_or(N.b_and(z, h), N.b_and(N.b_not(z), N.b_not(h))), "the phase is hidden exactly where the magnitude is 0")
            B.eq(N.where(z, 0, x[q]), N.where(z, 0, p[q]), "phase", out=False)
        else:
            B.claim(bool(m[q]) == (o[q] == 0), "the phase is hidden exactly where the magnitude is 0")
            if o[q] != 0:
                B.eq(x[q], p[q], "phase", out=False)
    d, mask = image(B, ax_mag)
    B.eq(d, mag, "magnitude", out=False)
    if mask is not None:
        B.claim(not any(bool(v) for v in obj(mask).flat), "no magnitude is hidden")


def axes(B):
    plt = shims.SHIMS["matplotlib.pyplot"] if B.sym else __import__("matplotlib.pyplot", fromlist=["x"])
    return list(plt.subplots(1, 2)[1])


def result(B, n, mag, phase, hist=None):
    model = B.m.otf.HanserPSF(wl=0.5, na=1.0, ni=1.5, res=0.2, size=n, zres=0.3, zsize=1)
    h = hist or [B.arr([0.5])] * 3
    return B.m.phaseretrieval.PhaseRetrievalResult(mag, phase, mse=h[0], mse_diff=h[1], pupil_diff=h[2], model=model)


def plots(B, n):
    mag, ph = B.array("m", (n, n), lo=0, hi=2), B.array("p", (n, n))
    # (concrete points seldom have zeros)
    if B.choice("holes", (False, True)):
        x = obj(mag)
        mag = amap(B, (n, n), lambda i, j: 0 if (i + 2 * j) % 3 == 0 else x[i, j])
    m0, p0 = mag.copy(), ph.copy()
    given = axes(B) if B.choice("given", (False, True)) else None
    r = result(B, n, mag, ph)
    fig, axs = r.plot() if given is None else r.plot(given)
    pupil(B, axs, m0, p0, given)
    B.eq(r.mag, m0, "magnitude afterwards")
    B.eq(r.phase, p0, "phase afterwards")
    close(B)


def decomposed(B, n, step):
    mc, pc = B.array("a", (n,)), B.array("b", (n,))
    z = B.array("z", (n, 2, 2))
    d = B.m.phaseretrieval.ZernikeDecomposition(mc, pc, z)
    o, a, b = obj(z), obj(mc), obj(pc)
    opts = (None, -2, 0, 1, 3)
    s = slice(B.choice("start", opts), B.choice("stop", opts), step)
    t = slice(1, None)

    def comb(c, sl):
        ks = list(range(n))[sl]
        return amap(B, (2, 2), lambda i, j: sum((c[k] * o[k, i, j] for k in ks), 0 * c[0]))
    every = slice(None)
    given = axes(B) if B.choice("given", (False, True)) else None
    k = {} if given is None else dict(axs=given)
    for kw, sm, sp in ((dict(), every, every), (dict(smag=s), s, every), (dict(sphase=s), every, s), (dict(smag=t, sphase=s), t, s)):
        fig, axs = d.plot(**kw, **(dict(axs=axes(B)) if given else {}))
        pupil(B, axs, comb(a, sm), comb(b, sp))
    close(B)


def series(B, ax, want, label):
    ls = ax.lines
    B.same(len(ls), 1, "one curve of " + label)
    x, y = (ls[0].x, ls[0].y) if B.sym else (np.asarray(ls[0].get_xdata(), float), np.asarray(ls[0].get_ydata(), float))
    B.eq(y, want, label)
    n = obj(want).shape[0]
    d = obj(x)
    B.same(d.shape, (n,), "abscissae of " + label)
    for i in range(n):
        B.same(float(d[i]), float(d[0] + i), "one iteration after the other, " + label)


def convergence(B, n):
    h = [B.array(k, (n,), lo=0, hi=3) for k in "abc"]
    keep = [x.copy() for x in h]
    r = result(B, 2, B.array("m", (2, 2)), B.array("p", (2, 2)), h)
    fig, axs = r.plot_convergence()
    axs = list(axs)
    B.same(len(axs), 3, "three panels")
    want = {"Mean Squared Error": 0, "Relative Change in MSE": 1, "Relative Change in Pupil": 2}
    B.same(sorted(a.get_title() for a in axs), sorted(want), "titles")
    for a in axs:
        i = want.get(a.get_title())
        if i is not None:
            series(B, a, keep[i], a.get_title())
    for x, y, k in zip((r.mse, r.mse_diff, r.pupil_diff), keep, "abc"):
        B.eq(x, y, "history " + k, out=False)
    close(B)


def bars(B, ax, want, label):
    """Exactly one bar of each height at its place."""
    ps = ax.bars if B.sym else ax.patches
    at = []
    for p in ps:
        x, h, b = (p.x, p.height, p.bottom) if B.sym else (p.get_x() + p.get_width() / 2, p.get_height(), p.get_y())
        if not B.sym and h < 0:
            b, h = p.get_y(), p.get_height()
        at.append((float(x), h, b))
    B.same(sorted(round(x, 6) for x, _, _ in at), sorted(float(j) for j in want), "places of the bars of " + label)
    for x, h, b in at:
        j = round(x)
        if j in want:
            B.eq(h, want[j], "bar %d of %s" % (j, label), out=False)
            B.eq(b, 0, "foot of bar %d of %s" % (j, label), out=False)


def coefs(B, n):
    mc, pc = B.array("a", (n,), lo=-3, hi=3), B.array("b", (n,), lo=-3, hi=3)
    m0, p0 = mc.copy(), pc.copy()
    z = B.arr(np.ones((n, 1, 1)).tolist())
    d = B.m.phaseretrieval.ZernikeDecomposition(mc, pc, z)
    if B.choice("which", ("all", "named")) == "all":
        fig, axs = d.plot_coefs()
        axs = list(axs)
        B.same(sorted(a.get_title() for a in axs), ["Magnitude Coefficients", "Phase Coefficients"], "titles")
        for a in axs:
            c = m0 if "Mag" in a.get_title() else p0
            bars(B, a, {j + 1: obj(c)[j] for j in range(n)}, a.get_title())
    else:
        fig, ax = d.plot_named_coefs()
        bars(B, ax, {j: obj(p0)[j - 1] for j in range(5, min(n, 15) + 1)}, "named coefficients")
        if not B.sym:
            fig.canvas.draw()
        got = [t.get_text() for t in ax.get_xticklabels()]
        ticks = [float(t) for t in ax.get_xticks()]
        if n > 4:
            B.same([(round(t, 6), g.lower()) for t, g in zip(ticks, got)], [(float(j), NAMES[j]) for j in range(5, min(n, 15) + 1)], "names of the bars")
    B.eq(d.mcoefs, m0, "magnitude coefficients afterwards")
    B.eq(d.pcoefs, p0, "phase coefficients afterwards")
    close(B)


def cases(tier):
    big = tier == "thorough"
    k = dict(qtimeout=2000, budget=120)
    out = [Case("pupil %dx%d" % (n, n), plots, n=n, **k) for n in ((1, 2, 3, 4) if big else (1, 2, 3))]
    out += [Case("decomposition, step %s" % s, decomposed, n=3, step=s, **k) for s in (None, -1)]
    out += [Case("convergence of %d iterations" % n, convergence, n=n, **k) for n in range(1, 9 if big else 5)]
    out += [Case("%d coefficients" % n, coefs, n=n, **k) for n in ((1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 14, 15, 16, 20) + ((36, 66, 120) if big else ()))]
    return out
