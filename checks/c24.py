"""Display extents on symbolic lengths and pitches; psf_plot and otf_plot run on symbolic images (matplotlib
replaced by a recorder when symbolic, real matplotlib on replay), each panel compared with the projection it names."""
import numpy as np

from sx import optics as P
from sx.harness import Case
from sx.oracle import amap, obj

BOUNDS = ("max_min, fft_max_min: every length 1..10**6 and every positive pitch; z_squeeze: all positive indices and NA up to 10; "
          "plots: stacks up to 4x3x5, all non-negative intensities, all pitches, na, ni and wl")


def extents(B, form):
    n = B.int("n", 1, 10 ** 6)
    d = B.real("d", pos=True, sample=(0.01, 3))
    if form == "max_min":
        r = B.m.display.max_min(n, d)
        B.same(len(r), 2, "two values")
        B.eq(r[1] - r[0], (n - 1) * d, "hi - lo")
        B.eq(r[0] + (n // 2) * d, 0, "zero on sample n//2", scale=n * d if not B.sym else None)
    else:
        r = B.m.display.fft_max_min(n, d)
        B.same(len(r), 2, "two values")
        B.eq(r[0] * (n * d), -(n // 2), "smallest DFT frequency")
        B.eq(r[1] * (n * d), (n - 1) // 2, "largest DFT frequency")


def squeeze(B):
    n1, n2, na = (B.real(k, pos=True, hi=10, sample=(0.2, 2)) for k in ("n1", "n2", "na"))
    r = B.m.display.z_squeeze(n1, n2, na)

    def f(n):
        v = n * n - na * na
        return n - (P.sqrt(B, v) if v > 0 else 0)

    if n1 == n2:
        B.eq(r, 1, "equal indices")
    else:
        B.eq(r, f(n1) / f(n2), "ratio")


def equal(B):
    n, na = (B.real(k, pos=True, hi=10, sample=(0.2, 2)) for k in ("n", "na"))
    B.eq(B.m.display.z_squeeze(n, n, na), 1, "equal indices")


def panel(B, ax):
    ims = ax.get_images()
    if len(ims) != 1:
        return None
    im = ims[0]
    if B.sym:
        return im.data, im.extent
    return np.asarray(im.get_array()), im.get_extent()


def check(B, grid, x, ranges, proj):
    found = {}
    for k in range(4):
        t = grid[k].get_title()
        for name in ("XY", "YZ", "XZ"):
            if name in t:
                B.claim(name not in found, "one panel called " + name)
                found[name] = grid[k]
    ax = {"Z": 0, "Y": 1, "X": 2}
    a = obj(x)
    for name in ("XY", "YZ", "XZ"):
        B.claim(name in found, "a panel called " + name)
        if name not in found:
            continue
        p = panel(B, found[name])
        B.claim(p is not None, "one image in " + name)
        if p is None:
            continue
        data, ext = p
        u, v = sorted((ax[c] for c in name))
        other = 3 - u - v
        # orientation: rows along one of the two axes
        if a.shape[u] == a.shape[v]:
            rows, cols = {"XY": (1, 2), "YZ": (1, 0), "XZ": (0, 2)}[name]
        elif tuple(data.shape) == (a.shape[u], a.shape[v]):
            rows, cols = u, v
        else:
            rows, cols = v, u

        def at(r, c):
            def idx(k):
                i = [0, 0, 0]
                i[rows], i[cols], i[other] = r, c, k
                return a[tuple(i)]
            if proj == "slice":
                return idx(a.shape[other] // 2)
            m = idx(0)
            for k in range(1, a.shape[other]):
                m = B.np.maximum(m, idx(k))
            return m

        B.eq(data, amap(B, (a.shape[rows], a.shape[cols]), at), "image " + name)
        B.same(len(ext), 4, "extent of " + name)
        want = tuple(ranges[cols]) + tuple(ranges[rows])
        for k in range(4):
            B.eq(ext[k], want[k], "extent %d of %s" % (k, name), scale=1)


def close(B):
    if not B.sym:
        import matplotlib.pyplot as plt
        plt.close("all")


def psf(B, shape, how):
    x = B.array("x", shape, "f", nonneg=True)
    x0 = x.copy()
    zres, res = B.real("zres", pos=True, sample=(0.05, 2)), B.real("res", pos=True, sample=(0.05, 2))
    kw = {} if how == "default" else {"mip": how == "mip"}
    fig, grid = B.m.display.psf_plot(x, zres=zres, res=res, **kw)
    r = [(-(n // 2) * d, ((n - 1) // 2) * d) for n, d in zip(shape, (zres, res, res))]
    check(B, grid, x0, r, "slice" if how == "slice" else "max")
    close(B)


def otf(B, shape):
    x = B.array("x", shape, "f", pos=True)
    x0 = x.copy()
    zres, res = B.real("zres", pos=True, sample=(0.05, 2)), B.real("res", pos=True, sample=(0.05, 2))
    na, ni, wl = (B.real(k, pos=True, sample=(0.4, 1.5)) for k in ("na", "ni", "wl"))
    fig, grid = B.m.display.otf_plot(x, na=na, ni=ni, wl=wl, zres=zres, res=res)
    r = [(-(n // 2) / (d * n), ((n - 1) // 2) / (d * n)) for n, d in zip(shape, (zres, res, res))]
    check(B, grid, x0, r, "slice")
    close(B)


def cases(tier):
    big = tier == "thorough"
    out = [Case("max_min", extents, form="max_min"), Case("fft_max_min", extents, form="fft"),
           Case("z_squeeze", squeeze, split=True), Case("z_squeeze equal", equal, split=True)]
    for s in ((3, 2, 4), (2, 4, 3), (4, 3, 5), (3, 3, 3), (2, 4, 4), (1, 3, 2)) + (((5, 6, 7), (6, 4, 5)) if big else ()):
        for how in ("default", "mip", "slice"):
            out.append(Case("psf_plot %dx%dx%d %s" % (s + (how,)), psf, shape=s, how=how, weight=5))
    for s in ((3, 4, 4), (4, 3, 3), (2, 5, 5), (3, 3, 3), (1, 2, 2)) + (((6, 7, 7),) if big else ()):
        out.append(Case("otf_plot %dx%dx%d" % s, otf, split=True, shape=s, weight=5))
    return out
