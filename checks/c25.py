"""Every public call on symbolic arguments, its branches decided by the solver; every array, list, dict and model passed is
compared, entry by entry, with a copy made before the call."""
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import amap, obj
from checks import scope as S
from checks.c17 import build as pr_build, samples as pr_samples

BOUNDS = ("arrays of up to 4x4 samples or 2x3x3 voxels of float, complex and integer types, contiguous and as a strided view; every value; Hanser and Sheppard models of sizes 1 to 4; "
          "1 retrieval update; each call made twice")


class Guard:
    """Copies of the arguments."""

    def __init__(self, B):
        self.B, self.kept = B, []

    def __call__(self, x, name="argument"):
        self.kept.append((name, x, self.copy(x)))
        return x

    def copy(self, x):
        if isinstance(x, (list, tuple)):
            return type(x)(self.copy(v) for v in x)
        if isinstance(x, dict):
            return {k: self.copy(v) for k, v in x.items()}
        return x.copy() if self.isarr(x) else x

    def isarr(self, x):
        return hasattr(x, "shape") and hasattr(x, "copy") and not isinstance(x, np.generic)

    def compare(self, a, b, name):
        B = self.B
        if isinstance(b, (list, tuple)):
            B.same(type(a), type(b), "type of " + name)
            B.same(len(a), len(b), "length of " + name)
            for k, (x, y) in enumerate(zip(a, b)):
                self.compare(x, y, name)
        elif isinstance(b, dict):
            B.same(list(a), list(b), "keys of " + name)
            for k in b:
                if k in a:
                    self.compare(a[k], b[k], "%s[%r]" % (name, k))
        elif self.isarr(b):
            B.same(tuple(a.shape), tuple(b.shape), "shape of " + name)
            B.same(str(a.dtype), str(b.dtype), "type of " + name)
            if tuple(a.shape) == tuple(b.shape):
                B.eq(a, b, name + " unchanged", tol=1e-300 if not B.sym else None, out=False)
        elif b is None or isinstance(b, (str, bool)):
            B.same(a, b, name + " unchanged")
        else:
            B.eq(a, b, name + " unchanged", tol=1e-300 if not B.sym else None, out=False)

    def check(self, label=""):
        for name, x, c in self.kept:
            self.compare(x, c, name + label)


def twice(B, g, fn):
    """fn() twice; same result, arguments intact."""
    a = fn()
    g.check()
    first = [v.copy() if hasattr(v, "copy") else v for v in (a if isinstance(a, tuple) else (a,))]
    b = fn()
    g.check(" after another call")
    for u, v in zip(first, b if isinstance(b, tuple) else (b,)):
        if isinstance(u, slice):
            B.same(u, v, "result again")
        else:
            B.eq(u, v, "result again", out=False)


def data(B, shape, kind, layout="plain", nonneg=False):
    if kind == "i":
        x = B.array("x", shape, "i", lo=0 if nonneg else -50, hi=50 if not nonneg else 4)
    else:
        x = B.array("x", shape, kind, nonneg=nonneg)
    if layout == "view":
        # every other sample of a larger array
        big = B.arr(np.zeros(tuple(2 * n for n in shape)).tolist(), complex if kind == "c" else int if kind == "i" else float)
        sl = tuple(slice(0, None, 2) for n in shape)
        big[sl] = x
        return big[sl]
    return x


def helper(B, what, shape, kind, layout="plain", nonneg=False, args=(), **kw):
    g = Guard(B)
    x = g(data(B, shape, kind, layout, nonneg), "array")
    f = getattr(B.m.utils, what)
    args = tuple(g(list(a) if isinstance(a, list) else B.arr(a.tolist()) if isinstance(a, np.ndarray) else a, "setting") for a in args)
    kw = {k: g(B.arr(v.tolist()) if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v, k) for k, v in kw.items()}
    twice(B, g, lambda: f(x, *args, **kw))


def polar(B, shape, kind):
    g = Guard(B)
    y, x = g(B.array("y", shape, kind, **({"lo": -9, "hi": 9} if kind == "i" else {}))), g(B.array("x", shape, kind, **({"lo": -9, "hi": 9} if kind == "i" else {})))
    twice(B, g, lambda: B.m.utils.cart2pol(y, x))


def slices(B, form, kind):
    g = Guard(B)
    if kind == "i":
        xs, ws = [B.int("x%d" % k, -5, 9) for k in range(2)], [B.int("w%d" % k, 0, 6) for k in range(2)]
    else:
        xs, ws = [B.real("x%d" % k, lo=-5, hi=9) for k in range(2)], [B.real("w%d" % k, lo=0, hi=6) for k in range(2)]
        for v in xs + ws:
            # away from the ties of rounding
            r = v - B.np.rint(v)
            B.assume((abs(r) < F(49, 100)) if B.sym else abs(r) < 0.49)
    mk = {"list": list, "tuple": tuple, "array": B.arr}[form]
    xs, ws = g(mk(xs), "centre"), g(mk(ws), "widths")
    B.m.utils.slice_maker(xs, ws)
    g.check()
    B.m.utils.slice_maker(xs, ws)
    g.check(" after another call")


def zern(B, shape, kind, orders, norm):
    g = Guard(B)
    r = g(B.array("r", shape, "i", lo=0, hi=3) if kind == "i" else B.array("r", shape, nonneg=True), "r")
    t = g(B.array("t", shape), "theta")
    js = {"array": (B.arr([1, 4, 6, 8]),), "list": ([2, 5, 11],), "nm": (B.arr([2, 3, 3]), B.arr([-2, 1, -3])), "pair": (B.arr([[2, 3], [0, 1]]),), "lists": ([2, 3], [0, -1]), "one": (7,)}[orders]
    js = tuple(g(j, "orders") for j in js)
    twice(B, g, lambda: B.m.zernike.zernike(r, t, *js, norm=norm))


def indices(B, form):
    g = Guard(B)
    z = B.m.zernike
    mk = {"array": B.arr, "list": list}[form]
    n, m = g(mk([0, 4, 3]), "n"), g(mk([0, -2, 1]), "m")
    j = g(mk([1, 7, 120]), "noll")
    twice(B, g, lambda: z.degrees2noll(n, m))
    twice(B, g, lambda: z.noll2degrees(j))
    v = g(B.array("j", (1,), "i", lo=1, hi=20), "noll")
    twice(B, g, lambda: z.noll2degrees(v))


def hanser(B, size, nz, zrange=None, vec="none", cond="sine", cls="HanserPSF", **kw):
    a = dict(wl=B.const(F(1, 2)), na=B.const(F(9, 10)), ni=B.const(F(3, 2)), res=B.const(F(1, 5)), size=size, zres=B.const(F(1, 4)), zsize=nz, vec_corr=vec, condition=cond)
    if zrange is not None:
        a["zrange"] = zrange
    a.update(kw)
    return getattr(B.m.otf, cls)(**a)


ATTR = ("OTFa", "PSFa", "PSFi", "OTFi")


def planes(B, form, where, size=2):
    """zrange, through the constructor and by assignment."""
    g = Guard(B)
    if form == "0-d":
        z = g(B.array("z", ()), "zrange")
    elif form == "ints":
        z = g(B.array("z", (2,), "i", lo=-3, hi=3), "zrange")
    elif form == "view":
        z = g(B.array("z", (4,))[::2], "zrange")
    else:
        z = [B.real("z%d" % k, sample=(-1, 1)) for k in range(2)]
        z = g(B.arr(z) if form == "array" else tuple(z) if form == "tuple" else z, "zrange")
    m = hanser(B, size, 2, z if where == "constructor" else None)
    if where == "setter":
        m.zrange = z
    for a in B.choice("order", (ATTR, ATTR[::-1])):
        first = getattr(m, a).copy()
        g.check(" after " + a)
        B.eq(getattr(m, a), first, a + " again", out=False)
    m.res = B.const(F(11, 50))
    m.PSFi
    g.check(" after more")


def pupil(B, size, vec, cond, kind="c"):
    g = Guard(B)
    p = g(B.array("p", (size, size), kind), "pupil")
    m = hanser(B, size, 1, [0.3], vec, cond)
    if B.choice("read before", (True, False)):
        m.PSFi
    m.apply_pupil(p)
    g.check(" when applied")
    for a in ATTR:
        getattr(m, a)
        g.check(" after " + a)
    m.apply_pupil(p)
    m.PSFi
    g.check(" applied again")


PARAMS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition", "zrange")


class Model:
    """What a model shows."""

    def __init__(self, B, m, attrs=ATTR):
        self.B, self.m = B, m
        self.g = Guard(B)
        self.params = {k: self.g.copy(getattr(m, k)) for k in PARAMS if hasattr(m, k)}
        self.cls = type(m)

    def remember(self, attrs=ATTR):
        self.seen = {a: getattr(self.m, a).copy() for a in attrs}

    def check(self, label):
        B = self.B
        B.claim(type(self.m) is self.cls, "class")
        for k, v in self.params.items():
            self.g.compare(getattr(self.m, k), v, "model's %s %s" % (k, label))
        for a, v in self.seen.items():
            B.eq(getattr(self.m, a), v, "model's %s %s" % (a, label), tol=1e-300 if not B.sym else None, out=False)


def fresh_like(B, size, nz, aberr, vec="none"):
    m = hanser(B, size, nz, [0.3] if nz == 1 else [0.3, -0.2], vec)
    if aberr:
        m.apply_pupil(B.arr([[1.5 if (i + j) % 3 == 0 else 0.5 + 0.25j for j in range(size)] for i in range(size)], complex))
    return m


def aberrate(B, size, nz, aberr, read, which, nc=4):
    """The model passed keeps its parameters and arrays, whether they were read before or not."""
    g = Guard(B)
    m = fresh_like(B, size, nz, aberr)
    ref = fresh_like(B, size, nz, aberr)
    w = Model(B, m)
    w.seen = {a: getattr(ref, a).copy() for a in ATTR}
    for a in read:
        getattr(m, a)
    mc = g(B.array("mc", (nc,)), "magnitude coefficients") if which != "phase" else None
    pc = g(B.array("pc", (nc,)), "phase coefficients") if which != "magnitude" else None
    out = B.m.otf.apply_aberration(m, mc, pc)
    g.check()
    B.claim(out is not m, "another model is returned")
    first = {a: getattr(out, a).copy() for a in ATTR}
    g.check(" after reading the result")
    w.check("after reading the result")
    # changing the result's settings leaves the model alone
    out.wl = B.const(F(3, 5))
    out.zrange = [0.1]
    out.PSFi
    w.check("after changing the result")
    out = B.m.otf.apply_aberration(m, mc, pc)
    for a in ATTR:
        B.eq(getattr(out, a), first[a], a + " again", out=False)


def named(B, size, form, aberr):
    g = Guard(B)
    m = fresh_like(B, size, 1, aberr)
    ref = fresh_like(B, size, 1, aberr)
    w = Model(B, m)
    w.seen = {a: getattr(ref, a).copy() for a in ATTR}
    if B.choice("read before", (True, False)):
        m.PSFi
    o = B.m.otf
    a, b = B.real("a"), B.real("b")
    if form == "dict":
        d = g({"defocus": a, "vertical coma": b}, "aberrations")
        out = o.apply_named_aberrations(m, d)
    elif form == "empty":
        d = g({}, "aberrations")
        out = o.apply_named_aberrations(m, d)
    elif form == "none":
        out = o.apply_aberration(m, None, None)
    else:
        out = o.apply_named_aberration(m, "tip", a)
    g.check()
    out.PSFi
    out.zrange = [0.1]
    out.PSFi
    g.check()
    w.check("after reading the result")


def retrieve(B, ap, phase_only, kind, nz=1, view=False):
    g = Guard(B)
    p, params, zs = pr_build(B, 3, nz, ap, "zrange")
    if kind == "any":
        x, _ = pr_samples(B, nz, 3, [(0, 1, 2), (0, 0, 0)], "any")
    else:
        x, _ = pr_samples(B, nz, 3, [(0, 1, 2)], "square")
    if view:
        big = B.arr(np.zeros((nz, 3, 6)).tolist(), float)
        big[:, :, ::2] = x
        x = big[:, :, ::2]
    g(x, "data")
    params.update(vec_corr="total", condition="herschel", size=9, zsize=4)
    g(params, "params")
    r = B.m.phaseretrieval.retrieve_phase(x, params, max_iters=1, pupil_tol=-1, mse_tol=-1, phase_only=phase_only)
    g.check()
    kept = {k: getattr(r, k).copy() for k in ("mag", "phase", "mse", "pupil_diff", "mse_diff", "r", "theta")}
    zr = g(B.arr([0.1, 0.2]), "zrange")
    r.generate_psf(**B.choice("drawn", (dict(size=5), dict(size=2, zsize=2), dict(zrange=zr))))
    r.complex_pupil
    g.check(" after generate_psf")
    B.claim(set(params) == set(g.kept[1][2]), "keys of params")
    for k, v in kept.items():
        B.eq(getattr(r, k), v, "result's %s after generate_psf" % k, out=False)


def fit(B, ap, num):
    """Fitting and drawing from the fit leave the result and the fit alone."""
    g = Guard(B)
    model = hanser(B, 3, 1, [0.3], "none", "none", na=B.const({5: F(1), 9: F(6, 5)}[ap]))
    mag, phase = B.array("m", (3, 3), nonneg=True), B.array("p", (3, 3))
    g(mag, "mag"), g(phase, "phase")
    h = [g(B.array(k, (2,)), k) for k in ("mse", "pd", "md")]
    w = Model(B, model)
    w.remember()
    r = B.m.phaseretrieval.PhaseRetrievalResult(mag, phase, *h, model)
    g.check()
    z = r.fit_to_zernikes(num)
    g.check(" after the fit")
    kept = {k: getattr(z, k).copy() for k in ("mcoefs", "pcoefs", "zerns")}
    z.phase(slice(1, None)), z.mag(slice(None, 2)), z.complex_pupil(slice(None), slice(1, None))
    sl = g(B.choice("slice", ([0, 1], [1])), "slice")
    z.phase(sl)
    r.generate_psf(zsize=2)
    if B.choice("draw", (True, False)):
        r.generate_zd_psf(sphase=slice(1, None), size=4, zrange=[0.2])
    for k, v in kept.items():
        B.eq(getattr(z, k), v, k + " after drawing", out=False)
    g.check(" after drawing")
    w.check("after drawing")


def decomposition(B):
    g = Guard(B)
    a = [g(B.array(k, s), k) for k, s in (("mc", (3,)), ("pc", (3,)), ("zz", (3, 2, 2)))]
    z = B.m.phaseretrieval.ZernikeDecomposition(*a)
    for s in (slice(None), slice(1, None), slice(0, 0)):
        first = [z.mag(s).copy(), z.phase(s).copy(), z.complex_pupil(s, s).copy()]
        g.check()
        for u, v in zip(first, (z.mag(s), z.phase(s), z.complex_pupil(s, s))):
            B.eq(u, v, "again", out=False)
    g.check()


def scope(B, kind, f, size, nz, real, **kw):
    """A microscope reading its model, free or real."""
    g = Guard(B)
    o = kw.pop("orientations", None)
    if o is not None:
        v = [B.real("phi%d" % k, sample=(-3, 3)) for k in range(o[1])]
        kw["orientations"] = g(v if o[0] == "list" else B.arr(v), "orientations")
    m = S.make(B, kind, size, f, zsize=nz, zres=0.3, **kw)
    n = size * f
    if real:
        before = {a: getattr(m.model, a).copy() for a in ("PSFi", "OTFi")}
        ps = {k: g.copy(getattr(m.model, k)) for k in PARAMS if hasattr(m.model, k)}
    else:
        x = B.array("I", (nz, n, n), pos=True) if kind != "apotome" else B.array("I", (nz, n, n), lo=F(1, 10), hi=2)
        x0 = x.copy()
        s = S.stub(B, m.model, x)
        # hand out the array itself, and always the same transform
        t = B.m.utils.easy_fft(x)
        t0 = t.copy()
        type(s).PSFi = property(lambda self: x)
        type(s).OTFi = property(lambda self: t)
        m.model = s
        if kind == "confocal":
            y = B.array("J", (nz, n, n), pos=True)
            y0 = y.copy()
            e = S.stub(B, m.model_exc, y)
            type(e).PSFi = property(lambda self: y)
            m.model_exc = e
    pp = dict(m.psf_params)
    a, b = B.choice("order", (("PSF", "OTF"), ("OTF", "PSF")))
    first = getattr(m, a).copy()
    getattr(m, b)
    B.eq(getattr(m, a), first, a + " again", out=False)
    m.model_psf
    B.eq(getattr(m, a), first, a + " after model_psf", out=False)
    B.same(list(m.psf_params), list(pp), "parameters")
    for k, v in pp.items():
        g.compare(m.psf_params[k], v, "parameter " + k)
    if real:
        for k, v in before.items():
            B.eq(getattr(m.model, k), v, "model's " + k, out=False)
        for k, v in ps.items():
            g.compare(getattr(m.model, k), v, "model's " + k)
    else:
        B.eq(x, x0, "model's PSFi", out=False, tol=1e-300 if not B.sym else None)
        B.eq(t, t0, "model's OTFi", out=False, tol=1e-300 if not B.sym else None)
        if kind == "confocal":
            B.eq(y, y0, "excitation model's PSFi", out=False, tol=1e-300 if not B.sym else None)
    g.check()


def plots(B, what, shape):
    g = Guard(B)
    x = g(B.array("x", shape, nonneg=what == "psf", pos=what == "otf"), "image")
    res = B.real("res", pos=True, sample=(0.05, 2))
    kw = g(dict(vmin=0.01, vmax=1.0, cmap="gray"), "keywords")
    if what == "psf":
        B.m.display.psf_plot(x, zres=res, res=res, mip=B.choice("mip", (True, False)), **kw)
    else:
        B.m.display.otf_plot(x, na=0.9, ni=1.5, wl=0.5, zres=res, res=res, **kw)
    g.check()
    if not B.sym:
        import matplotlib.pyplot as plt
        plt.close("all")


def cases(tier):
    big = tier == "thorough"
    out = []
    n = [0]

    def h(name, shape, kind, *args, split=False, **kw):
        n[0] += 1
        lay = kw.pop("layout", "plain")
        out.append(Case("%s %s %s %s #%d" % (name, "x".join(map(str, shape)), kind, lay, n[0]), helper, split=split, shape=shape, kind=kind, layout=lay, args=args, **kw))
        out[-1].kw["what"] = name

    for k in "fci":
        for s in ((3,), (4, 4), (3, 2), (2, 3, 3)):
            h("easy_fft", s, k)
            h("easy_ifft", s, k)
        h("easy_fft", (4, 3), k, axes=[1])
        h("easy_ifft", (4, 3), k, axes=(0,))
        h("easy_fft", (4, 3), k, layout="view")
        h("fft_pad", (3, 3), k, [4, 5], mode="constant")
        h("fft_pad", (4, 3), k, 4, mode="constant")
        h("fft_pad", (4, 4), k, (2, 6), mode="edge")
        h("fft_pad", (3, 4), k, np.array([3, 4]), mode="constant")
        h("fft_pad", (3, 4), k, [2, 3], mode="constant", layout="view")
        h("bin_ndarray", (4, 4), k, [2, 2])
        h("bin_ndarray", (4, 4), k, [4, 4])
        h("bin_ndarray", (3, 4), k, bin_size=[1, 1])
        h("bin_ndarray", (5, 4), k, bin_size=2, operation="mean")
        h("bin_ndarray", (5, 4), k, bin_size=np.array([2, 3]), layout="view")
        h("radial_profile", (3, 4), k)
        h("radial_profile", (3, 4), k, [1, 1], 2)
        h("radial_profile", (3, 3), k, np.array([1, 2]))
        h("radial_profile", (3, 3), k, np.array([0.5, 1.25]), 1.5, layout="view")
    h("fft_pad", (3,), "f", 5, split=True)
    for k in "fi":
        h("psqrt", (2,), k, split=True)
        h("psqrt", (2, 2), k, split=True)
        h("center_data", (3,), k, split=True)
        h("center_data", (2, 2), k, split=True)
        h("center_data", (2, 2), k, split=True, layout="view")
        h("center_data", (1, 1), k, split=True)
    h("remove_bg", (3,), "i", split=True, nonneg=True)
    h("remove_bg", (2, 2), "i", 0, split=True, nonneg=True, layout="view")
    h("prep_data_for_PR", (1, 2, 2), "i", split=True, nonneg=True)
    h("prep_data_for_PR", (1, 2, 2), "i", 2, 0, split=True, nonneg=True, layout="view")
    h("prep_data_for_PR", (1, 2, 1), "i", split=True, nonneg=True)
    h("prep_data_for_PR", (1, 1, 3), "i", 5, split=True, nonneg=True)
    h("prep_data_for_PR", (1, 2, 2), "i", 1, split=True, nonneg=True)
    h("prep_data_for_PR", (1, 3, 1), "i", 2, split=True, nonneg=True)
    for k in "fi":
        out.append(Case("cart2pol %s" % k, polar, shape=(2,) if k == "i" else (2, 2), kind=k))
        for form in ("list", "tuple", "array"):
            out.append(Case("slice_maker %s %s" % (form, k), slices, split=True, form=form, kind=k, weight=20))
    for o in ("array", "list", "nm", "pair", "lists", "one"):
        for norm in (True, False):
            out.append(Case("zernike %s norm %s" % (o, norm), zern, split=True, shape=(2,), kind="f", orders=o, norm=norm))
    out.append(Case("zernike 2x2", zern, split=True, shape=(2, 2), kind="f", orders="array", norm=True))
    out.append(Case("zernike 0-d", zern, split=True, shape=(), kind="f", orders="array", norm=True))
    out.append(Case("zernike integers", zern, split=True, shape=(2,), kind="i", orders="nm", norm=True))
    for form in ("array", "list"):
        out.append(Case("indices %s" % form, indices, form=form))
    for form in ("list", "tuple", "array", "view", "0-d", "ints"):
        for where in ("constructor", "setter"):
            out.append(Case("zrange %s %s" % (form, where), planes, form=form, where=where, size=3 if big else 2))
    for s, v, c in ((2, "none", "sine"), (3, "total", "herschel"), (1, "none", "none"), (3, "none", "none")) + (((4, "total", "sine"), (4, "z", "none")) if big else ()):
        for k in "cf":
            out.append(Case("apply_pupil %d %s/%s %s" % (s, v, c, k), pupil, size=s, vec=v, cond=c, kind=k, weight=10 * s))
    for s, nz in ((2, 2), (3, 1)):
        for ab in (False, True):
            for read in ((), ATTR, ("PSFi",)) if (s == 2) else ((), ATTR):
                for w in ("both", "phase", "magnitude"):
                    out.append(Case("apply_aberration %d read %d %s %s" % (s, len(read), w, ab), aberrate, size=s, nz=nz, aberr=ab, read=read, which=w, nc=4 if s == 2 else 3, weight=10))
    for form in ("dict", "empty", "none", "name"):
        for ab in (False, True):
            out.append(Case("named %s %s" % (form, ab), named, size=2, form=form, aberr=ab))
    for ap in (1, 5):
        for po in (False, True):
            out.append(Case("retrieve_phase %d %s" % (ap, po), retrieve, split=True, ap=ap, phase_only=po, kind="square", weight=30, budget=150, qtimeout=500))
    out.append(Case("retrieve_phase any sign", retrieve, split=True, ap=5, phase_only=False, kind="any", weight=60, budget=150, qtimeout=500))
    out.append(Case("retrieve_phase view", retrieve, split=True, ap=5, phase_only=False, kind="square", view=True, weight=40, budget=150, qtimeout=500))
    for ap, num in ((5, 3), (9, 4)):
        out.append(Case("fit %d %d" % (ap, num), fit, ap=ap, num=num, weight=10))
    out.append(Case("decomposition", decomposition))
    for f in (1, 3):
        out.append(Case("widefield %d" % f, scope, kind="widefield", f=f, size=2, nz=1, real=False))
        out.append(Case("widefield real %d" % f, scope, kind="widefield", f=f, size=2, nz=1, real=True))
        out.append(Case("confocal %d" % f, scope, kind="confocal", f=f, size=2, nz=1, real=False, wl_exc=0.45, pinhole_size=0.6))
        out.append(Case("confocal blurred %d" % f, scope, kind="confocal", f=f, size=3 if f == 1 else 2, nz=1, real=False, wl_exc=0.45, pinhole_size=1.5))
    out.append(Case("apotome", scope, split=True, kind="apotome", f=1, size=3, nz=1, real=False, budget=120, weight=20))
    for k in ("sim2d", "sim3d", "lattice"):
        for w in (None, "w"):
            for o in ("list", "array"):
                if k == "lattice" and o == "array":
                    continue
                kw = dict(na_exc=0.8, wl_exc=0.45, wiener=None, dc_suppress=False)
                if k != "lattice":
                    kw.update(orientations=(o, 2), dc_suppress=o == "list")
                if w:
                    kw["wiener"] = 0.1
                    out.append(Case("%s filtered real %s" % (k, o), scope, kind=k, f=1, size=2, nz=1, real=True, **kw))
                else:
                    out.append(Case("%s %s" % (k, o), scope, kind=k, f=1, size=2, nz=2, real=False, **kw))
    for what, s in (("psf", (1, 2, 2)), ("otf", (2, 2, 2))):
        out.append(Case("%s_plot" % what, plots, split=True, what=what, shape=s))
    return out
