"""Stand-ins for the other libraries the code under test imports (scipy, math, matplotlib,
mpl_toolkits, skimage).  Each states its contract; they are part of every claim."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import num as N
from . import snp
from .num import SNum, Unsupported, lift
from .snp import SymArray, NP, is_scalar

SHIMS = {}


def mod(name, **k):
    m = types.ModuleType(name)
    m.__path__ = []
    for a, b in k.items():
        setattr(m, a, b)
    SHIMS[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        if p in SHIMS:
            setattr(SHIMS[p], c, m)
    return m


# ---- numpy -------------------------------------------------------------------------------
SHIMS["numpy"] = NP
SHIMS["numpy.fft"] = snp.fft
SHIMS["numpy.linalg"] = snp.linalg
SHIMS["numpy.ma"] = snp._MaskedShim


def _generic(realmod, over):
    """Module whose unknown functions work on concrete data and refuse symbolic data."""

    class M(types.ModuleType):
        def __getattr__(self, n):
            r = getattr(realmod, n)
            if isinstance(r, type) or not callable(r):
                return r

            def f(*a, **k):
                if snp._concrete(a) and snp._concrete(list(k.values())):
                    return r(*a, **k)
                raise Unsupported("%s.%s is not modelled" % (realmod.__name__, n))

            f.__name__ = n
            return f

    m = M(realmod.__name__)
    m.__path__ = []
    for a, b in over.items():
        setattr(m, a, b)
    return m


# ---- math --------------------------------------------------------------------------------
def _m1(symf, realf):
    def f(x):
        if type(x) is SymArray:
            x = x.item()
        if type(x) is SNum or type(x) is N.SBool:
            return symf(lift(x))
        return realf(x)

    return f


def _mhyp(*xs):
    return N.sqrt(builtins.sum((lift(x) * lift(x) for x in xs), N.ZERO))


def _msqrt(x):
    r = N.sqrt(x)
    if r.t is None and x.t is not None:
        raise ValueError("math domain error")
    return r


def _mint(realf):
    """Functions of integers: a symbolic one is enumerated."""
    return lambda *a: realf(*[snp._int(x) if type(x) in (SNum, SymArray, N.SBool) else x for x in a])


SHIMS["math"] = _generic(math, dict(
    factorial=_mint(math.factorial), comb=_mint(math.comb), perm=_mint(math.perm), gcd=_mint(math.gcd), isqrt=_mint(math.isqrt),
    sqrt=_m1(_msqrt, math.sqrt), sin=_m1(N.sin, math.sin), cos=_m1(N.cos, math.cos), tan=_m1(N.tan, math.tan),
    asin=_m1(N.arcsin, math.asin), acos=_m1(N.arccos, math.acos), atan=_m1(N.arctan, math.atan),
    atan2=lambda y, x: N.arctan2(y, x), exp=_m1(N.exp, math.exp), floor=_m1(N.floor, math.floor),
    ceil=_m1(N.ceil, math.ceil), trunc=_m1(N.trunc, math.trunc), fabs=_m1(N.absolute, math.fabs),
    hypot=_mhyp, log=_m1(snp._log, math.log), log10=_m1(lambda x: snp._log(x) / snp._log(lift(10.0)), math.log10),
    pow=lambda a, b: N.power(lift(a), lift(b)), degrees=lambda x: lift(x) * (180 / math.pi),
    radians=lambda x: lift(x) * (math.pi / 180), isnan=_m1(lambda x: x.t is None, math.isnan),
    isfinite=_m1(lambda x: x.t is not None, math.isfinite), pi=math.pi, inf=math.inf, nan=math.nan,
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(N.absolute(lift(a) - lift(b)) <= snp.maximum(rel_tol * snp.maximum(N.absolute(lift(a)), N.absolute(lift(b))), abs_tol)),
))

# ---- scipy -------------------------------------------------------------------------------
import scipy
import scipy.fft
import scipy.fftpack
import scipy.linalg
import scipy.ndimage
import scipy.signal
import scipy.special


def _next_fast_len(target, real=False):
    n = snp._int(target)
    return scipy.fftpack.next_fast_len(n)


def _normalize_sequence(x, rank):
    """If x is a scalar, repeat it rank times; otherwise check the length."""
    if is_scalar(x) or (isinstance(x, SymArray) and x.ndim == 0):
        return [x] * rank
    if hasattr(x, "__iter__") and not isinstance(x, str):
        r = list(x)
        if len(r) != rank:
            raise RuntimeError("sequence argument must have length equal to input rank")
        return r
    return [x] * rank


def eval_jacobi(n, a, b, x):
    """Jacobi polynomial for integer n, a, b by its finite sum."""
    n, a, b = snp._int(n), snp._int(a), snp._int(b)
    if n < 0:
        raise Unsupported("Jacobi polynomial of negative degree")

    def f(x):
        x = lift(x)
        s, t = (x - 1) * Fraction(1, 2), (x + 1) * Fraction(1, 2)
        r = N.ZERO
        for k in range(n + 1):
            c = math.comb(n + a, n - k) * math.comb(n + b, k)
            r = r + c * N.power(s, lift(k)) * N.power(t, lift(n - k))
        return r.with_ty("f")

    x = snp._norm_arg(x)
    if is_scalar(x):
        return f(x)
    return snp._emap1(f, x, snp.F64)


def _binom(n, k, exact=False, repetition=False):
    v = math.comb(snp._int(n), snp._int(k)) if snp._int(k) >= 0 else 0
    return v if exact else lift(float(v)) if v < 2 ** 52 else lift(Fraction(v))


def _factorial(n, exact=False):
    if isinstance(n, SymArray):
        return snp.array([math.factorial(snp._int(v)) for v in n.a.flat]).reshape(n.shape)
    v = math.factorial(snp._int(n))
    return v if exact else lift(Fraction(v)).with_ty("f")


def _conv(a, b, mode="full", axes=None, **k):
    a, b = snp.asarray(a), snp.asarray(b)
    if a.ndim != b.ndim:
        raise ValueError("in1 and in2 should have the same dimensionality")
    nd = a.ndim
    axes = list(range(nd)) if axes is None else [snp._int(x) % nd for x in ([axes] if is_scalar(axes) else axes)]
    for i in range(nd):
        if i not in axes and a.shape[i] != b.shape[i] and a.shape[i] != 1 and b.shape[i] != 1:
            raise ValueError("incompatible shapes for in1 and in2: %s and %s" % (a.shape, b.shape))
    dt = np.result_type(a._dt, b._dt, snp.F64)
    oth = [i for i in range(nd) if i not in axes]
    shp = tuple(builtins.max(a.shape[i], b.shape[i]) if i in oth else a.shape[i] + b.shape[i] - 1 for i in range(nd))
    A = np.broadcast_to(a.a, [shp[i] if i in oth else a.shape[i] for i in range(nd)])
    B = np.broadcast_to(b.a, [shp[i] if i in oth else b.shape[i] for i in range(nd)])
    out = np.empty(shp, object)
    out.fill(N.ZERO)
    bnz = [(j, lift(B[j])) for j in np.ndindex(*B.shape)]
    for i in np.ndindex(*A.shape):
        x = lift(A[i])
        if x.t == {}:
            continue
        for j, y in bnz:
            if y.t == {} or builtins.any(i[q] != j[q] for q in oth):
                continue
            key = tuple(i[q] if q in oth else i[q] + j[q] for q in range(nd))
            out[key] = out[key] + x * y
    r = snp.from_objects(out, dt)
    if mode == "full":
        return r
    if mode == "same":
        want = [a.shape[i] if i in axes else shp[i] for i in range(nd)]
    elif mode == "valid":
        want = [a.shape[i] - b.shape[i] + 1 if i in axes else shp[i] for i in range(nd)]
        if builtins.min(want) < 1:
            raise Unsupported("valid convolution with swapped inputs")
    else:
        raise ValueError("acceptable mode flags are 'valid', 'same', or 'full'")
    st = [(shp[i] - want[i]) // 2 for i in range(nd)]
    return r[tuple(slice(s, s + w) for s, w in zip(st, want))]


def _next_fast(target, real=False):
    return scipy.fft.next_fast_len(snp._int(target), real)


_sp = _generic(scipy, {})
SHIMS["scipy"] = _sp
_spfft = dict(fftn=snp.fft.fftn, ifftn=snp.fft.ifftn, fft=snp.fft.fft, ifft=snp.fft.ifft, fft2=snp.fft.fft2,
              ifft2=snp.fft.ifft2, fftshift=snp.fft.fftshift, ifftshift=snp.fft.ifftshift, fftfreq=snp.fft.fftfreq)
SHIMS["scipy.fft"] = _generic(scipy.fft, dict(_spfft, next_fast_len=_next_fast, rfftn=snp.fft.rfftn, irfftn=snp.fft.irfftn,
                                              rfft=snp.fft.rfft, irfft=snp.fft.irfft, rfftfreq=snp.fft.rfftfreq))
SHIMS["scipy.fftpack"] = _generic(scipy.fftpack, dict(_spfft, next_fast_len=_next_fast_len))
SHIMS["scipy.signal"] = _generic(scipy.signal, dict(
    fftconvolve=_conv, convolve=lambda a, b, mode="full", method="auto": _conv(a, b, mode),
    oaconvolve=_conv, convolve2d=lambda a, b, mode="full", **k: _conv(a, b, mode)))
SHIMS["scipy.special"] = _generic(scipy.special, dict(eval_jacobi=eval_jacobi, binom=_binom, comb=_binom, factorial=_factorial))
SHIMS["scipy.linalg"] = _generic(scipy.linalg, dict(
    lstsq=lambda a, b, cond=None, **k: snp._lstsq(a, b, cond), norm=snp._norm_fn, pinv=snp._pinv, inv=snp._pinv))
SHIMS["scipy.ndimage"] = _generic(scipy.ndimage, {})
mod("scipy.ndimage._ni_support", _normalize_sequence=_normalize_sequence)
for _n in ("fft", "fftpack", "signal", "special", "linalg", "ndimage"):
    setattr(_sp, _n, SHIMS["scipy." + _n])
SHIMS["scipy.ndimage"]._ni_support = SHIMS["scipy.ndimage._ni_support"]


# ---- skimage -----------------------------------------------------------------------------
_unwrap_count = [0]


def unwrap_phase(img, wrap_around=False, seed=None, **k):
    """Contract: the input plus an unspecified integer multiple of 2 pi per pixel."""
    img = snp.asarray(img)
    _unwrap_count[0] += 1

    def f(i, v):
        kk = N.var("unwrap%d_%s" % (_unwrap_count[0], "_".join(map(str, i))), isint=True)
        return v + kk.with_ty("f") * (2 * math.pi)

    out = np.empty(img.shape, object)
    for i in np.ndindex(*img.shape):
        out[i] = f(i, lift(img.a[i]))
    return snp.from_objects(out, snp.F64)


mod("skimage")
mod("skimage.restoration", unwrap_phase=unwrap_phase)


# ---- matplotlib: records what is drawn -----------------------------------------------------
class Rec:
    """Anything: calls and attributes return further recorders."""

    def __init__(self, name="rec", args=(), kw=None):
        self._name, self._args, self._kw = name, args, kw or {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec(self._name + "." + n)

    def __call__(self, *a, **k):
        return Rec(self._name + "()", a, k)

    def __iter__(self):
        return iter(())

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return Rec(self._name + "[]")


class FakeImage(Rec):
    pass


class FakeAxes:
    def __init__(self, fig=None):
        self.images, self.patches, self.title, self.figure = [], [], "", fig
        self.xaxis, self.yaxis = Rec("xaxis"), Rec("yaxis")
        self.lines, self.bars, self.labels, self.ticks = [], [], None, None

    def plot(self, *a, **k):
        xs = [snp.asarray(x) for x in a if not isinstance(x, str)]
        line = Rec("line")
        y = xs[-1].ravel()
        line.x, line.y = (xs[0].ravel() if len(xs) > 1 else snp.arange(len(y))), y
        if len(line.x) != len(y):
            raise ValueError("x and y must have same first dimension")
        self.lines.append(line)
        return [line]

    semilogy = semilogx = loglog = plot

    def bar(self, x, height, width=0.8, bottom=None, align="center", tick_label=None, **k):
        x, h, w = snp.asarray(x).ravel(), snp.asarray(height).ravel(), snp.asarray(width).ravel()
        x, h, w = snp.broadcast_arrays(x, h, w)
        if align == "edge":
            x = x + w / 2
        for i in range(len(x)):
            r = Rec("bar")
            r.x, r.height, r.bottom = x[i], h[i], 0 if bottom is None else bottom
            self.bars.append(r)
        if tick_label is not None:
            self.set_xticks(list(x), list(tick_label))
        return list(self.bars)

    def set_xticks(self, ticks, labels=None, **k):
        self.ticks = list(ticks)
        if labels is not None:
            self.set_xticklabels(labels)

    def set_xticklabels(self, labels, **k):
        self.labels = [getattr(t, "_text", t) for t in labels]
        if self.ticks is not None and len(self.ticks) != len(self.labels):
            raise ValueError("The number of FixedLocator locations does not match the number of labels")

    def get_xticklabels(self, **k):
        out = []
        for t in self.labels or ():
            r = Rec("text")
            r._text, r.get_text = t, (lambda t=t: t)
            out.append(r)
        return out

    def get_xticks(self, **k):
        return self.ticks or []

    def set_title(self, t, *a, **k):
        self.title = t

    def imshow(self, data, cmap=None, norm=None, extent=None, origin=None, **k):
        d = snp.asarray(data)
        if d.ndim != 2:
            d = d.squeeze()
            if d.ndim != 2:
                raise TypeError("Invalid shape %s for image data" % (d.shape,))
        im = FakeImage("image")
        im.data, im.extent, im.origin, im.norm = d.copy(), extent, origin, norm
        im.mask = getattr(data, "mask", None)
        self.images.append(im)
        return im

    def matshow(self, data, **k):
        return self.imshow(data, origin=k.pop("origin", "upper"), **k)

    def add_patch(self, p):
        self.patches.append(p)
        return p

    add_artist = add_patch

    def set_title(self, t, *a, **k):
        self.title = t

    def get_title(self, *a):
        return self.title

    def get_figure(self):
        return self.figure

    def get_images(self):
        return self.images

    def set(self, **k):
        if "title" in k:
            self.title = k["title"]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec("ax." + n)


class FakeFigure:
    def __init__(self, *a, **k):
        self.axes = []

    def add_subplot(self, *a, **k):
        ax = FakeAxes(self)
        self.axes.append(ax)
        return ax

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec("fig." + n)


class ImageGrid:
    def __init__(self, fig, rect, nrows_ncols=(1, 1), **k):
        self.fig = fig
        self.nrows, self.ncols = nrows_ncols
        self.axes_all = [FakeAxes(fig) for _ in range(nrows_ncols[0] * nrows_ncols[1])]
        self.direction = k.get("direction", "row")

    def __getitem__(self, i):
        return self.axes_all[i]

    def __len__(self):
        return len(self.axes_all)

    def __iter__(self):
        return iter(self.axes_all)

    @property
    def axes_row(self):
        return [self.axes_all[r * self.ncols:(r + 1) * self.ncols] for r in range(self.nrows)]

    @property
    def axes_column(self):
        return [self.axes_all[c::self.ncols] for c in range(self.ncols)]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec("grid." + n)


class _RecMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Rec(self.__name__ + "." + n)


def recmod(name, **k):
    m = _RecMod(name)
    m.__path__ = []
    for a, b in k.items():
        setattr(m, a, b)
    SHIMS[name] = m
    return m


def _patch(kind):
    def f(*a, **k):
        p = Rec(kind, a, k)
        return p

    return f


def _subplots(nrows=1, ncols=1, *a, **k):
    fig = FakeFigure()
    n = nrows * ncols
    axs = [fig.add_subplot() for _ in range(n)]
    if n == 1:
        return fig, axs[0]
    if nrows > 1 and ncols > 1:
        g = np.empty((nrows, ncols), object)
        for i in range(n):
            g[i // ncols, i % ncols] = axs[i]
        return fig, g
    return fig, axs


_mpl = recmod("matplotlib")
recmod("matplotlib.figure", Figure=FakeFigure)
recmod("matplotlib.pyplot", figure=lambda *a, **k: FakeFigure(), subplots=_subplots)
recmod("matplotlib.patches", Circle=_patch("Circle"), Wedge=_patch("Wedge"), Arc=_patch("Arc"), Ellipse=_patch("Ellipse"))
recmod("matplotlib.font_manager")
recmod("matplotlib.patheffects")
recmod("matplotlib.colors")
recmod("matplotlib.axes", Axes=FakeAxes)
recmod("matplotlib.ticker")
for _n in ("figure", "pyplot", "patches", "font_manager", "patheffects", "colors", "axes", "ticker"):
    setattr(_mpl, _n, SHIMS["matplotlib." + _n])
recmod("mpl_toolkits")
recmod("mpl_toolkits.axes_grid1", ImageGrid=ImageGrid)
recmod("mpl_toolkits.axes_grid1.anchored_artists")
