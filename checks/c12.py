"""fft_pad on symbolic lengths: the array is modelled by its shape (lengths are unbounded symbolic
integers within the stated range) and by where its samples go, so one path stands for all lengths of
a sign/parity class.  The contents are checked with arrays of symbolic values of concrete shapes."""
import itertools
import math

import numpy as np

from sx.harness import Case
from sx import snp

BOUNDS = ("placement: every old and new length 1..100000 (1D), 1..1000 (2D; contents replayed on real arrays); "
          "contents and fill: every pair of lengths 1..5 (1D), a selection up to 4x3 (2D, 3D), modes constant, edge, wrap and median; default shape: lengths 1..40")


def placement(B, ndim, form, top):
    olds = [B.int("n%d" % i, 1, top) for i in range(ndim)]
    news = [B.int("m%d" % i, 1, top) for i in range(ndim)]
    if form == "int":
        news = [news[0]] * ndim
        arg = news[0]
    elif form == "none":
        news = [news[0]] + olds[1:]
        arg = (news[0],) + (None,) * (ndim - 1)
    else:
        arg = tuple(news) if form == "tuple" else list(news)
    if B.sym:
        x = snp.ShapeArray(olds)
        y = B.m.utils.fft_pad(x, arg, mode="constant")
        for i in range(ndim):
            o, n = olds[i], news[i]
            B.claim(y.shape[i] == n, "length of axis %d" % i)
            B.claim(y.shift[i] == (n + 1) // 2 - (o + 1) // 2, "position of sample (n+1)//2, axis %d" % i)
            # nothing that fits is lost
            B.claim(y.lo[i] == B.where(o > n, (o + 1) // 2 - (n + 1) // 2, 0), "first sample kept, axis %d" % i)
            B.claim(y.hi[i] == B.where(o > n, (o + 1) // 2 - (n + 1) // 2 + n, o), "last sample kept, axis %d" % i)
    else:
        if math.prod(olds) > 4e6 or math.prod(news) > 4e6:
            olds, news = [min(v, 1000 + v % 2) for v in olds], [min(v, 1000 + v % 2) for v in news]
        x = np.arange(1, 1 + math.prod(olds)).reshape(olds)
        y = B.m.utils.fft_pad(x, arg, mode="constant")
        B.same(tuple(y.shape), tuple(news), "shape")
        ref = np.zeros(news, int)
        src, dst = [], []
        for o, n in zip(olds, news):
            sh = (n + 1) // 2 - (o + 1) // 2
            a, b = max(0, -sh), min(o, n - sh)
            src.append(slice(a, b))
            dst.append(slice(a + sh, b + sh))
        ref[tuple(dst)] = x[tuple(src)]
        B.eq(y, ref, "placement")


def roundtrip(B, ndim, top):
    olds = [B.int("n%d" % i, 1, top) for i in range(ndim)]
    news = [B.int("m%d" % i, 1, top) for i in range(ndim)]
    for o, n in zip(olds, news):
        B.assume(n >= o)
    if B.sym:
        x = snp.ShapeArray(olds)
        y = B.m.utils.fft_pad(B.m.utils.fft_pad(x, tuple(news), mode="constant"), tuple(olds), mode="constant")
        for i in range(ndim):
            B.claim(y.shape[i] == olds[i], "length")
            B.claim(y.shift[i] == 0, "samples back in place")
            B.claim(y.lo[i] == 0, "first sample")
            B.claim(y.hi[i] == olds[i], "last sample")
    else:
        x = np.arange(1, 1 + math.prod(olds)).reshape(olds)
        y = B.m.utils.fft_pad(B.m.utils.fft_pad(x, tuple(news), mode="constant"), tuple(olds), mode="constant")
        B.eq(y, x, "samples back in place")


def fill(v, n_before, n_after, mode, cv, B):
    """One axis of np.pad, written out."""
    n = len(v)
    if mode == "constant":
        return [cv] * n_before + v + [cv] * n_after
    if mode == "edge":
        return [v[0]] * n_before + v + [v[-1]] * n_after
    if mode == "wrap":
        return [v[(i - n_before) % n] for i in range(n_before + n + n_after)]
    if mode == "median":
        m = B.np.median(B.arr(v))
        return [m] * n_before + v + [m] * n_after


def contents(B, shape, new, mode, arg=None, dtype=None):
    x = B.array("x", shape, "c" if dtype == "c" else "i" if dtype else "f", dtype=dtype if dtype != "c" else None,
                **(dict(lo=0, hi=255) if dtype == "uint8" else {}))
    x0 = x.copy()
    u = B.m.utils
    kw = {}
    cv = 0
    if mode == "constant" and dtype is None:
        cv = B.real("cv")
        kw["constant_values"] = cv
    if mode == "default":
        y = u.fft_pad(x, arg if arg is not None else tuple(new))
        mode = "median"
    else:
        y = u.fft_pad(x, arg if arg is not None else tuple(new), mode=mode, **kw)
    cur = {i: x0[i] for i in np.ndindex(*shape)}
    shp = list(shape)
    # crop every axis first, then fill axis by axis
    target = [o if n is None else n for o, n in zip(shape, new)]
    for ax, (o, n) in enumerate(zip(shape, target)):
        if n < o:
            a = (o + 1) // 2 - (n + 1) // 2
            cur = {i[:ax] + (i[ax] - a,) + i[ax + 1:]: v for i, v in cur.items() if a <= i[ax] < a + n}
            shp[ax] = n
    for ax, (o, n) in enumerate(zip(shape, target)):
        if n > o:
            before = (n + 1) // 2 - (o + 1) // 2
            out = {}
            rest = [range(s) if k != ax else (0,) for k, s in enumerate(shp)]
            for i in itertools.product(*rest):
                line = fill([cur[i[:ax] + (k,) + i[ax + 1:]] for k in range(o)], before, n - o - before, mode, cv, B)
                for k, v in enumerate(line):
                    out[i[:ax] + (k,) + i[ax + 1:]] = v
            cur = out
            shp[ax] = n
    ref = np.empty(shp, object)
    for i in np.ndindex(*shp):
        ref[i] = cur[i]
    B.eq(y, B.arr(ref.tolist()) if ref.size else ref, "contents", out=mode != "median")
    B.eq(x, x0, "input untouched", out=False)
    if all(n >= o for o, n in zip(shape, target)):
        B.eq(u.fft_pad(y, tuple(shape), mode="constant"), x0, "round trip")


def default(B, shape):
    """No shape given: smallest 5-smooth length not below the old one."""
    x = B.array("x", shape, "f")
    y = B.m.utils.fft_pad(x, mode="edge")

    def smooth(n):
        for p in (2, 3, 5):
            while n % p == 0:
                n //= p
        return n == 1

    want = []
    for n in shape:
        while not smooth(n):
            n += 1
        want.append(n)
    B.same(tuple(y.shape), tuple(want), "default shape")
    src = tuple(slice((m + 1) // 2 - (n + 1) // 2, (m + 1) // 2 - (n + 1) // 2 + n) for n, m in zip(shape, want))
    B.eq(y[src], x, "data kept")


def cases(tier):
    big = tier == "thorough"
    out = [Case("placement 1D", placement, ndim=1, form="tuple", top=100000, weight=50),
           Case("placement 1D int", placement, ndim=1, form="int", top=100000, weight=50),
           Case("placement 1D list", placement, ndim=1, form="list", top=100000, weight=50),
           Case("placement 2D", placement, ndim=2, form="tuple", top=1000, weight=80, budget=200),
           Case("placement 2D int", placement, ndim=2, form="int", top=1000, weight=80, budget=200),
           Case("placement 2D None", placement, ndim=2, form="none", top=1000, weight=80, budget=200),
           Case("round trip 1D", roundtrip, ndim=1, top=100000, weight=50),
           Case("round trip 2D", roundtrip, ndim=2, top=1000, weight=80, budget=200)]
    if big:
        out += [Case("placement 3D", placement, ndim=3, form="tuple", top=100, weight=80, budget=1500),
                Case("round trip 3D", roundtrip, ndim=3, top=100, weight=80, budget=1500)]
    top = 8 if big else 5
    for o in range(1, top + 1):
        for n in range(1, top + 3):
            for mode in ("constant", "edge", "wrap", "default"):
                if mode == "default" and (o > 3 or n <= o) or mode == "wrap" and n <= o:
                    continue
                out.append(Case("contents %d->%d %s" % (o, n, mode), contents, shape=(o,), new=(n,), mode=mode))
    for s, n in [((2, 3), (4, 2)), ((3, 2), (2, 5)), ((3, 3), (4, 4)), ((4, 3), (3, 4)), ((2, 2), (None, 3)), ((3, 4), (2, None)),
                 ((2, 2, 3), (3, 2, 4)), ((2, 3, 2), (1, 4, 2)), ((1, 2, 2), (1, 3, 3))]:
        out.append(Case("contents %s->%s constant" % (s, n), contents, shape=s, new=n, mode="constant"))
    out.append(Case("contents 2x2->3 int", contents, shape=(2, 2), new=(3, 3), arg=3, mode="edge"))
    out.append(Case("contents 2x3->np.int64", contents, shape=(2, 3), new=(4, 4), arg=np.int64(4), mode="constant"))
    out.append(Case("contents list target", contents, shape=(2, 3), new=(4, 2), arg=[4, 2], mode="constant"))
    out.append(Case("contents complex", contents, shape=(2, 3), new=(4, 2), mode="constant", dtype="c"))
    out.append(Case("contents int64", contents, shape=(2, 3), new=(4, 2), mode="constant", dtype="int64"))
    out.append(Case("contents uint8", contents, shape=(3, 2), new=(4, 5), mode="edge", dtype="uint8"))
    for n in list(range(1, 41)):
        out.append(Case("default shape %d" % n, default, shape=(n,)))
    out.append(Case("default shape 7x11", default, shape=(7, 11)))
    out.append(Case("default shape 3x7x1", default, shape=(3, 7, 1)))
    return out
