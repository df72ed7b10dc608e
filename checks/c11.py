"""easy_fft/easy_ifft executed on arrays of symbolic complex numbers; every output element is an exact
linear form over the cyclotomic numbers and is compared with the defining sum of the centred DFT."""
import itertools
import math

from sx.harness import Case
from sx import oracle as O

BOUNDS = "array shapes: every 1D length 1..7 (9 thorough), 2D up to 4x5, 3D up to 3x3x2; every choice of axes; all complex values"


def fwd(B, shape, axes):
    x = B.array("x", shape, "c")
    x0 = x.copy()
    ax = tuple(range(len(shape))) if axes is None else axes
    f = B.m.utils.easy_fft(x, axes=axes) if axes is not None else B.m.utils.easy_fft(x)
    B.eq(f, O.cdft(B, x0, ax), "centred DFT")
    B.eq(x, x0, "input untouched", out=False)


def inv(B, shape, axes):
    x = B.array("x", shape, "c")
    x0 = x.copy()
    u = B.m.utils
    k = {} if axes is None else {"axes": axes}
    ax = tuple(range(len(shape))) if axes is None else axes
    g = u.easy_ifft(x, **k)
    B.eq(g, O.cdft(B, x0, ax, inverse=True), "centred inverse DFT")
    B.eq(x, x0, "input untouched", out=False)
    B.eq(u.easy_fft(g, **k), x0, "easy_fft(easy_ifft(x)) == x")
    B.eq(u.easy_ifft(u.easy_fft(x, **k), **k), x0, "easy_ifft(easy_fft(x)) == x")


def cases(tier):
    big = tier == "thorough"
    shapes = [(n,) for n in range(1, 10 if big else 8)]
    shapes += [(a, b) for a in range(1, 5) for b in range(1, 6)] if big else [(2, 3), (3, 2), (3, 3), (4, 3), (3, 5), (4, 4), (1, 4)]
    shapes += [(2, 3, 2), (3, 2, 3), (3, 3, 2)] + ([(2, 3, 4), (3, 3, 3), (2, 2, 5)] if big else [])
    out = []
    for s in shapes:
        axs = [None]
        for r in range(1, len(s) + 1):
            axs += list(itertools.combinations(range(len(s)), r)) if r < len(s) else []
        if len(s) > 1:
            axs.append((-1,))
        for ax in axs:
            nm = "%s axes=%s" % ("x".join(map(str, s)), ax)
            out.append(Case("fft " + nm, fwd, shape=s, axes=ax, weight=math.prod(s)))
            out.append(Case("ifft " + nm, inv, shape=s, axes=ax, weight=3 * math.prod(s)))
    return out
