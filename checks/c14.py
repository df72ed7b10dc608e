"""bin_ndarray on arrays of symbolic values: every output element is compared with the sum (mean) of
the input elements of its block; shapes and bin sizes are swept, values are solved for."""
import itertools
import math

import numpy as np

from sx.harness import Case

BOUNDS = "1D lengths 1..7 (10 thorough) with every bin size 1..length+1, 2D up to 4x5, 3D up to 2x4x3; every dividing target shape; all values; sum and mean"


def ref(B, x, bins, shape, op):
    out = np.empty(shape, object)
    for o in np.ndindex(*shape):
        t = 0
        for d in itertools.product(*[range(b) for b in bins]):
            t = t + x[tuple(i * b + j for i, b, j in zip(o, bins, d))]
        out[o] = t / math.prod(bins) if op == "mean" else t
    return out


def binned(B, shape, bins, op, via, kind, arg=None, upper=False):
    x = B.array("x", shape, kind)
    x0 = x.copy()
    new = tuple(s // b for s, b in zip(shape, bins))
    kw = {}
    if op:
        kw["operation"] = op.upper() if upper else op
    f = B.m.utils.bin_ndarray
    if via == "bin":
        y = f(x, bin_size=bins if arg is None else arg, **kw)
    else:
        y = f(x, new if arg is None else arg, **kw)
    r = ref(B, x0, bins, new, op or "sum")
    if r.size == 0:
        B.same(tuple(y.shape), new, "empty shape")
    else:
        B.eq(y, B.arr(r.tolist()), "blocks")
    if (op or "sum") == "sum" and all(s % b == 0 for s, b in zip(shape, bins)):
        B.eq(y.sum(), x0.sum(), "total conserved")
    B.eq(x, x0, "input untouched", out=False)


def errors(B):
    x = B.array("x", (4, 2))
    f = B.m.utils.bin_ndarray
    B.raises(ValueError, lambda: f(x), "no specification")
    B.raises(ValueError, lambda: f(x, (2, 1), operation="median"), "unknown operation")
    B.raises(ValueError, lambda: f(x, bin_size=2, operation="max"), "unknown operation with bin_size")
    B.raises(ValueError, lambda: f(x, (2,)), "too few dimensions")
    B.raises(ValueError, lambda: f(x, (2, 1, 1)), "too many dimensions")


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in range(1, 11 if big else 8):
        for b in range(1, n + 2):
            for op in ("sum", "mean"):
                out.append(Case("1D %d bin %d %s" % (n, b, op), binned, shape=(n,), bins=(b,), op=op, via="bin", kind="f", arg=b))
            if n % b == 0:
                for op in (None, "mean"):
                    out.append(Case("1D %d to %d %s" % (n, n // b, op), binned, shape=(n,), bins=(b,), op=op, via="shape", kind="f"))
    shapes = [(2, 3), (4, 5), (3, 4), (4, 4), (5, 3)] + ([(6, 5), (5, 7), (6, 6)] if big else [])
    for s in shapes:
        for b in itertools.product(range(1, 4), repeat=2):
            out.append(Case("2D %s bins %s" % (s, b), binned, shape=s, bins=b, op="sum", via="bin", kind="f"))
            if all(i % j == 0 for i, j in zip(s, b)):
                out.append(Case("2D %s to bins %s mean" % (s, b), binned, shape=s, bins=b, op="mean", via="shape", kind="c"))
        out.append(Case("2D %s scalar bin 2" % (s,), binned, shape=s, bins=(2, 2), op=None, via="bin", kind="i", arg=2))
        out.append(Case("2D %s mean of ints" % (s,), binned, shape=s, bins=(2, 1), op="mean", via="bin", kind="i"))
    for s, b in [((2, 4, 3), (1, 2, 3)), ((2, 4, 3), (2, 2, 2)), ((3, 3, 3), (1, 3, 3)), ((2, 3, 5), (2, 1, 2)), ((1, 5, 5), (1, 3, 3))]:
        for op in ("sum", "mean"):
            out.append(Case("3D %s bins %s %s" % (s, b, op), binned, shape=s, bins=b, op=op, via="bin", kind="f", upper=op == "mean"))
    out.append(Case("bins as array", binned, shape=(4, 5), bins=(2, 3), op="sum", via="bin", kind="f", arg=np.array([2, 3])))
    out.append(Case("bins as list", binned, shape=(4, 5), bins=(2, 3), op="sum", via="bin", kind="f", arg=[2, 3]))
    out.append(Case("errors", errors))
    return out
