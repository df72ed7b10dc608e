"""apply_aberration and the named forms on symbolic models and coefficients: the resulting field against that of the
pupil written out from the Zernike definition."""
import math
from fractions import Fraction as F

import numpy as np

from sx import optics as O
from sx.harness import Case
from sx.oracle import obj
from checks.c10 import DEG

BOUNDS = ("model sizes 1..4 (5 thorough), one or two planes; 1..6 modes with every coefficient free, up to 15 with a symbolic subset (45 thorough); "
          "the 15 names alone, in pairs and all together; all wl, na, ni, res with na < ni")
NAMES = ("piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism", "vertical coma", "horizontal coma", "vertical trefoil", "oblique trefoil",
         "primary spherical", "vertical secondary astigmatism", "oblique secondary astigmatism", "vertical quadrafoil", "oblique quadrafoil")


def model(B, size, zs, vec="none", cond="none", **k):
    p = O.params(B, size, len(zs), vec, cond, zres=1, **k)
    B.assume(p.na < p.ni)
    return p, B.m.otf.HanserPSF(zrange=zs, **p.args())


def pupil(B, p, mc, pc):
    """(|ideal| + sum mc_j Z_j) exp(i sum pc_j Z_j)"""
    n = p.size
    k, kr2, kr = O.lateral(B, p)
    out = np.empty((n, n), object)
    w = p.wl / p.na
    for i in range(n):
        for j in range(n):
            r = kr[i][j] * w if (i or j) else 0
            inside = r <= 1 if (i or j) else True
            if not inside:
                out[i, j] = 0
                continue
            ideal = 1 if (not (i or j) or kr[i][j] < p.na / p.wl) else 0
            c, s = (k[j] / kr[i][j], k[i] / kr[i][j]) if i or j else (1, 0)
            mag, ph = ideal, 0
            for q in range(max(len(mc), len(pc))):
                a, b = (x[q] if q < len(x) else 0 for x in (mc, pc))
                if isinstance(a, int) and a == 0 and isinstance(b, int) and b == 0:
                    continue
                z = mode(B, r, c, s, *DEG[q + 1])
                mag, ph = mag + a * z, ph + b * z
            out[i, j] = mag * (O.expi(B, ph) if not (isinstance(ph, int) and ph == 0) else 1)
    return out


def mode(B, r, c, s, n, m):
    a = abs(m)
    R = 0
    for q in range((n - a) // 2 + 1):
        f = (-1) ** q * math.factorial(n - q) // (math.factorial(q) * math.factorial((n + a) // 2 - q) * math.factorial((n - a) // 2 - q))
        R = R + f * (r ** (n - 2 * q) if n > 2 * q else 1)
    R = R * O.sqrt(B, B.const(F(n + 1 if m == 0 else 2 * (n + 1))))
    x, y = 1, 0
    for _ in range(a):
        x, y = x * c - y * s, x * s + y * c
    return R * (x if m >= 0 else y)


def compare(B, m, p, zs, P, label):
    ref = O.hanser_psfa(B, p, zs, P)
    B.eq(m.PSFa, ref, "field " + label)
    return ref


def coefs(B, name, n, which=None):
    out = []
    for j in range(n):
        out.append(B.real("%s%d" % (name, j), lo=-10, hi=10, sample=(-1, 1)) if which is None or j in which else 0)
    return out


def both(B, size, nz, n, vec, cond, give, which=None, read=False):
    zs = [B.real("z%d" % i, sample=(-1, 1)) for i in range(nz)]
    p, m = model(B, size, zs, vec, cond)
    before = {a: getattr(m, a).copy() for a in (("PSFa", "PSFi") if read else ())}
    mc = coefs(B, "m", n, which) if give in ("both", "mag") else None
    pc = coefs(B, "p", n, which) if give in ("both", "phase") else None
    am, ap = (None if x is None else B.arr(x, float) for x in (mc, pc))
    am0, ap0 = (None if x is None else x.copy() for x in (am, ap))
    out = B.m.otf.apply_aberration(m, am, ap)
    B.claim(out is not m, "a new model")
    ref = compare(B, out, p, zs, pupil(B, p, mc or [], pc or []), "of the aberrated pupil")
    if n < 3:
        B.eq(out.PSFi, O.intensity(B, ref), "intensity")
    for x, x0, l in ((am, am0, "mcoefs"), (ap, ap0, "pcoefs")):
        if x is not None:
            B.eq(x, x0, l + " untouched", out=False)
    for a, x in before.items():
        B.eq(getattr(m, a), x, "input model's %s untouched" % a, out=False)
    for a in ("wl", "na", "ni", "res"):
        B.eq(getattr(m, a), getattr(p, a), "input model's %s untouched" % a, out=False)
        B.eq(getattr(out, a), getattr(p, a), "new model's " + a, out=False)
    compare(B, m, p, zs, None, "of the input model")


def none(B):
    zs = [B.real("z", sample=(-1, 1))]
    p, m = model(B, 3, zs)
    out = B.m.otf.apply_aberration(m, None, None)
    B.claim(out is not m, "a new model")
    compare(B, out, p, zs, None, "without aberration")
    out.wl = 2 * p.wl
    B.eq(m.wl, p.wl, "input model untouched")
    compare(B, m, p, zs, None, "of the input model")


def named(B, size, names, form):
    zs = [B.real("z", sample=(-1, 1))]
    p, m = model(B, size, zs)
    vals = [B.real("a%d" % i, lo=-10, hi=10, sample=(-1, 1)) for i in range(len(names))]
    if form == "single":
        out = B.m.otf.apply_named_aberration(m, names[0], vals[0])
    else:
        d = dict(zip(names, vals))
        out = B.m.otf.apply_named_aberrations(m, d)
        B.same(list(d), list(names), "dict untouched")
        for n, v in zip(names, vals):
            B.eq(d[n], v, "dict untouched", out=False)
    pc = [0] * 15
    for n, v in zip(names, vals):
        pc[NAMES.index(n)] = v
    B.claim(out is not m, "a new model")
    compare(B, out, p, zs, pupil(B, p, [], pc), "of the named aberration")
    compare(B, m, p, zs, None, "of the input model")


def table(B):
    v = B.real("v", lo=-10, hi=10)
    for i, n in enumerate(NAMES):
        c = B.m.otf.named_aberration_to_pcoefs(n, v)
        B.same(tuple(c.shape), (15,), "one coefficient per name")
        B.eq(c, B.arr([v if j == i else 0 for j in range(15)], float), n)


def errors(B):
    zs = [0.0]
    p, m = model(B, 3, zs)
    a = B.m.otf.apply_aberration
    x, y = B.array("x", (3,)), B.array("y", (2,))
    for l, u, w in (("more magnitudes", x, y), ("more phases", y, x)):
        B.raises(Exception, lambda: a(m, u, w), l)
    s = B.m.otf.SheppardPSF(wl=0.5, na=1.0, ni=1.3, res=0.1, size=3, zres=0.1, zsize=2)
    B.raises(Exception, lambda: a(s, x, x), "Sheppard model")
    B.raises(Exception, lambda: a(None, x, x), "no model")
    for bad in ("", "Tip", "astigmatism", "coma", "primary  spherical", 4):
        B.raises(KeyError, lambda: B.m.otf.named_aberration_to_pcoefs(bad, 1.0), "unknown name %r" % (bad,))
        B.raises(KeyError, lambda: B.m.otf.apply_named_aberration(m, bad, 1.0), "unknown name %r" % (bad,))
        B.raises(KeyError, lambda: B.m.otf.apply_named_aberrations(m, {"tip": 1.0, bad: 1.0}), "unknown name %r in a dict" % (bad,))


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, budget=300, qtimeout=1500)
    for size in (1, 2, 3, 4) + ((5,) if big else ()):
        for n in (1, 2, 4, 6):
            for give in ("both", "mag", "phase"):
                if size == 4 and n in (2, 4) and not big:
                    continue
                out.append(Case("size %d, %d modes, %s" % (size, n, give), both, size=size, nz=1, n=n, vec="none", cond="none", give=give, weight=size ** 2 * n, **k))
    for vec in O.VEC:
        for cond in O.COND:
            out.append(Case("size 3, 4 modes, %s/%s" % (vec, cond), both, size=3, nz=1, n=4, vec=vec, cond=cond, give="both", weight=60, **k))
    out.append(Case("size 3, 2 planes", both, size=3, nz=2, n=4, vec="none", cond="sine", give="both", read=True, weight=60, **k))
    out.append(Case("size 4, read before", both, size=4, nz=1, n=2, vec="x", cond="sine", give="phase", read=True, weight=60, **k))
    for w in ((0, 10), (3, 6, 14), (7, 8, 9), (11, 12, 13)) + (((20, 27), (35, 36), (40, 44)) if big else ()):
        n = max(w) + 1
        out.append(Case("size 3, %d modes, those at %s" % (n, w), both, size=3, nz=1, n=n, vec="none", cond="none", give="both", which=w, weight=80, **k))
        out.append(Case("size 4, %d modes, those at %s" % (n, w), both, size=4, nz=1, n=n, vec="none", cond="none", give="both", which=w, weight=120, **k))
    out.append(Case("no coefficients", none, **k))
    for i, n in enumerate(NAMES):
        out.append(Case("named %s" % n, named, size=3, names=(n,), form="single", weight=10, **k))
        out.append(Case("named %s and %s" % (n, NAMES[(i * 4 + 2) % 15]), named, size=3 if i % 3 else 4, names=(n, NAMES[(i * 4 + 2) % 15]) if (i * 4 + 2) % 15 != i else (n,), form="dict", weight=10, **k))
    out.append(Case("all names", named, size=3, names=NAMES[::-1], form="dict", weight=100, **k))
    out.append(Case("names table", table))
    out.append(Case("errors", errors, split=True))
    return out
