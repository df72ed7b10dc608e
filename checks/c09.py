"""Noll index maps on symbolic integers.  degrees2noll is executed for symbolic (n, m); noll2degrees
for a symbolic index; each result is compared with Noll's 1976 ordering written as a formula, and
the solver decides which inputs raise."""
import numpy as np

from sx.harness import Case
from sx import num as N

BOUNDS = ("indices: all integers in -10..200 (supported 1..120); degrees: n in -6..40, |m|<=45 "
          "(degree pairs beyond the supported 120 indices included); array shapes (), (1,), (2,), (2,2), (3,) with one or two symbolic entries")


def noll(B, n, m):
    """Noll's index of the polynomial of degrees n, m."""
    a = abs(m)
    q = n % 4
    base = n * (n + 1) // 2 + a
    if m > 0:
        return base + (0 if (q == 0) | (q == 1) else 1)
    if m < 0:
        return base + (0 if (q == 2) | (q == 3) else 1)
    return base + 1


def _noll_c(n, m):
    q = n % 4
    base = n * (n + 1) // 2 + abs(m)
    if m > 0:
        return base + (0 if q in (0, 1) else 1)
    if m < 0:
        return base + (0 if q in (2, 3) else 1)
    return base + 1


TABLE = {_noll_c(n, m): (n, m) for n in range(20) for m in range(-n, n + 1, 2)}


def at(x, i):
    x = x[i] if i != () else x
    return x


def forward(B, shape, pos, other):
    """degrees2noll of arrays whose entry `pos` is symbolic."""
    n = B.int("n", -6, 40)
    m = B.int("m", -45, 45)
    zn = B.m.zernike
    if shape is None:
        an, am = n, m
    else:
        ln = [TABLE[k][0] for k in other]
        lm = [TABLE[k][1] for k in other]
        ln[pos], lm[pos] = n, m
        an, am = B.arr(ln).reshape(shape), B.arr(lm).reshape(shape)
    bad = ((n - m) % 2 != 0) | (abs(m) > n)
    if bad:
        B.raises(ValueError, lambda: zn.degrees2noll(an, am), "no such polynomial")
        return
    # supported: radial degrees up to 14 (index 120)
    if n > 14:
        B.raises(Exception, lambda: zn.degrees2noll(an, am), "beyond the supported range")
        return
    r = zn.degrees2noll(an, am)
    if shape is None:
        B.claim(r == noll(B, n, m), "Noll index")
    else:
        B.same(tuple(r.shape), shape, "shape")
        fl = r.ravel()
        for k, o in enumerate(other):
            if k == pos:
                B.claim(fl[k] == noll(B, n, m), "Noll index of the symbolic entry")
            else:
                B.claim(fl[k] == o, "Noll index of the other entries")


def back(B, shape, pos, other):
    """noll2degrees of arrays whose entry `pos` is symbolic."""
    j = B.int("j", -10, 200)
    zn = B.m.zernike
    if shape is None:
        arg = j
    else:
        l = list(other)
        l[pos] = j
        arg = B.arr(l).reshape(shape)
    if j < 1:
        B.raises(ValueError, lambda: zn.noll2degrees(arg), "index below 1")
        return
    if j > 120:
        B.raises(Exception, lambda: zn.noll2degrees(arg), "beyond the supported range")
        return
    n, m = zn.noll2degrees(arg)
    if shape is None:
        n1, m1 = n, m
    else:
        B.same(tuple(n.shape), shape, "shape of n")
        B.same(tuple(m.shape), shape, "shape of m")
        n1, m1 = n.ravel()[pos], m.ravel()[pos]
        for k, o in enumerate(other):
            if k != pos:
                B.claim((n.ravel()[k] == TABLE[o][0]) & (m.ravel()[k] == TABLE[o][1]), "degrees of the other entries")
    B.claim(n1 >= abs(m1), "|m| <= n")
    B.claim((n1 - abs(m1)) % 2 == 0, "n-|m| even")
    B.claim(noll(B, n1, m1) == j, "the pair has this index in Noll's ordering")
    r = zn.degrees2noll(n, m)
    B.claim(B.np.asarray(r).ravel()[pos if shape is not None else 0] == j, "round trip")


def types(B):
    zn = B.m.zernike
    x = B.real("x", 1.0, 100.0)
    B.raises(ValueError, lambda: zn.noll2degrees(x), "real Noll index")
    B.raises(ValueError, lambda: zn.noll2degrees(B.arr([1.0, x])), "real Noll indices")
    j = B.int("j", 1, 14)
    B.raises(ValueError, lambda: zn.noll2degrees(B.arr([1.5, 2.0])), "real array")
    B.raises(ValueError, lambda: zn.degrees2noll(x, j), "real n")
    B.raises(ValueError, lambda: zn.degrees2noll(j, x), "real m")
    B.raises(ValueError, lambda: zn.degrees2noll(B.arr([2.0, 4.0]), B.arr([0, 0])), "real n array")
    B.raises(ValueError, lambda: zn.degrees2noll(B.arr([2, 4]), B.arr([0.0, 0.0])), "real m array")


def cases(tier):
    big = tier == "thorough"
    out = []
    sh = [(None, 0, ()), ((1,), 0, (1,)), ((2,), 0, (4, 7)), ((2,), 1, (11, 3)), ((2, 2), 2, (5, 6, 9, 120)), ((3,), 2, (2, 37, 80))]
    for s, p, o in sh:
        out.append(Case("degrees2noll %s" % (s,) + str(p), forward, shape=s, pos=p, other=o, budget=300, weight=100))
        out.append(Case("noll2degrees %s" % (s,) + str(p), back, shape=s, pos=p, other=o, budget=300, weight=100))
    out.append(Case("types", types))
    return out
