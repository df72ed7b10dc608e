"""Histories of assignments and reads on microscopes: which settings are assigned and which arrays were read before are
branched on, the values are free; PSF and OTF are compared with a newly built microscope's."""
from fractions import Fraction as F

import numpy as np

from sx.harness import Case
from sx.oracle import amap, obj
from checks import scope as S
from checks.c22 import smooth

BOUNDS = ("confocal of 2x2 and 3x3 pixels with real Hanser models, SIM of 3x3 pixels with 1 or 2 planes and one free voxel; every history of 1 assignment, for 3D SIM and confocal of 2 (all kinds, and 3, thorough), with every subset of PSF and OTF read before each; "
          "every value of the assigned numbers (wl_exc within 0.45..0.7, pinhole radius below 2.3 pixels), orientations of 1 and 2 free angles, Wiener None, 0 and free")
READS = ((), ("PSF",), ("OTF",), ("PSF", "OTF"))


def read(m, names):
    for a in names:
        getattr(m, a)


class Confocal:
    OPS = ("pinhole_size", "wl_exc")

    def __init__(self, B, size, f):
        self.B = B
        self.fixed = dict(size=size, f=f, wl=B.const(F(1, 2)), na=B.const(F(9, 10)), ni=B.const(F(3, 2)), pixel=B.const(F(1, 5)), zsize=1, zres=0.3, vec_corr="none", condition="none", zrange=[0.25])
        self.now = dict(pinhole_size=1, wl_exc=B.const(F(11, 20)))
        self.m = self.fresh()

    def fresh(self):
        k = dict(self.fixed)
        return S.make(self.B, "confocal", k.pop("size"), k.pop("f"), **k, **self.now)

    def value(self, op, tag):
        if op == "wl_exc":
            return self.B.real("wl" + tag, lo=F(9, 20), hi=F(7, 10), sample=(0.45, 0.7))
        return self.B.choice("p" + tag, (2, 0.5, 0, 1.25))


class Sim:
    OPS = ("na_exc", "wl_exc", "wiener", "orientations", "dc_suppress", "coherent", "dc")

    def __init__(self, B, kind, size, nz, wiener):
        self.B, self.kind = B, kind
        self.fixed = dict(size=size, zsize=nz, zres=0.3)
        self.now = dict(na_exc=0.8, wl_exc=0.45, wiener=wiener, orientations=(0.3,), dc_suppress=False)
        flags = dict(coherent=kind == "lattice", dc=kind != "sim2d")
        kw = dict(self.now)
        if kind == "lattice":
            self.now["orientations"] = (0, np.pi / 2)
            kw.pop("orientations")
        k = dict(self.fixed)
        self.m = S.make(B, kind, k.pop("size"), **k, **kw)
        self.now.update(flags)
        self.I = amap(B, (nz, size, size), lambda *q: B.real("I", lo=0, hi=4, sample=(0, 2)) if q == (0, 0, 0) and wiener is None else B.const(smooth(*q)))
        self.m.model = S.stub(B, self.m.model, self.I)

    def fresh(self):
        k = dict(self.fixed)
        a = dict(model="hanser", na=0.9, ni=1.5, wl=0.5, size=k.pop("size"), pixel_size=0.2, oversample_factor=1)
        m = self.B.m.microscope.BaseSIMMicroscope(**a, **k, **self.now)
        m.model = S.stub(self.B, m.model, self.I)
        return m

    def value(self, op, tag):
        B = self.B
        if op == "na_exc":
            return B.real("na" + tag, lo=F(1, 10), hi=F(3, 2), sample=(0.2, 1.4))
        if op == "wl_exc":
            return B.real("wl" + tag, pos=True, sample=(0.3, 0.7))
        if op == "wiener":
            w = B.choice("w?" + tag, (None, 0, "free"))
            return B.real("w" + tag, pos=True, sample=(0.05, 1)) if w == "free" else w
        if op == "orientations":
            n = B.choice("n" + tag, (1, 2))
            return tuple(B.real("phi%d%s" % (i, tag), sample=(-3, 3)) for i in range(n))
        return not self.now[op]


def settings(B, s, label=""):
    for k, v in s.now.items():
        got = getattr(s.m, k)
        if k == "orientations":
            B.same(len(got), len(v), k + label)
            for a, b in zip(got, v):
                B.eq(a, b, k + label, out=False)
        elif v is None or isinstance(v, (bool, str)):
            B.same(got, v, k + label)
        else:
            B.eq(got, v, k + label, out=False)


def check(B, s, order):
    settings(B, s)
    f = s.fresh()
    for a in order:
        B.eq(getattr(s.m, a), getattr(f, a), a, scale=1 if a == "OTF" and not B.sym else None)


def history(B, make, ops, reads=READS, order=("PSF", "OTF")):
    s = make(B)
    for n, op in enumerate(ops):
        read(s.m, B.choice("read%d" % n, reads))
        v = s.value(op, str(n))
        if op in ("na_exc", "wl_exc"):
            B.assume(v != s.now[op])  # the value it has already: see again
        setattr(s.m, op, v)
        s.now[op] = v
    check(B, s, order)


def again(B, make):
    """Reading changes nothing, nor does assigning the value a setting has."""
    s = make(B)
    first = {a: getattr(s.m, a).copy() for a in B.choice("order", (("PSF", "OTF"), ("OTF", "PSF")))}
    for op in s.OPS:
        setattr(s.m, op, s.now[op])
    for a in ("PSF", "OTF"):
        B.eq(getattr(s.m, a), first[a], a + " read again")
    settings(B, s)


def rejected(B, make, op):
    """A rejected value changes nothing."""
    s = make(B)
    read(s.m, B.choice("read", READS))
    flag = op in ("dc_suppress", "coherent", "dc")
    bad = B.choice("bad", ("number", "text", "list", "none") if flag else ("negative", "tiny", "text", "list", "complex") + (() if op == "wiener" else ("none",)))
    v = {"number": 2.5, "text": "1", "list": [1], "none": None, "complex": 1j, "tiny": -1}.get(bad)
    if bad == "negative":
        v = B.real("v", hi=0, lo=-5, sample=(-2, -0.1))
        B.assume(v < 0)
    kind = ValueError if bad in ("negative", "tiny") else Exception
    B.raises(kind, lambda: setattr(s.m, op, v), "%s %s" % (op, bad))
    check(B, s, ("PSF", "OTF"))


def built(B, kind, op):
    """The constructor rejects what the setters reject."""
    v = B.real("v", hi=0, lo=-5, sample=(-2, -0.1))
    B.assume(v < 0)
    kw = dict(wl_exc=0.45, pinhole_size=1) if kind == "confocal" else dict(wl_exc=0.45, na_exc=0.8, wiener=0.1, dc_suppress=False)
    if kind in ("sim2d", "sim3d"):
        kw["orientations"] = (0,)
    for bad, e in ((v, ValueError), ("1", Exception), (1j, Exception)):
        B.raises(e, lambda: S.make(B, kind, 2, **{**kw, op: bad}), "%s %r" % (op, "negative" if bad is v else bad))


def cases(tier):
    big = tier == "thorough"
    out = []
    k = dict(split=True, budget=200, qtimeout=1500, max_paths=20000)

    def add(name, fn, weight=10, **kw):
        out.append(Case(name, fn, weight=weight, **kw, **k))

    def seqs(ops, n):
        return [()] if not n else [(a,) + r for a in ops for r in seqs(ops, n - 1)]
    for size, f in ((3, 1), (1, 3), (2, 1)):
        def mk(B, size=size, f=f):
            return Confocal(B, size, f)
        for n in (1, 2) + ((3,) if big else ()):
            for ops in seqs(Confocal.OPS, n):
                add("confocal %d/%d: %s" % (size, f, ", ".join(ops)), history, weight=10 * size * n, make=mk, ops=ops, order=("PSF", "OTF") if n % 2 else ("OTF", "PSF"))
        add("confocal %d/%d read again" % (size, f), again, make=mk)
        for op in Confocal.OPS:
            add("confocal %d/%d rejects %s" % (size, f, op), rejected, make=mk, op=op)
    for kind in ("sim2d", "sim3d", "lattice"):
        for w in (None, 0.25):
            def mk(B, kind=kind, w=w):
                return Sim(B, kind, 3, 2 if kind == "lattice" else 1, w)
            nm = "%s, Wiener %s" % (kind, w)
            ops1 = Sim.OPS
            for ops in seqs(ops1, 1):
                add("%s: %s" % (nm, ops[0]), history, make=mk, ops=ops)
            if w is None and kind == "sim3d" or big:
                for ops in seqs(ops1, 2):
                    add("%s: %s" % (nm, ", ".join(ops)), history, weight=20, make=mk, ops=ops, reads=READS if big else ((), ("PSF",), ("OTF",)), order=("OTF", "PSF"))
            if big and w is None and kind != "lattice":
                for ops in seqs(ops1, 3):
                    add("%s: %s" % (nm, ", ".join(ops)), history, weight=20, make=mk, ops=ops, reads=((), ("PSF", "OTF")))
            add(nm + " read again", again, make=mk)
            if w is None:
                for op in Sim.OPS:
                    if op != "orientations":
                        add("%s rejects %s" % (nm, op), rejected, make=mk, op=op)
    for kind, ops in (("confocal", ("pinhole_size", "wl_exc")), ("sim2d", ("na_exc", "wl_exc", "wiener")), ("sim3d", ("na_exc", "wl_exc", "wiener")), ("lattice", ("na_exc", "wl_exc", "wiener"))):
        for op in ops:
            add("%s built with %s" % (kind, op), built, kind=kind, op=op)
    return out
