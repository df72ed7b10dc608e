"""Histories of assignments, pupil applications and reads on a symbolic model: the operations and which arrays were read
before are branched on, the values are free; every array is compared with a freshly constructed model's."""
from fractions import Fraction as F

from sx.harness import Case
from sx import optics as O

BOUNDS = ("Hanser 3x2 (sizes 2 to 4 by assignment), Sheppard 3x2; every history of 1 operation with every subset of arrays read before, "
          "every pair of operations with none, one or all arrays read before each (triples thorough); all values of the assigned reals, z planes and pupils (two samples of them, quick) within the model's limits; "
          "other parameters: one representative set")
ARR = ("PSFa", "OTFa", "PSFi", "OTFi")
ALL = tuple(tuple(a for i, a in enumerate(ARR) if n >> i & 1) for n in range(16))
FEW = (("OTFa",), (), ("PSFi",), ARR)
HOPS = ("wl", "na", "ni", "res", "size", "zsize", "zres", "vec_corr", "condition", "zrange", "pupil")
SOPS = ("wl", "na", "ni", "res", "size", "zsize", "zres", "vec_corr", "condition", "dual")


class Spec:
    """What the model's current settings are."""

    full = False  # every sample of a pupil free

    def __init__(self, B, kind, vec, cond):
        self.B, self.kind = B, kind
        self.p = O.P(wl=B.const(F(1, 2)), na=B.const(F(21, 20)), ni=B.const(F(13, 10)), res=B.const(F(1, 5)) if kind == "HanserPSF" else B.const(F(3, 20)), size=3, zres=B.const(F(1, 8)), zsize=2,
                     vec_corr=vec, condition=cond)
        self.zs = self.pupil = None
        self.dual = False
        self.m = getattr(B.m.otf, kind)(**self.p.args())

    def fresh(self):
        kw = self.p.args()
        if self.kind == "SheppardPSF":
            kw["dual"] = self.dual
        elif self.zs is not None:
            kw["zrange"] = list(self.zs)
        f = getattr(self.B.m.otf, self.kind)(**kw)
        if self.pupil is not None:
            f.apply_pupil(self.pupil)
        return f

    def set(self, **k):
        for a, v in k.items():
            setattr(self.m, a, v)
            if a == "zrange":
                self.zs = list(v)
            elif a == "dual":
                self.dual = v
            else:
                setattr(self.p, a, v)
                if a in ("zres", "zsize"):
                    self.zs = None
        self.pupil = None

    def apply(self, op, tag):
        B, p = self.B, self.p
        if op in ("wl", "na", "ni", "res", "zres"):
            lo, hi = {"wl": (F(9, 20), F(7, 10)), "na": (F(4, 5), F(21, 20)), "ni": (F(6, 5), F(7, 5)), "res": (F(1, 10), F(6, 25)), "zres": (F(1, 10), F(1, 6))}[op]
            v = B.real(op + tag, lo=lo, hi=hi, sample=(float(lo), float(hi)))
            B.assume(v != getattr(p, op))
            # stay within the physical range, as the constructor would insist
            q = p.but(**{op: v})
            B.assume(2 * q.na * q.res < q.wl)
            if self.kind == "SheppardPSF":
                B.assume(2 * q.ni * q.zres < q.wl)
            self.set(**{op: v})
        elif op == "size":
            self.set(size=B.choice("size" + tag, tuple(n for n in (2, 4) if n != p.size)))
        elif op == "zsize":
            self.set(zsize=B.choice("zsize" + tag, tuple(n for n in ((1, 3) if self.kind == "HanserPSF" else (3, 4)) if n != p.zsize)))
        elif op == "vec_corr":
            self.set(vec_corr=B.choice("vec" + tag, tuple(v for v in ("none", "y", "total") if v != p.vec_corr)))
        elif op == "condition":
            self.set(condition=B.choice("cond" + tag, tuple(v for v in ("none", "sine", "herschel") if v != p.condition)))
        elif op == "dual":
            self.set(dual=not self.dual)
        elif op == "zrange":
            self.set(zrange=B.array("z" + tag, (B.choice("planes" + tag, (2, 1)),), "f", lo=-2, hi=2))
        elif op == "pupil":
            if self.full:
                P = B.array("pupil" + tag, (p.size, p.size), "c")
            else:
                # two free samples, one of them at zero frequency; the others nonzero
                P = B.arr([[1.5 if (i + 2 * j) % 3 else 0.5 + 0.75j for j in range(p.size)] for i in range(p.size)], complex)
                for n, q in enumerate(((0, 0), (1, p.size - 1))):
                    P[q] = B.real("p%d%s" % (n, tag)) + 1j * B.real("q%d%s" % (n, tag))
            self.m.apply_pupil(P)
            self.pupil = P

    def check(self, order, label=""):
        B, m = self.B, self.m
        p = self.p
        f = self.fresh()
        for a in ("wl", "na", "ni", "res", "size", "zres", "zsize"):
            B.eq(getattr(m, a), getattr(p, a), a + label)
        B.same((m.vec_corr, m.condition), (p.vec_corr, p.condition), "options" + label)
        if self.kind == "HanserPSF":
            B.eq(m.zrange, self.zs if self.zs is not None else [(i - p.zsize // 2) * p.zres for i in range(p.zsize)], "zrange" + label)
        else:
            B.same(m.dual, self.dual, "dual" + label)
        for a in order:
            B.eq(getattr(m, a), getattr(f, a), a + label)


def read(m, names):
    for a in names:
        getattr(m, a)


def history(B, kind, ops, vec, cond, reads, last, full=False):
    s = Spec(B, kind, vec, cond)
    s.full = full
    for n, op in enumerate(ops):
        read(s.m, B.choice("read%d" % n, reads))
        s.apply(op, str(n))
    s.check(B.choice("order", last))


ORDERS = (ARR, ARR[::-1], ("PSFi", "OTFa", "PSFa", "OTFi"), ("OTFi", "PSFa", "OTFa", "PSFi"))


def same_zres(B):
    """Assigning the value it already has puts the default planes back too."""
    s = Spec(B, "HanserPSF", "none", "none")
    z = B.array("z", (2,), "f", lo=-2, hi=2)
    s.set(zrange=z)
    read(s.m, B.choice("read", FEW))
    if B.choice("which", ("zres", "zsize")) == "zres":
        s.set(zres=s.p.zres)
    else:
        s.set(zsize=s.p.zsize)
    s.check(ARR)


def twice(B, kind, vec):
    """Reading does not change anything; the reads stay equal in any order."""
    s = Spec(B, kind, vec, "sine")
    order = B.choice("order", ORDERS)
    first = {a: getattr(s.m, a).copy() for a in order}
    for a in ARR:
        B.eq(getattr(s.m, a), first[a], a + " read again")
    s.check(ORDERS[0])


def given(B, n):
    """zrange at construction, scalar or list."""
    s = Spec(B, "HanserPSF", "none", "sine")
    z = [B.real("z%d" % i, lo=-2, hi=2) for i in range(n or 1)]
    m = B.m.otf.HanserPSF(zrange=z if n else z[0], **s.p.args())
    s.set(zrange=z if n else [z[0]])
    B.eq(m.zrange, z, "zrange kept")
    for a in ARR:
        B.eq(getattr(m, a), getattr(s.m, a), a)
    if not n:
        s.m.zrange = z[0]
        B.eq(s.m.zrange, z, "scalar zrange")
        B.eq(s.m.PSFi, m.PSFi, "PSFi of a scalar zrange")


def cases(tier):
    big = tier == "thorough"
    out = []
    for kind, ops in (("HanserPSF", HOPS), ("SheppardPSF", SOPS)):
        w = 4 if kind == "SheppardPSF" else 1
        vecs = ("none",) if not big else ("none", "x", "total")
        for op in ops:
            for vec in vecs:
                out.append(Case("%s %s %s" % (kind, op, vec), history, split=True, kind=kind, ops=(op,), vec=vec, cond="sine", reads=ALL, last=ORDERS if big else ORDERS[1:3], full=big, weight=20 * w, budget=400, qtimeout=1500, max_paths=20000))
            for op2 in ops:
                out.append(Case("%s %s, %s" % (kind, op, op2), history, split=True, kind=kind, ops=(op, op2), vec="none", cond="none", reads=(FEW if big else FEW[1:]) if kind == "HanserPSF" else ((), ARR), last=ORDERS[:1], weight=15 * w, budget=400, qtimeout=1500, max_paths=20000))
                if big:
                    for op3 in ops:
                        out.append(Case("%s %s, %s, %s" % (kind, op, op2, op3), history, split=True, kind=kind, ops=(op, op2, op3), vec="none", cond="none", reads=((), ARR), last=ORDERS[:1], weight=15 * w, budget=400, qtimeout=1500, max_paths=20000))
        for vec in ("none", "y"):
            out.append(Case("%s twice %s" % (kind, vec), twice, split=True, kind=kind, vec=vec))
    out.append(Case("default planes again", same_zres, split=True))
    for n in (None, 1, 2, 3):
        out.append(Case("zrange of %s" % n, given, split=True, n=n))
    return out
