"""Constructing PSF models from, and assigning to them, symbolic values of any sign: the solver decides whether
precisely the unphysical ones are rejected, and whether a rejected one leaves the model as it was."""
from fractions import Fraction as F

from sx.harness import Case
from sx import optics as O

BOUNDS = ("all real wl, na, ni, res, zres up to 100 in magnitude (wl and na not 0; ni not 0 for Sheppard), integers likewise, size and zsize -10**6..10**6 (Hanser zsize up to 4); "
          "before a rejected assignment: none, one or all arrays read; models of size 3 (Hanser 3x2, Sheppard 3x2)")
ATTRS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")
ARR = ("PSFa", "OTFa", "PSFi", "OTFi")


def val(B, name, ints=False, sample=(-2, 2)):
    if ints:
        return B.int(name, -100, 100, sample=(-3, 600))
    return B.real(name, lo=-100, hi=100, sample=sample)


def cls(B, kind):
    return getattr(B.m.otf, kind)


def construct(B, kind, ints, zres, extra=None):
    """Every combination of values."""
    wl, na, ni, res = (val(B, n, ints and n != "na", s) for n, s in (("wl", (-0.1, 0.9)), ("na", (-0.1, 1.2)), ("ni", (-0.1, 1.5)), ("res", (0, 0.6))))
    size = B.int("size", -10, 10 ** 6) if kind == "SheppardPSF" else B.int("size", -10, 4)
    zs = B.int("zsize", -10, 4)
    B.assume(wl != 0)
    B.assume(na != 0)
    if kind == "SheppardPSF":
        B.assume(ni != 0)
    kw = dict(wl=wl, na=na, ni=ni, res=res, size=size, zsize=zs)
    if zres:
        kw["zres"] = z = val(B, "zres", ints, (-0.1, 0.4))
    else:
        z = res
    ok = wl > 0 and na > 0 and ni >= 0 and size >= 0 and zs >= 0 and z > 0
    if ok:
        ok = 2 * na * res < wl
    if ok and kind == "SheppardPSF":
        ok = 2 * ni * z < wl
    if not ok:
        B.raises(ValueError, lambda: cls(B, kind)(**kw), "unphysical parameters rejected")
        return
    m = cls(B, kind)(**kw)
    for n, v in (("wl", wl), ("na", na), ("ni", ni), ("res", res), ("zres", z), ("size", size), ("zsize", zs)):
        B.eq(getattr(m, n), v, n + " read back")
    B.same((m.vec_corr, m.condition), ("none", "sine"), "defaults")


def words(B, kind):
    """Options and types at construction."""
    good = dict(wl=0.5, na=1.0, ni=1.3, res=0.1, size=3, zres=0.1, zsize=2)
    C = cls(B, kind)
    for v in ("none", "x", "y", "z", "total"):
        B.same(C(**good, vec_corr=v).vec_corr, v, "vec_corr " + v)
    for v in ("none", "sine", "herschel"):
        B.same(C(**good, condition=v).condition, v, "condition " + v)
    for v in ("", "X", "xy", "nonsense", "sine", "totaL"):
        B.raises(ValueError, lambda: C(**good, vec_corr=v), "vec_corr %r rejected" % v)
    for v in ("", "Sine", "abbe", "x", "total"):
        B.raises(ValueError, lambda: C(**good, condition=v), "condition %r rejected" % v)
    for n in ("wl", "na", "ni", "size", "zsize"):
        for bad in ("1", 1j, [1]):
            B.raises(TypeError, lambda: C(**{**good, n: bad}), "%s=%r rejected" % (n, bad))
    for n in ("wl", "na", "ni", "size"):
        B.raises(TypeError, lambda: C(**{**good, n: None}), "%s=None rejected" % n)
    r = B.real("r", lo=0, hi=10)
    for n in ("size", "zsize"):
        B.raises(TypeError, lambda: C(**{**good, n: r}), "real %s rejected" % n)
    if kind == "SheppardPSF":
        for v in (True, False):
            B.claim(C(**good, dual=v).dual is v, "dual")
        for v in (1, 0, "x", None, 0.5):
            B.raises((TypeError, ValueError), lambda: C(**good, dual=v), "dual=%r rejected" % (v,))
            m = C(**good, dual=True)
            B.raises((TypeError, ValueError), lambda: setattr(m, "dual", v), "assigning dual=%r rejected" % (v,))
            B.claim(m.dual is True, "dual kept")


def make(B, kind):
    return O.P(wl=B.const(F(1, 2)), na=B.const(F(9, 10)), ni=B.const(F(13, 10)), res=B.const(F(1, 10)), size=3, zres=B.const(F(1, 8)), zsize=2,
               vec_corr="none", condition="sine")


READS = ((), ("PSFa",), ("OTFa",), ("PSFi",), ("OTFi",), ARR)


def assign(B, kind, attr, ints, pupil=False):
    """A model at symbolic wl, na, ni; then any value assigned."""
    sym = B.choice("free model", (False, True)) if attr in ("res", "zres") else False
    if sym:
        wl, na, ni = (B.real(n, pos=True, hi=100, sample=s) for n, s in (("wl", (0.4, 0.8)), ("na", (0.3, 1.2)), ("ni", (1.1, 1.5))))
        r0, z0 = (B.real(n, pos=True, hi=100, sample=(0.02, 0.15)) for n in ("r0", "z0"))
        B.assume(2 * na * r0 < wl)
        if kind == "SheppardPSF":
            B.assume(2 * ni * z0 < wl)
        kw = dict(wl=wl, na=na, ni=ni, res=r0, size=3, zres=z0, zsize=2)
        m = cls(B, kind)(**kw)
        reads = ()
    else:
        p = make(B, kind)
        kw = p.args()
        wl, na, ni = p.wl, p.na, p.ni
        m = cls(B, kind)(**kw)
        reads = B.choice("read before", READS)
    if kind == "HanserPSF" and pupil:
        m.apply_pupil(B.array("pupil", (3, 3), "c"))
    before = {a: getattr(m, a).copy() for a in reads}
    if attr in ("size", "zsize"):
        v = B.int("v", -10 ** 6, 4 if (kind, attr) == ("HanserPSF", "zsize") else 10 ** 6, sample=(-3, 5))
        ok = v >= 0
    else:
        v = val(B, "v", ints, {"res": (0, 0.5), "zres": (-0.1, 0.4)}.get(attr, (-1, 2)))
        if attr == "res":
            ok = 2 * na * v < wl
        elif attr == "zres":
            ok = v > 0
            if ok and kind == "SheppardPSF":
                ok = 2 * ni * v < wl
        else:
            ok = v >= 0
    params = {a: getattr(m, a) for a in ATTRS}
    if ok:
        setattr(m, attr, v)
        B.eq(getattr(m, attr), v, "assigned value read back")
        for a in ATTRS:
            if a != attr:
                (B.same if a in ("vec_corr", "condition") else B.eq)(getattr(m, a), params[a], a + " unaffected")
    else:
        B.raises(ValueError, lambda: setattr(m, attr, v), "unphysical value rejected")
        intact(B, m, params, before, kind, kw if not pupil else None)


def intact(B, m, params, before, kind, kw):
    for a in ATTRS:
        (B.same if a in ("vec_corr", "condition") else B.eq)(getattr(m, a), params[a], a + " as before")
    if kind == "HanserPSF":
        B.eq(m.zrange, [(i - m.zsize // 2) * params["zres"] for i in range(2)], "zrange as before")
    for a, x in before.items():
        B.eq(getattr(m, a), x, a + " as before")
    if kw and before == {}:
        return
    if kw:
        f = cls(B, kind)(**kw)
        for a in ARR:
            B.eq(getattr(m, a), getattr(f, a), a + " as a fresh model's")


def badtype(B, kind, pupil):
    p = make(B, kind)
    m = cls(B, kind)(**p.args())
    if kind == "HanserPSF" and pupil:
        m.apply_pupil(B.array("pupil", (3, 3), "c"))
    reads = B.choice("read before", READS)
    before = {a: getattr(m, a).copy() for a in reads}
    params = {a: getattr(m, a) for a in ATTRS}
    r = B.real("r", lo=-5, hi=5)
    for attr, bad, exc in (("wl", "1", TypeError), ("na", None, TypeError), ("ni", 1j, TypeError), ("size", 2.0, TypeError), ("zsize", "2", TypeError), ("size", r, TypeError),
                           ("zsize", r, TypeError), ("vec_corr", "w", ValueError), ("vec_corr", "", ValueError), ("condition", "w", ValueError), ("condition", "Sine", ValueError),
                           ("zres", 0, ValueError), ("zres", -0.1, ValueError), ("res", 5, ValueError), ("wl", -1, ValueError)):
        B.raises(exc, lambda: setattr(m, attr, bad), "%s=%s rejected" % (attr, "real" if bad is r else repr(bad)))
        intact(B, m, params, before, kind, None)
    intact(B, m, params, before, kind, None if pupil else p.args())


def cases(tier):
    out = []
    for kind in ("HanserPSF", "SheppardPSF"):
        for ints in (False, True):
            for zres in (True, False):
                out.append(Case("construct %s%s%s" % (kind, " ints" if ints else "", "" if zres else " default zres"), construct, split=True, kind=kind, ints=ints, zres=zres, weight=20, budget=300))
        out.append(Case("words and types %s" % kind, words, split=True, kind=kind))
        for attr in ("wl", "na", "ni", "res", "zres", "size", "zsize"):
            for ints in (False, True) if attr not in ("size", "zsize") else (False,):
                out.append(Case("assign %s.%s%s" % (kind, attr, " int" if ints else ""), assign, split=True, kind=kind, attr=attr, ints=ints, weight=10, budget=300))
            if kind == "HanserPSF":
                out.append(Case("assign %s.%s with a pupil" % (kind, attr), assign, split=True, kind=kind, attr=attr, ints=False, pupil=True, weight=10, budget=300))
        out.append(Case("wrong types %s" % kind, badtype, split=True, kind=kind, pupil=False))
    out.append(Case("wrong types HanserPSF with a pupil", badtype, split=True, kind="HanserPSF", pupil=True))
    return out
