"""repr() of models and microscopes whose parameters are symbolic: a symbolic number prints as a name standing for it, the
text is parsed as a call, and each argument's value is compared with the setting of that name."""
import ast
import inspect
from fractions import Fraction as F

import numpy as np

from checks import scope as S
from sx import num as N
from sx.harness import Case
from sx.oracle import obj

BOUNDS = ("every real wl, na, ni, res, zres, pixel size, exc. wavelength and NA, pinhole size, wiener parameter and orientation within the models' limits; sizes 1..4, "
          "every vec_corr, condition and dual; z planes: up to 4 at any heights; every history of one assignment; oversampling 1, 3, 5")
ASSUMES = ["numbers print as Python and numpy print them (z planes and orientations in arrays: 8 digits)"]

REAL = dict(wl=(F(1, 2), F(7, 10)), na=(F(4, 5), 1), ni=(F(5, 4), 2), res=(F(1, 10), F(1, 5)), zres=(F(1, 20), F(3, 25)))


def text(B, x):
    """The call printed: name and arguments."""
    if B.sym:
        N.TOKENS[0] = []
    try:
        s = repr(x)
        t = str(x)
        B.same(len(s) > 0 and len(t) > 0, True, "text")
        env = list(N.TOKENS[0] or ())
    finally:
        N.TOKENS[0] = None

    def ev(n):
        if isinstance(n, ast.Name):
            if n.id.startswith("_sx"):
                return env[int(n.id[3:-1])]
            return n.id
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.UnaryOp):
            v = ev(n.operand)
            return -v if isinstance(n.op, ast.USub) else v
        if isinstance(n, (ast.List, ast.Tuple)):
            v = [ev(e) for e in n.elts]
            return v if isinstance(n, ast.List) else tuple(v)
        if isinstance(n, ast.Call) and n.args:
            return ev(n.args[0])
        raise ValueError(ast.dump(n))
    try:
        c = ast.parse(s.strip(), mode="eval").body
        args = {k.arg: ev(k.value) for k in c.keywords}
        if c.args:
            names = [p for p in inspect.signature(type(x).__init__).parameters if p not in ("self", "args", "kwargs")]
            args.update(zip(names, map(ev, c.args)))
        return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id, args
    except (SyntaxError, ValueError, AttributeError, IndexError) as e:
        B.claim(False, "repr is a call: %s in %r" % (e, s[:200]))
        return None, {}


def equal(B, got, want, label):
    if isinstance(want, (list, tuple)):
        w = list(want)
        if not isinstance(got, (list, tuple)):
            B.claim(False, label + " is a sequence")
            return
        B.same(len(got), len(w), "length of " + label)
        for i, (a, b) in enumerate(zip(got, w)):
            equal(B, a, b, "%s %d" % (label, i))
    elif want is None or isinstance(want, (str, bool)):
        B.same(got if not isinstance(want, bool) or isinstance(got, bool) else None, want, label)
    elif isinstance(got, (str, bool, list, tuple)) or got is None:
        B.claim(False, "%s is a number, %r" % (label, got))
    elif B.sym:
        B.eq(got, want, label, out=False)
    else:
        B.near(got, want, label, 1e-6, out=False)


def described(B, x, name, want):
    cls, args = text(B, x)
    B.same(cls, name, "class")
    for k, v in want.items():
        B.claim(k in args, k + " is shown")
        if k in args:
            equal(B, args[k], v, k)


def model(B, cls, how):
    c = {k: B.real(k, lo=lo, hi=hi) for k, (lo, hi) in REAL.items()}
    size, zsize = B.choice("sizes", ((1, 4), (2, 1), (3, 3)))
    v, cond = B.choice("kind", (("none", "herschel"), ("x", "none"), ("y", "sine"), ("z", "sine"), ("total", "none")))
    kw = dict(c, size=size, zsize=zsize, vec_corr=v, condition=cond)
    h = cls == "HanserPSF"
    want = dict(kw)
    if h:
        want["zrange"] = [(i - zsize // 2) * c["zres"] for i in range(zsize)]
    else:
        kw["dual"] = want["dual"] = B.choice("dual", (False, True))
    if how == "zrange":
        want["zrange"] = [B.real("z%d" % i, lo=-9, hi=9) for i in range(zsize)]
        kw["zrange"] = list(want["zrange"])
    m = getattr(B.m.otf, cls)(**kw)
    if how in REAL:
        want[how] = B.real("new", lo=REAL[how][0], hi=REAL[how][1])
        setattr(m, how, want[how])
        if h and how == "zres":
            want["zrange"] = [(i - zsize // 2) * want[how] for i in range(zsize)]
    elif how in ("size", "zsize"):
        want[how] = 5
        setattr(m, how, 5)
        if h and how == "zsize":
            want["zrange"] = [(i - 2) * c["zres"] for i in range(5)]
    elif how == "other":
        want["vec_corr"], want["condition"] = "y", "herschel"
        m.vec_corr, m.condition = "y", "herschel"
        if not h:
            want["dual"] = m.dual = not want["dual"]
    described(B, m, cls, want)


def fields(B, kind):
    if kind == "confocal":
        return dict(wl_exc=B.real("wl_exc", lo=F(2, 5), hi=F(7, 10)), pinhole_size=B.real("pinhole", lo=0, hi=9))
    if kind.startswith("sim") or kind == "lattice":
        d = dict(na_exc=B.real("na_exc", lo=F(1, 10), hi=1), wl_exc=B.real("wl_exc", lo=F(2, 5), hi=F(7, 10)),
                 wiener=B.real("wiener", lo=0, hi=9), dc_suppress=B.choice("dc_suppress", (False, True)))
        if kind != "lattice":
            d["orientations"] = [B.real("t%d" % i, lo=-3, hi=3) for i in range(2)]
        return d
    return {}


def micro(B, kind, model, f, how=None):
    size = 2
    px = B.real("pixel", lo=F(1, 20), hi=F(3, 25))
    c = {k: B.real(k, lo=lo, hi=hi) for k, (lo, hi) in REAL.items() if k not in ("res", "zres")}
    more = B.choice("more", ({}, dict(vec_corr="none", condition="none"), dict(vec_corr="total", condition="sine")))
    if more:
        more = dict(more)
        more.update(zsize=3, zres=B.real("zres", lo=F(1, 20), hi=F(3, 25)))
    own = fields(B, kind)
    nulls = {k: None for k in ("na_exc", "wl_exc", "wiener") if kind[0] in "sl"} if how == "none" else {}
    kw = dict(c, size=size, model=model, pixel_size=px, oversample_factor=f, **more, **dict(own, **nulls))
    m = getattr(B.m.microscope, S.CLS[kind])(**kw)
    want = dict(c, size=size, model=model, pixel_size=px, oversample_factor=f, **more, **own)
    if how == "none":
        want.update(na_exc=c["na"], wl_exc=c["wl"], wiener=None)
    elif how:
        new = dict(dc_suppress=not own.get("dc_suppress")) if how == "dc_suppress" else dict(orientations=(0.5, 0.25, 1.5)) if how == "orientations" else {how: B.real("new", lo=F(1, 2), hi=F(3, 5))}
        for k, v in new.items():
            setattr(m, k, v)
        want.update(new)
    described(B, m, S.CLS[kind], want)


def cases(tier):
    k = dict(split=True, qtimeout=2000, budget=200)
    out = []
    for cls in ("HanserPSF", "SheppardPSF"):
        for how in (None, "wl", "na", "ni", "res", "zres", "size", "zsize", "other") + (("zrange",) if cls[0] == "H" else ()):
            out.append(Case("%s, %s" % (cls, how or "as built"), model, cls=cls, how=how, **k))
    for kind in S.CLS:
        hows = [None]
        if kind == "confocal":
            hows += ["wl_exc", "pinhole_size"]
        if kind[0] in "sl" and kind != "widefield":
            hows += ["none", "na_exc", "wl_exc", "wiener", "dc_suppress", "orientations"]
        for f in (1, 3, 5) if tier == "thorough" else (1, 3):
            for how in hows:
                for mod in ("hanser", "sheppard") if how is None else ("hanser",):
                    out.append(Case("%s of %s, factor %d%s" % (kind, mod, f, ", " + how if how else ""), micro, kind=kind, model=mod, f=f, how=how, **k))
    return out
