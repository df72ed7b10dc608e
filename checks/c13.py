"""slice_maker on symbolic real (and integer) centres and widths, with the array length and the index
that is tested symbolic too: the solver decides for all of them at once whether the slice selects
exactly the requested window."""
from sx.harness import Case

BOUNDS = "all real centres and widths up to 1e6 in magnitude, every array length 1..1e6 and index; 1 to 3 axes (4 thorough)"


def start_stop(B, s, L):
    """Python's rule for slicing a sequence of length L (step 1)."""
    def norm(v, d):
        if v is None:
            return d
        if v < 0:
            v = v + L
            return v if v >= 0 else 0
        return v if v <= L else L

    return norm(s.start, 0), norm(s.stop, L)


def check(B, xs, ws, sl):
    B.same(type(sl), tuple, "tuple of slices")
    B.same(len(sl), len(xs), "one slice per axis")
    L = B.int("L", 1, 10 ** 6)
    i = B.int("i", 0, 10 ** 6)
    B.assume(i < L)
    for k, (x, w, s) in enumerate(zip(xs, ws, sl)):
        B.claim(isinstance(s, slice) and s.step in (None, 1), "a plain slice")
        X, W = rnd(B, x), rnd(B, w)
        a, b = start_stop(B, s, L)
        sel = (a <= i) & (i < b)
        lo = X - W // 2
        want = (lo <= i) & (i < lo + W)
        B.claim((sel & want) | (~sel & ~want) if B.sym else bool(sel) == bool(want), "axis %d selects the window" % k)


def rnd(B, v):
    r = B.np.rint(v)
    return r.astype(int) if B.sym else int(r)


def values(B, name, n, kind):
    if kind == "int":
        return [B.int("%s%d" % (name, k), -10 ** 6, 10 ** 6) for k in range(n)]
    return [B.real("%s%d" % (name, k), -10.0 ** 6, 10.0 ** 6, sample=(-30, 30)) for k in range(n)]


def window(B, n, xk, wk, seq, form):
    xs = values(B, "x", n, xk)
    ws = values(B, "w", n if seq else 1, wk)
    arg_w = (tuple(ws) if form == "tuple" else list(ws) if form == "list" else B.arr(ws)) if seq else ws[0]
    arg_x = tuple(xs) if form == "tuple" else list(xs) if form == "list" else B.arr(xs)
    neg = ws[0] < 0
    for w in ws[1:]:
        neg = neg | (w < 0)
    if neg:
        B.raises(ValueError, lambda: B.m.utils.slice_maker(arg_x, arg_w), "negative width")
        return
    check(B, xs, ws if seq else ws * n, B.m.utils.slice_maker(arg_x, arg_w))


def cplx(B, which):
    x = B.array("x", (2,), "c" if which != "w" else "f")
    w = B.array("w", (2,), "c" if which != "x" else "f", **({} if which != "x" else {"lo": 0}))
    B.raises(TypeError, lambda: B.m.utils.slice_maker(list(x), list(w)), "complex input")


def cases(tier):
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for xk in ("real", "int"):
            for wk in ("real", "int"):
                for seq in (False, True):
                    out.append(Case("%d axes x %s w %s %s" % (n, xk, wk, "per axis" if seq else "shared"), window, n=n, xk=xk, wk=wk,
                                    seq=seq, form="tuple", weight=n, budget=200, qtimeout=20000))
    out.append(Case("lists", window, n=2, xk="real", wk="real", seq=True, form="list"))
    out.append(Case("arrays", window, n=2, xk="real", wk="int", seq=True, form="array"))
    out.append(Case("3 axes shared", window, n=3, xk="int", wk="int", seq=False, form="tuple", budget=200))
    for w in ("x", "w", "xw"):
        out.append(Case("complex " + w, cplx, which=w))
    return out
