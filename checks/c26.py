"""labview() executed with every argument symbolic.  Plumbing: retrieve_phase is replaced by a recorder and what reaches it is
compared with prep_data_for_PR's output and the arguments by name.  End to end: whole retrievals, both ways, on small data."""
import inspect
from fractions import Fraction as F

import numpy as np

from sx import shims
from sx.harness import Case
from sx.oracle import obj

BOUNDS = ("plumbing: integer stacks up to 2x3x3 with every value 0..5 (free voxels: up to 4), every real argument; whole retrievals of 1x2x2 and 2x2x2 voxels, 1 and 2 iterations, each optical parameter and tolerance free in turn")
ASSUMES = ["skimage's unwrap_phase is a function of the wrapped phase adding a multiple of 2 pi to each pixel"]

NAMES = ("wl", "na", "ni", "res", "zres")
SETTINGS = ("max_iters", "pupil_tol", "mse_tol", "phase_only")
DEFAULT = dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False)


def stack(B, shape, free, top=5):
    """Nested lists of integers; voxels outside `free` are fixed."""
    rows = []
    for l in range(shape[0]):
        rows.append([[B.int("x%d%d%d" % (l, i, j), 0, top) if free is None or (l, i, j) in free else (3 * l + 2 * i + j) % 4 for j in range(shape[2])] for i in range(shape[1])])
    return rows


def as_form(B, rows, form):
    if form == "tuple":
        return tuple(tuple(tuple(r) for r in p) for p in rows)
    if form == "list":
        return [[list(r) for r in p] for p in rows]
    return B.arr(rows, int)


class Recorder:
    """In place of retrieve_phase."""

    def __init__(self, B, n):
        self.B, self.calls = B, []
        self.real = B.m.phaseretrieval.retrieve_phase
        self.sig = inspect.signature(self.real)
        self.phase = B.array("phase", (n, n))

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        self.calls.append(b.arguments)

        class Result:
            phase = self.phase
            mag = self.phase * 0 + 1
        return Result

    def __enter__(self):
        self.where = []
        for m in (self.B.m.labview, self.B.m.phaseretrieval):
            for k, v in list(vars(m).items()):
                if v is self.real:
                    self.where.append((m, k))
                    setattr(m, k, self)
        return self

    def __exit__(self, *a):
        for m, k in self.where:
            setattr(m, k, self.real)


def nested(B, got, want, label):
    """Lists of lists of plain numbers."""
    B.same(type(got), list, label + " is a list")
    B.claim(isinstance(got, list) and all(isinstance(r, list) for r in got), label + " has lists as rows")
    if isinstance(got, list) and all(isinstance(r, list) for r in got):
        B.same(tuple(len(r) for r in got), (want.shape[1],) * want.shape[0], label + " shape")
        if [len(r) for r in got] == [want.shape[1]] * want.shape[0]:
            B.eq(B.arr(got), want, label)
        if not B.sym:
            B.claim(all(isinstance(v, float) for r in got for v in r), label + " of floats")


def plumb(B, shape, free, form, how, given):
    rows = stack(B, shape, free)
    data = as_form(B, rows, form)
    opt = {k: B.real(k, pos=True, sample=(0.1, 2)) for k in NAMES}
    s = dict(DEFAULT)
    vals = {}
    for k in SETTINGS:
        if k in given:
            vals[k] = B.int(k, 1, 500) if k == "max_iters" else B.choice(k, (True, False)) if k == "phase_only" else B.real(k, sample=(0, 1))
    s.update(vals)
    n = max(shape[1:])
    rec = Recorder(B, n)
    with rec:
        if how == "position":
            args = [data] + [opt[k] for k in NAMES] + [vals[k] for k in SETTINGS[:len(vals)]]
            out = B.m.labview.labview(*args)
        else:
            out = B.m.labview.labview(data=data, **dict(reversed(list(vals.items()))), **dict(reversed(list(opt.items()))))
    B.assume(len(rec.calls) > 0)  # otherwise only the whole retrievals decide
    a = rec.calls[-1]
    want = B.m.utils.prep_data_for_PR(B.arr(rows, int))
    B.eq(a["data"], want, "data")
    p = dict(a["params"])
    for k in ("vec_corr", "condition", "size", "zsize"):
        p.pop(k, None)  # retrieve_phase sets these itself
    B.same(sorted(p), sorted(NAMES), "optical parameters")
    for k in NAMES:
        if k in p:
            B.eq(p[k], opt[k], k)
    for k in SETTINGS:
        if k == "phase_only":
            B.same(bool(a[k]), s[k], k)
        else:
            B.eq(a[k], s[k], k)
    nested(B, out, rec.phase, "phase")


def whole(B, shape, free, form, iters, which, phase_only, given=SETTINGS):
    """No stand-in but unwrap_phase's."""
    rows = stack(B, shape, free, top=3)
    opt = dict(wl=B.const(F(1, 2)), na=B.const(F(1)), ni=B.const(F(3, 2)), res=B.const(F(1, 5)), zres=B.const(F(1, 4)))
    tol = dict(pupil_tol=-1, mse_tol=-1)
    if which in opt:
        lo, hi = dict(wl=(F(9, 20), F(11, 20)), na=(F(9, 10), F(11, 10)), ni=(F(5, 4), F(2)), res=(F(3, 20), F(11, 50)), zres=(F(1, 10), F(1, 2)))[which]
        opt[which] = B.real(which, lo=lo, hi=hi)
    elif which in tol:
        tol[which] = B.real(which, sample=(0, 0.2))
    s = dict(max_iters=iters, phase_only=phase_only, **tol)

    def call(f):
        if B.sym:
            shims._unwrap_count[0] = 1000  # the same function of the image both times
        return f()
    data = B.m.utils.prep_data_for_PR(B.arr(rows, int))
    want = call(lambda: B.m.phaseretrieval.retrieve_phase(data, dict(opt), s["max_iters"], s["pupil_tol"], s["mse_tol"], s["phase_only"])).phase
    got = call(lambda: B.m.labview.labview(as_form(B, rows, form), opt["wl"], opt["na"], opt["ni"], opt["res"], opt["zres"], s["max_iters"], s["pupil_tol"], s["mse_tol"], s["phase_only"]))
    nested(B, got, want, "phase")


def cases(tier):
    big = tier == "thorough"
    out = []
    few = {(0, 0, 0), (0, 1, 1), (0, 0, 1)}
    for form in ("list", "tuple", "array"):
        for how in ("position", "name"):
            out.append(Case("arguments %s by %s" % (form, how), plumb, split=True, shape=(1, 2, 2), free=few, form=form, how=how, given=SETTINGS, weight=5))
    for k in range(4):
        out.append(Case("first %d settings" % k, plumb, shape=(2, 2, 2), split=True, free={(0, 1, 1)}, form="list", how="position", given=SETTINGS[:k]))
    for k in SETTINGS:
        out.append(Case("only %s" % k, plumb, shape=(1, 3, 3), split=True, free={(0, 1, 1)}, form="list", how="name", given=(k,)))
    for s in ((1, 2, 1), (2, 1, 2), (2, 3, 2), (2, 3, 3)):
        out.append(Case("stack %dx%dx%d" % s, plumb, split=True, shape=s, free={(0, 0, 0), (s[0] - 1, s[1] - 1, 0)}, form="list", how="position", given=(), weight=5))
    if big:
        out.append(Case("stack 1x2x2 all free", plumb, split=True, shape=(1, 2, 2), free=None, form="list", how="position", given=SETTINGS, weight=50, budget=900))
        out.append(Case("stack 1x2x3 4 free", plumb, split=True, shape=(1, 2, 3), free={(0, 0, 0), (0, 1, 1), (0, 0, 1), (0, 1, 2)}, form="list", how="position", given=SETTINGS, weight=50, budget=900))
    for which in NAMES + ("pupil_tol", "mse_tol", None):
        for po in (False, True):
            for it in (1, 2) if which not in NAMES else (1,):
                out.append(Case("whole %s %s iterations %d" % (which, "phase only" if po else "", it), whole, split=True, shape=(2, 2, 2) if which != "na" else (1, 2, 2), free={(0, 1, 1)} if which is None else set(), form="list", iters=it, which=which, phase_only=po, qtimeout=500, budget=90, weight=15))
    return out
