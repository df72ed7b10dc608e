"""Runs one case on two backends: symbolically (every path, claims decided by the solver) and
numerically on the real package (replay of counterexamples, validation of the encoding)."""
import contextlib
import io
import json
import math
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import ctx as C
from . import load
from . import num as N
from . import snp
from .num import SNum, SBool, SymControl, Unsupported, PathAbort


class AssumeFailed(Exception):
    """Numeric inputs outside the assumptions of the case."""


class Case:
    """A property instance: fn(B, **kw)."""

    def __init__(self, name, fn, split=False, budget=60, max_paths=5000, qtimeout=6000, weight=1, vtol=1e-6, ntol=1e-7,
                 nonzero_div=True, validate=2, **kw):
        self.name, self.fn, self.split, self.budget, self.kw = name, fn, split, budget, kw
        self.max_paths, self.qtimeout, self.weight = max_paths, qtimeout, weight
        self.vtol, self.ntol, self.nonzero_div, self.validate = vtol, ntol, nonzero_div, validate


# ------------------------------------------------------------------------------------------
class SymB:
    sym = True

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.m = load.SymPackage()
        self.np = snp.NP
        self.claims = []  # (label, kind, payload)
        self.pairs = {}  # claim number -> compared pairs of terms
        self.outputs = []
        self.choices = {}
        self.boxes = {}
        self.samplers = {}
        self.facts = []

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, sample=None, open_lo=False):
        if lo is not None and lo >= 0:
            nonneg = True
            if lo > 0 or open_lo:
                pos = True
        x = N.var(name, pos=pos, nonneg=nonneg)
        self._reg(name, x)
        self.samplers[name] = (tuple(sample[:2]) + (False,)) if sample else (lo if lo is not None else (0.2 if pos or nonneg else -1.0),
                                         hi if hi is not None else (2.0 if lo is None or lo < 2 else lo * 2.0), False)
        if lo is not None and not (lo == 0 and nonneg):
            self.ctx.assume(x > lo if open_lo else x >= lo)
        if hi is not None:
            self.ctx.assume(x <= hi)
            if lo is not None:
                self.boxes[next(iter(N.MONOS[next(iter(x.t))][0]))[0]] = max(abs(lo), abs(hi))
        return x

    def int(self, name, lo=None, hi=None, sample=None, dtype=None):
        x = N.var(name, isint=True, pos=lo is not None and lo > 0, nonneg=lo is not None and lo >= 0)
        self._reg(name, x)
        self.samplers[name] = (tuple(sample[:2]) + (True,)) if sample else (lo if lo is not None else -20, hi if hi is not None else (lo or 0) + 20, True)
        if lo is not None and lo != 0:
            self.ctx.assume(x >= lo)
        if hi is not None:
            self.ctx.assume(x <= hi)
        if dtype is not None:
            snp.declare_range(x, np.dtype(dtype))
        return x

    def _reg(self, name, x):
        m = next(iter(x.t))
        gid = N.MONOS[m][0][0][0]
        self.ctx.vars[name] = gid
        C.TR.gen(gid, set())

    def array(self, name, shape, kind="f", lo=None, hi=None, dtype=None, pos=False, nonneg=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, object)
        for i in np.ndindex(*shape):
            nm = name + "_" + "_".join(map(str, i))
            if kind == "f":
                out[i] = self.real(nm, lo, hi, pos=pos, nonneg=nonneg)
            elif kind == "i":
                out[i] = self.int(nm, lo, hi, dtype=dtype)
            elif kind == "c":
                out[i] = (self.real(nm + "r") + self.real(nm + "i") * N.IMAG).with_ty("c")
        dt = np.dtype(dtype) if dtype is not None else {"f": snp.F64, "i": snp.I64, "c": snp.C128}[kind]
        return snp.from_objects(out, dt)

    def choice(self, name, options):
        i = self.ctx.choose(len(options))
        self.choices[name] = i
        return options[i]

    def const(self, x):
        """A concrete value that must be treated exactly (fractions allowed)."""
        return N.lift(x) if isinstance(x, Fraction) else x

    def assume(self, c):
        if isinstance(c, snp.SymArray):
            for v in c.a.flat:
                self.ctx.assume(v)
            return
        self.ctx.assume(c if isinstance(c, (bool, np.bool_)) is False or type(c) is SBool else bool(c))

    # ---- claims
    def eq(self, a, b, label, tol=None, scale=None, out=True):
        A, Bb = _obj(a), _obj(b)
        if out:
            self.outputs.append((label, A))
        if A.shape != Bb.shape:
            self.claims.append((label, "false", "shape %s instead of %s" % (A.shape, Bb.shape)))
            return
        ps = []
        pairs = []
        seen = set()
        for x, y in zip(A.flat, Bb.flat):
            if x is y:
                continue
            if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)) or x is None or y is None:
                if not (type(x) is type(y) and x == y):
                    self.claims.append((label, "false", "%r instead of %r" % (x, y)))
                    return
                continue
            x, y = N.lift(x), N.lift(y)
            if x.t is None or y.t is None:
                if x.t is None and y.t is None:
                    continue
                self.claims.append((label, "false", "nan on one side only"))
                return
            pairs.append((x, y))
            d = x - y
            if not d.t:
                continue
            k = d.key()
            if k not in seen:
                seen.add(k)
                ps.append(d)
        self.claims.append((label, "zero", ps))
        self.pairs[len(self.claims) - 1] = pairs

    def near(self, a, b, label, tol=1e-6, out=True):
        """Real values no further apart than an absolute tolerance."""
        A, Bb = _obj(a), _obj(b)
        if out:
            self.outputs.append((label, A))
        if A.shape != Bb.shape:
            self.claims.append((label, "false", "shape %s instead of %s" % (A.shape, Bb.shape)))
            return
        for x, y in zip(A.flat, Bb.flat):
            if N.lift(x).t is None or N.lift(y).t is None:
                self.claims.append((label, "false", "nan"))
                return
            d = N.lift(x) - N.lift(y)
            if d.imag.t:
                self.eq(d.imag, 0, label, out=False)
            d, slack = N.tidy(d.real, self.boxes, tol * 1e-6)
            self.claim(d <= tol - slack, label)
            self.claim(d >= slack - tol, label)

    def same(self, a, b, label):
        """Structural equality of python values (types included)."""
        if isinstance(a, (SNum, snp.SymArray)) or isinstance(b, (SNum, snp.SymArray)):
            return self.eq(a, b, label, out=False)
        ok = (a is b) or (type(a) is type(b) and a == b) or (isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and bool(a == b))
        if not ok:
            self.claims.append((label, "false", "%r instead of %r" % (a, b)))
        else:
            self.claims.append((label, "zero", []))

    def claim(self, c, label):
        if isinstance(c, snp.SymArray):
            c = N.b_and(*[x if isinstance(x, bool) or type(x) is SBool else bool(x) for x in c.a.flat])
        if type(c) is SBool:
            self.claims.append((label, "bool", c))
        elif bool(c):
            self.claims.append((label, "zero", []))
        else:
            self.claims.append((label, "false", "false"))

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.claims.append((label, "zero", []))
            return True
        except SymControl:
            raise
        except Exception as e:
            self.claims.append((label, "false", "raised %s: %s" % (type(e).__name__, e)))
            return False
        self.claims.append((label, "false", "did not raise"))
        return False

    def fails(self, fn):
        """Does fn raise an ordinary exception?"""
        try:
            fn()
        except SymControl:
            raise
        except Exception:
            return True
        return False

    # ---- helpers for oracles
    def where(self, c, a, b):
        return N.where(c, a, b)

    def split(self, on):
        N.SPLIT[0] = on

    @contextlib.contextmanager
    def splitting(self, on=True):
        old = N.SPLIT[0]
        N.SPLIT[0] = on
        try:
            yield
        finally:
            N.SPLIT[0] = old

    def arr(self, x, dtype=None):
        return snp.array(x, dtype)

    def simplify(self, x):
        return x


def _obj(x):
    a = snp.asarray(x) if not isinstance(x, (str, bytes)) and x is not None else None
    if a is None:
        o = np.empty((), object)
        o[()] = x
        return o
    return a.a


class NumB:
    sym = False

    def __init__(self, env, pkg, ntol=1e-7, rng=None):
        self.env, self.m, self.np = env, pkg, np
        self.failed = []
        self.outputs = []
        self.ntol = ntol
        self.rng = rng
        self.checked = 0

    def _val(self, name, lo, hi, pos, isint, sample):
        v = self.env.get(name)
        if v is None:
            if self.rng is None:
                raise AssumeFailed("no value for %s" % name)
            a = lo if lo is not None else (0.2 if pos else -1.0)
            b = hi if hi is not None else (max(2.0, a * 2.0) if not isint else a + 20)
            if sample:
                a, b = sample[0], sample[1]
            v = self.rng.randint(math.ceil(a), math.floor(b)) if isint else self.rng.uniform(a, b)
            self.env[name] = v
        return int(v) if isint else float(v)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, sample=None, open_lo=False):
        x = self._val(name, lo, hi, pos or nonneg, False, sample)
        if (pos and not x > 0) or (nonneg and x < 0) or (lo is not None and x < lo) or (hi is not None and x > hi) or (open_lo and not x > lo):
            raise AssumeFailed(name)
        return x

    def int(self, name, lo=None, hi=None, sample=None, dtype=None):
        x = self._val(name, -20 if lo is None else lo, hi, False, True, sample)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise AssumeFailed(name)
        return x

    def array(self, name, shape, kind="f", lo=None, hi=None, dtype=None, pos=False, nonneg=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, np.dtype(dtype) if dtype is not None else {"f": float, "i": np.int64, "c": complex}[kind])
        for i in np.ndindex(*shape):
            nm = name + "_" + "_".join(map(str, i))
            if kind == "f":
                out[i] = self.real(nm, lo, hi, pos=pos, nonneg=nonneg)
            elif kind == "i":
                out[i] = self.int(nm, lo, hi)
            else:
                out[i] = self.real(nm + "r") + 1j * self.real(nm + "i")
        return out

    def choice(self, name, options):
        v = self.env.get("?" + name)
        if v is None:
            if self.rng is None:
                raise AssumeFailed("no choice for %s" % name)
            v = self.env["?" + name] = self.rng.randrange(len(options))
        return options[int(v)]

    def const(self, x):
        return float(x) if isinstance(x, Fraction) else x

    def assume(self, c):
        if not np.all(c):
            raise AssumeFailed("assumption")

    def eq(self, a, b, label, tol=None, scale=None, out=True):
        self.checked += 1
        try:
            A, Bb = np.asarray(a), np.asarray(b)
        except ValueError:
            self.failed.append((label, "ragged result"))
            return
        if out:
            self.outputs.append((label, A))
        if A.shape != Bb.shape:
            self.failed.append((label, "shape %s instead of %s" % (A.shape, Bb.shape)))
            return
        if A.dtype.kind in "OUS" or Bb.dtype.kind in "OUS":
            if not all(type(x) is type(y) and x == y for x, y in zip(A.flat, Bb.flat)):
                self.failed.append((label, "%r instead of %r" % (a, b)))
            return
        if A.size == 0:
            return
        na, nb = np.isnan(A), np.isnan(Bb)
        if (na != nb).any():
            self.failed.append((label, "nan at %s" % (tuple(int(v) for v in np.argwhere(na != nb)[0]),)))
            return
        A, Bb = np.where(na, 0, A), np.where(nb, 0, Bb)
        s = scale if scale is not None else max(np.abs(A).max(), np.abs(Bb).max())
        with np.errstate(all="ignore"):
            d = np.abs(A.astype(complex) - Bb.astype(complex)) if A.dtype.kind != "b" else (A != Bb).astype(float)
        d = np.where(np.isinf(A) & (A == Bb), 0, d)
        t = (tol or self.ntol)
        if not (d <= t * s + 1e-300).all():
            i = np.unravel_index(np.argmax(np.nan_to_num(d, nan=np.inf)), d.shape)
            self.failed.append((label, "got %s, expected %s at %s" % (A[i], Bb[i], tuple(int(v) for v in i))))

    def near(self, a, b, label, tol=1e-6, out=True):
        self.checked += 1
        A, Bb = np.asarray(a), np.asarray(b)
        if out:
            self.outputs.append((label, A))
        if A.shape != Bb.shape:
            self.failed.append((label, "shape %s instead of %s" % (A.shape, Bb.shape)))
        elif A.size and not (np.abs(A - Bb) <= tol).all():
            i = np.unravel_index(np.argmax(np.nan_to_num(np.abs(A - Bb), nan=np.inf)), A.shape)
            self.failed.append((label, "got %s, expected %s at %s" % (A[i], Bb[i], tuple(int(v) for v in i))))

    def same(self, a, b, label):
        self.checked += 1
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.eq(a, b, label, out=False)
        ok = (a is b) or (type(a) is type(b) and a == b) or (isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and bool(a == b))
        if not ok:
            self.failed.append((label, "%r instead of %r" % (a, b)))

    def claim(self, c, label):
        self.checked += 1
        if not np.all(c):
            self.failed.append((label, "false"))

    def raises(self, exc, fn, label):
        self.checked += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.failed.append((label, "raised %s: %s" % (type(e).__name__, e)))
            return False
        self.failed.append((label, "did not raise"))
        return False

    def fails(self, fn):
        try:
            fn()
        except Exception:
            return True
        return False

    def where(self, c, a, b):
        return a if c else b

    def split(self, on):
        pass

    @contextlib.contextmanager
    def splitting(self, on=True):
        yield

    def arr(self, x, dtype=None):
        return np.array(x, dtype)

    def simplify(self, x):
        return x


# ------------------------------------------------------------------------------------------
_real = None


def real_pkg():
    global _real
    if _real is None:
        _real = load.RealPackage()
    return _real


def run_num(case, env, rng=None):
    """Run the case on the real package.  Returns (verdict, detail, NumB)."""
    B = NumB(env, real_pkg(), case.ntol, rng)
    old = np.seterr(all="ignore")
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            case.fn(B, **case.kw)
    except AssumeFailed as e:
        return "assume", str(e), B
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return "fail", "unexpected %s: %s (%s)" % (type(e).__name__, e, where), B
    finally:
        np.seterr(**old)
    if B.failed:
        return "fail", "; ".join("%s: %s" % f for f in B.failed[:3]), B
    return "ok", "", B


# ------------------------------------------------------------------------------------------
class FuncTrace:
    """Which functions of the package were executed symbolically."""

    def __init__(self, repo):
        self.seen = set()
        self.prefix = os.path.join(repo, "pyotf") + os.sep
        self.tool = 4

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.tool, "sx")
        except ValueError:
            self.tool = None
            return self

        def start(code, off):
            if code.co_filename.startswith(self.prefix):
                if code.co_name != "<module>":
                    self.seen.add("%s:%s" % (os.path.basename(code.co_filename), code.co_qualname))
            return m.DISABLE

        m.register_callback(self.tool, m.events.PY_START, start)
        m.set_events(self.tool, m.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.tool is not None:
            m = sys.monitoring
            m.set_events(self.tool, 0)
            m.register_callback(self.tool, m.events.PY_START, None)
            m.free_tool_id(self.tool)


def _phase_bases(ps):
    """Greatest common measures of the exponents that occur, so that the solver sees powers of one
    phasor."""
    mul = {}
    for p in ps:
        for m in p.t:
            eid = N.MONOS[m][1]
            if eid:
                for mm, q in N.EXPS[eid].t.items():
                    r = N._imag_rational(q)
                    if r is not None:
                        mul.setdefault(mm, set()).add(abs(Fraction(r)))
    for mm, s in mul.items():
        g = Fraction(0)
        for x in s | ({C.PHASE_BASE[mm]} if mm in C.PHASE_BASE else set()):
            g = Fraction(math.gcd(g.numerator * x.denominator, x.numerator * g.denominator), g.denominator * x.denominator) if g else x
        if g:
            C.PHASE_BASE[mm] = g


CONFIRM_TERMS = 20000


class Runner:
    def __init__(self, case, seed=1):
        self.case = case
        self.rng = random.Random((case.name, seed).__repr__())
        self.res = dict(case=case.name, paths=0, aborted=0, decisions=0, claims=0, atoms=0, by_normal_form=0, by_solver=0,
                        unresolved=[], violations=[], validated=0, validation_failed=[], vacuous=True, notes=[],
                        samples=[], error=None, unknown_branches=0, complete=False)

    # ---- concrete points
    def points(self, ctx, B, n, extra=None, used=()):
        """Concrete inputs that follow this path: the solver's model, then perturbations of it and
        random points that satisfy the path condition numerically."""
        verdict, env = ctx.witness(extra, used)
        base = dict(env or {})
        rng = self.rng
        out = []

        def fill(e):
            e = dict(e)
            for nm, (a, b, isint) in B.samplers.items():
                if nm not in e:
                    if isint:
                        e[nm] = rng.randint(math.ceil(a), math.floor(b))
                    else:
                        e[nm] = Fraction(rng.randint(1, 999), 1000) * Fraction(float(b) - float(a)).limit_denominator(10 ** 6) + Fraction(float(a)).limit_denominator(10 ** 6)
            for k, v in B.choices.items():
                e["?" + k] = v
            return e

        def ok(e):
            cache = {}
            try:
                return all(N.evalb(b, e, cache) for b in ctx.conds)
            except (N.EvalError, ZeroDivisionError, OverflowError, ValueError):
                return False

        if verdict == z3.unsat:
            return verdict, []
        ints = {nm for nm, s in B.samplers.items() if s[2]}
        for t in range(60):
            if len(out) >= n:
                break
            if t % 3 == 0:
                e = fill({})
            else:
                sc = Fraction(1, 10 ** (1 + t % 4))
                e = {k: (v if k in ints else v * (1 + sc * Fraction(rng.randint(-100, 100), 100)) + (sc * Fraction(rng.randint(-100, 100), 1000) if not v else 0))
                     for k, v in base.items()}
                e = fill(e)
            if ok(e):
                out.append(e)
        if verdict == z3.sat:
            out.append(fill(base))
        return verdict, out

    def value(self, x, env, cache):
        if isinstance(x, (SNum,)):
            return N.evalf_raw(x, env, cache)
        if type(x) is SBool:
            return float(N.evalb(x, env, cache))
        if isinstance(x, (bool, np.bool_, int, float, complex, np.generic, Fraction)):
            return complex(x)
        raise N.EvalError(type(x))

    # ---- one path
    def path(self, ctx, B, exc):
        case, R = self.case, self.res
        R["decisions"] += len(ctx.trace)
        R["unknown_branches"] += ctx.unknown_branch
        for n in ctx.notes:
            if n not in R["notes"]:
                R["notes"].append(n)
        if exc is not None:
            B.claims.append(("runs without exception", "false", exc))
        R["claims"] += len(B.claims)
        todo = []  # (label, list of polys or SBool, text)
        closed = []
        pin, memo, has_ind = ctx.pinned(), {}, any(g.kind == "ind" for g in N.GENS)
        for num, (label, kind, x) in enumerate(B.claims):
            R["atoms"] += 1
            if kind == "false":
                todo.append((label, "false", None, x))
            elif kind == "bool":
                k = ctx.lookup(x)
                if k is True:
                    closed.append([x])
                else:
                    todo.append((label, "bool", x, ""))
            else:
                rs = []
                for p in x:
                    r = N.residual(p)
                    if r.t and (pin or ctx.kb or has_ind):
                        try:
                            r = N.residual(N.subst(r, pin, memo, ctx.lookup))
                        except SymControl:
                            pass
                    if r.t is None:
                        todo.append((label, "false", None, "nan"))
                        break
                    if r.t:
                        rs.append(r)
                else:
                    if rs:
                        todo.append((label, "zero", rs, ""))
                    else:
                        closed.append(B.pairs.get(num, ()))
        self.confirm(ctx, closed)
        # vacuity / validation / cheap refutation share the same concrete points
        pts = None
        if todo or R["validated"] < case.validate:
            verdict, pts = self.points(ctx, B, 2)
            if verdict == z3.unsat:
                R["aborted"] += 1
                return
            if verdict == z3.sat or pts:
                R["vacuous"] = False
            self.validate(ctx, B, pts)
        elif R["vacuous"]:
            if ctx.witness()[0] == z3.sat:
                R["vacuous"] = False
        if len(R["samples"]) < 2 and pts:
            R["samples"].append(dict(case=case.name, path=len(ctx.trace), inputs={k: _show(v) for k, v in list(pts[0].items())[:12]},
                                     claims=[c[0] for c in B.claims][:6]))
        for label, kind, x, text in todo:
            self.decide(ctx, B, label, kind, x, text, pts)
            if R["violations"]:
                return

    def confirm(self, ctx, closed):
        """Claims whose two sides have the same normal form still go to the solver: one query per
        path asks for inputs on the path that tell any of the pairs apart."""
        R = self.res
        qs, used, n, terms = [], set(), 0, 0
        for pairs in closed:
            part, u = [], set()
            try:
                for p in pairs:
                    if type(p) is SBool:
                        part.append(z3.Not(C.TR.b(p, u)))
                        continue
                    x, y = p
                    terms += len(x.t) + len(y.t)
                    if terms > CONFIRM_TERMS:
                        raise Unsupported("size")
                    if x.is_const() and y.is_const():
                        continue
                    a, b = C.TR.cplx(x, u), C.TR.cplx(y, u)
                    part += [a[0] != b[0], a[1] != b[1]]
            except Unsupported:
                R["by_normal_form"] += 1
                continue
            n += 1
            qs += part
            used |= u
        if not n:
            return
        if not qs:
            R["by_normal_form"] += n
            return
        if ctx.query(z3.Or(qs), used, 3000) == z3.unsat:
            R["by_solver"] += n
        else:
            R["by_normal_form"] += n

    def decide(self, ctx, B, label, kind, x, text, pts):
        case, R = self.case, self.res
        r = z3.unknown
        models = []

        def refuted(e):
            """Does the claim fail at this point, by the symbolic terms?"""
            cache = {}
            if kind == "bool":
                return not N.evalb(x, e, cache)
            for p in x:
                v, mag = self.mag(p, e, cache)
                if not abs(v) <= 1e-7 * mag:
                    return True
            return False

        def tries(es):
            k = 0
            for e in es:
                try:
                    bad = kind == "false" or refuted(e)
                except (N.EvalError, ZeroDivisionError, OverflowError, ValueError):
                    bad = True
                if bad:
                    k += 1
                    if self.replay(e, label, text):
                        return True
                    if k >= 4:
                        break
            return False

        try:
            if kind == "bool" and ctx.relaxed(x):
                R["by_solver"] += 1
                return
            if kind == "bool":
                used = set()
                qs = [(z3.Not(C.TR.b(x, used)), used)]
            elif kind == "zero":
                _phase_bases(x)
                qs = []
                for p in x:
                    u = set()
                    re, im = C.TR.cplx(p, u)
                    qs.append((z3.Or(re != 0, im != 0), u))
            else:
                qs = []
            open_ = []
            left = 3 * case.qtimeout
            for q, u in qs:
                t0 = time.time()
                rr = ctx.query(q, u, min(case.qtimeout, max(500, left)))
                left -= 1000 * (time.time() - t0)
                if rr != z3.unsat:
                    open_.append((rr, q, u))
                    if len(open_) >= 3:
                        break
            if qs and not open_:
                R["by_solver"] += 1
                return
            for rr, q, u in open_:
                if rr == z3.sat:
                    r = z3.sat
                    models += self.points(ctx, B, 1, q, u)[1][::-1][:2]
                    break
        except Unsupported as e:
            text = text or str(e)
        if tries(list(pts or ()) + models):
            return
        # the witness may lie where the code is degenerate; look at other points of the path
        more = self.points(ctx, B, 6)[1]
        if tries(more):
            return
        if len(R["unresolved"]) < 20:
            why = text or ("counterexample not confirmed on the real code" if r == z3.sat else "solver gave no answer")
            if kind == "zero":
                why += " [" + N.pretty(x[0], 3) + "]"
            elif kind == "bool":
                why += " [%r]" % (x,)
            R["unresolved"].append("%s: %s" % (label, why))

    def mag(self, p, env, cache):
        tot, mag = 0j, 0.0
        for m, c in p.t.items():
            v = N.evalf_raw(SNum({m: c}, "c"), env, cache)
            tot += v
            mag += abs(v)
        return tot, mag

    def replay(self, env, label, text):
        v, detail, B = run_num(self.case, dict(env))
        if v == "fail":
            self.res["violations"].append(dict(case=self.case.name, label=label, detail=detail, symbolic=text,
                                               env={k: _show(x) for k, x in env.items()}))
            return True
        return False

    def validate(self, ctx, B, pts):
        """Compare what the symbolic run computed with the real code at concrete points."""
        R = self.res
        if R["validated"] >= self.case.validate + 2:
            return
        for e in pts[:1]:
            v, detail, nb = run_num(self.case, dict(e))
            if v == "assume":
                continue
            if v == "fail" and all(c[1] != "false" for c in B.claims):
                R["validation_failed"].append("real code: %s at %s" % (detail, {k: _show(q) for k, q in list(e.items())[:8]}))
                return
            if [l for l, _ in nb.outputs] != [l for l, _ in B.outputs]:
                continue
            cache = {}
            try:
                for (l, A), (_, X) in zip(B.outputs, nb.outputs):
                    if A.shape != X.shape:
                        R["validation_failed"].append("%s: shape %s, real code %s" % (l, A.shape, X.shape))
                        return
                    if X.dtype.kind in "OUS":
                        continue
                    sv = np.array([self.value(t, e, cache) for t in A.flat]).reshape(A.shape)
                    s = max(1e-300, np.nanmax(np.abs(X), initial=0)) if X.size else 1
                    d = np.abs(sv - X) if X.dtype.kind != "b" else np.abs(sv - X.astype(float))
                    if X.size and not (np.nan_to_num(d) <= self.case.vtol * s + 1e-14).all():
                        # what the terms cancel to is known up to their own rounding
                        mag = np.array([N.eval_magnitude(t, e, cache) if isinstance(t, SNum) else 0.0 for t in A.flat]).reshape(A.shape)
                        d = np.where(d <= 1e-13 * mag, 0.0, d)
                    if X.size and not (np.nan_to_num(d) <= self.case.vtol * s + 1e-14).all():
                        i = np.unravel_index(np.argmax(np.nan_to_num(d)), d.shape)
                        if len(R["validation_failed"]) < 5:
                            R["validation_failed"].append("%s%s: symbolic %s, real code %s at %s" % (
                                l, list(map(int, i)), sv[i], X[i], {k: _show(q) for k, q in list(e.items())[:8]}))
                        return
                R["validated"] += 1
            except (N.EvalError, ZeroDivisionError, OverflowError):
                pass

    # ---- whole case
    def run(self):
        case, R = self.case, self.res
        C.DEADLINE[0] = time.time() + case.budget
        t0 = time.time()

        def late(*a):
            raise C.Budget("time budget of the case exhausted")

        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, case.budget * 1.2 + 5)
        for k in C.STATS:
            C.STATS[k] = 0

        def body(ctx):
            N.SPLIT[0] = case.split
            N.ASSUME_NONZERO_DIV[0] = case.nonzero_div
            B = SymB(ctx, case)
            exc = None
            try:
                with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    case.fn(B, **case.kw)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                exc = "%s: %s (%s)" % (type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
            return B, exc

        with FuncTrace(load.REPO) as ft:
            try:
                for ctx, (st, r) in C.explore(body, case.max_paths, case.qtimeout):
                    if st == "abort":
                        R["aborted"] += 1
                        continue
                    R["paths"] += 1
                    N.SPLIT[0] = False
                    self.path(ctx, *r)
                    if R["violations"]:
                        break
                else:
                    R["complete"] = True
            except C.Budget as e:
                R["error"] = str(e)
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                R["error"] = "not encodable: %s (%s)" % (e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
            except (RecursionError, MemoryError) as e:
                R["error"] = "engine: %s" % type(e).__name__
            except z3.Z3Exception as e:
                R["error"] = "z3: %s" % e
            except Exception as e:
                R["error"] = "engine: " + traceback.format_exc()[-1500:]
        signal.setitimer(signal.ITIMER_REAL, 0)
        R["functions"] = sorted(ft.seen)
        # what the solver could not settle is at least attacked with concrete inputs
        if not R["violations"] and (R["error"] or R["unresolved"] or R["validation_failed"]):
            self.attack(40, 20)
        R["stats"] = dict(C.STATS)
        R["wall"] = time.time() - t0
        return R

    def attack(self, n, secs):
        t0 = time.time()
        done = 0
        for _ in range(n):
            if time.time() - t0 > secs:
                break
            env = {}
            v, detail, B = run_num(self.case, env, self.rng)
            if v == "assume":
                continue
            done += 1
            if v == "fail":
                # once more from the recorded inputs alone
                v2, d2, _ = run_num(self.case, {k: _parse(_show(x)) for k, x in env.items()})
                if v2 == "fail":
                    self.res["violations"].append(dict(case=self.case.name, label="concrete run", detail=d2, symbolic="",
                                                       env={k: _show(x) for k, x in env.items()}))
                    return
        self.res["notes"].append("undecided part attacked with %d concrete runs" % done)


def _show(v):
    if isinstance(v, Fraction):
        return str(v) if v.denominator < 10 ** 15 else repr(float(v))
    return repr(v) if isinstance(v, float) else v if isinstance(v, int) else str(v)


def _parse(v):
    if isinstance(v, str):
        return Fraction(v) if "/" in v or "." not in v and "e" not in v and "n" not in v else float(v)
    return v


# ------------------------------------------------------------------------------------------
def work(case, seed, conn, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        sys.setrecursionlimit(20000)
        r = Runner(case, seed).run()
    except BaseException as e:
        r = dict(case=case.name, error="engine: %s" % traceback.format_exc()[-1500:], violations=[], unresolved=[], paths=0)
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_cases(cases, seed, total, jobs=8, mem=int(5e9), log=None):
    """Run every case in a process of its own; yields results."""
    import multiprocessing as mp

    m = mp.get_context("fork")
    t0 = time.time()
    queue = sorted(cases, key=lambda c: -c.weight)
    active = {}
    results = []
    stop = False
    from multiprocessing.connection import wait

    while (queue and not stop) or active:
        left = total - (time.time() - t0)
        while queue and len(active) < jobs and not stop:
            if left <= 5:
                for c in queue:
                    results.append(dict(case=c.name, error="not started: time budget of the check exhausted", violations=[], unresolved=[], paths=0))
                queue = []
                break
            c = queue.pop(0)
            c.budget = min(c.budget, max(5, left - 30))
            a, b = m.Pipe(False)
            p = m.Process(target=work, args=(c, seed, b, mem), daemon=True)
            sys.stdout.flush()
            p.start()
            b.close()
            active[a] = (c, p, time.time())
        if not active:
            break
        for a in wait(list(active), timeout=1.0):
            c, p, ts = active.pop(a)
            try:
                r = a.recv()
            except (EOFError, OSError):
                r = dict(case=c.name, error="worker died (memory or crash)", violations=[], unresolved=[], paths=0)
            p.join(5)
            results.append(r)
            if log:
                log(r)
            if r["violations"]:
                stop = True
        for a, (c, p, ts) in list(active.items()):
            if time.time() - ts > c.budget * 1.5 + 60 or (stop and time.time() - t0 > 0):
                p.kill()
                p.join()
                active.pop(a)
                if not stop:
                    results.append(dict(case=c.name, error="time limit of the case", violations=[], unresolved=[], paths=0))
    return results
