"""Symbolic scalars.

An SNum is a polynomial with (possibly negative) integer exponents over *generators*, with
coefficients in a cyclotomic field Q(zeta_m), times formal exponentials exp(E), E itself a
polynomial.  Generators are: declared variables, square roots, inverses of polynomials, angles
(arcsin, arctan2, phase of a complex number), indicators of conditions, maxima, integer division
and rounding.  Every generator carries its defining constraint, which goes to the SMT solver.

Everything here treats the source's floats as the real numbers they denote (stated in DESIGN.md).
"""
import cmath
import math
import numbers
from fractions import Fraction
from functools import lru_cache


class SymControl(BaseException):
    """Base of the engine's own control flow; never caught by code under test."""


class Unsupported(SymControl):
    """The engine cannot encode this operation."""


class PathAbort(SymControl):
    """Current path is infeasible or excluded by an assumption."""


# ------------------------------------------------------------------------------------------
# coefficients: int / Fraction / Cyc
# ------------------------------------------------------------------------------------------
def _norm(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


@lru_cache(None)
def _cyclo_poly(n):
    """Integer coefficients (low to high) of the n-th cyclotomic polynomial."""
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            q = _cyclo_poly(d)
            # divide p by q
            p = p[:]
            out = [0] * (len(p) - len(q) + 1)
            for i in range(len(out) - 1, -1, -1):
                c = p[i + len(q) - 1] // q[-1]
                out[i] = c
                for j, b in enumerate(q):
                    p[i + j] -= c * b
            p = out
    return p


@lru_cache(None)
def _red_table(m):
    """zeta_m**k for k in range(m) in the power basis, as tuples."""
    phi = _cyclo_poly(m)
    d = len(phi) - 1
    rows = []
    cur = [0] * d
    cur[0] = 1
    if d == 1:
        # m == 1 or 2
        z = -phi[0]
        v = 1
        for _ in range(m):
            rows.append((v,))
            v *= z
        return rows
    for _ in range(m):
        rows.append(tuple(cur))
        top = cur[-1]
        cur = [0] + cur[:-1]
        if top:
            for i in range(d):
                cur[i] -= top * phi[i]
    return rows


class Cyc:
    """Element of Q(zeta_m) that is not rational."""

    __slots__ = ("m", "v", "_h")

    def __init__(self, m, v):
        self.m = m
        self.v = v
        self._h = None

    @staticmethod
    def make(m, v):
        v = tuple(_norm(x) for x in v)
        if not any(v[1:]):
            return v[0]
        return Cyc(m, v)

    @staticmethod
    @lru_cache(None)
    def root(k, m):
        """exp(2 pi i k / m) in lowest terms."""
        k %= m
        g = math.gcd(k, m)
        k //= g
        m //= g
        return Cyc.make(m, _red_table(m)[k])

    def lift(self, m):
        if m == self.m:
            return self.v
        s = m // self.m
        tab = _red_table(m)
        out = [0] * len(tab[0])
        for i, c in enumerate(self.v):
            if c:
                for j, t in enumerate(tab[(i * s) % m]):
                    if t:
                        out[j] += c * t
        return tuple(out)

    def _coerce(self, o):
        if isinstance(o, Cyc):
            if o.m == self.m:
                return self.m, self.v, o.v
            m = self.m * o.m // math.gcd(self.m, o.m)
            return m, self.lift(m), o.lift(m)
        return self.m, self.v, (o,) + (0,) * (len(self.v) - 1)

    def __add__(self, o):
        m, a, b = self._coerce(o)
        return Cyc.make(m, [x + y for x, y in zip(a, b)])

    __radd__ = __add__

    def __neg__(self):
        return Cyc(self.m, tuple(-x for x in self.v))

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Cyc):
            if not o:
                return 0
            return Cyc(self.m, tuple(_norm(x * o) for x in self.v))
        m, a, b = self._coerce(o)
        tab = _red_table(m)
        acc = {}
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    if y:
                        k = (i + j) % m
                        acc[k] = acc.get(k, 0) + x * y
        out = [0] * len(a)
        for k, c in acc.items():
            if c:
                for j, t in enumerate(tab[k]):
                    if t:
                        out[j] += c * t
        return Cyc.make(m, out)

    __rmul__ = __mul__

    def conj(self):
        tab = _red_table(self.m)
        out = [0] * len(self.v)
        for i, c in enumerate(self.v):
            if c:
                for j, t in enumerate(tab[(-i) % self.m]):
                    if t:
                        out[j] += c * t
        return Cyc.make(self.m, out)

    def inv(self):
        # solve self * x = 1 linearly
        d = len(self.v)
        cols = []
        for j in range(d):
            e = [0] * d
            e[j] = 1
            p = Cyc(self.m, tuple(e)) * self if j else self
            cols.append(p.v if isinstance(p, Cyc) and p.m == self.m else
                        (p.lift(self.m) if isinstance(p, Cyc) else (p,) + (0,) * (d - 1)))
        A = [[Fraction(cols[j][i]) for j in range(d)] + [Fraction(1 if i == 0 else 0)] for i in range(d)]
        for c in range(d):
            piv = next(r for r in range(c, d) if A[r][c])
            A[c], A[piv] = A[piv], A[c]
            pv = A[c][c]
            A[c] = [x / pv for x in A[c]]
            for r in range(d):
                if r != c and A[r][c]:
                    f = A[r][c]
                    A[r] = [x - f * y for x, y in zip(A[r], A[c])]
        return Cyc.make(self.m, [A[i][d] for i in range(d)])

    def __complex__(self):
        return sum(float(c) * cmath.exp(2j * cmath.pi * i / self.m) for i, c in enumerate(self.v) if c) + 0j

    def __eq__(self, o):
        if isinstance(o, Cyc):
            if o.m == self.m:
                return self.v == o.v
            m, a, b = self._coerce(o)
            return all(x == y for x, y in zip(a, b))
        return False

    def __hash__(self):
        if self._h is None:
            # must agree across representations: hash the rounded numeric value
            z = complex(self)
            self._h = hash((round(z.real, 6), round(z.imag, 6)))
        return self._h

    def __bool__(self):
        return True

    def __repr__(self):
        return "Cyc(%d,%s)" % (self.m, list(map(str, self.v)))


I = Cyc.root(1, 4)


def c_conj(c):
    return c.conj() if isinstance(c, Cyc) else c


def c_inv(c):
    if isinstance(c, Cyc):
        return c.inv()
    return _norm(Fraction(1) / c)


def c_float(c):
    return complex(c) if isinstance(c, Cyc) else complex(float(c))


def snap_float(x):
    """The rational a float literal stands for (nearest small-denominator one if within 2 ulp)."""
    f = Fraction(x)
    if f.denominator == 1:
        return f.numerator
    g = f.limit_denominator(10 ** 6)
    if g and abs(f - g) <= abs(f) * Fraction(5, 10 ** 16):
        return _norm(g)
    return f


# ------------------------------------------------------------------------------------------
# generators and monomials
# ------------------------------------------------------------------------------------------
class Gen:
    __slots__ = ("id", "kind", "name", "args", "nonneg", "pos", "isint", "const", "phasor", "key", "poly")

    def __init__(self, kind, name, args=(), nonneg=False, pos=False, isint=False, const=False):
        self.kind = kind
        self.name = name
        self.args = args
        self.pos = pos
        self.nonneg = nonneg or pos
        self.isint = isint
        self.const = const
        self.phasor = None
        self.id = len(GENS)
        GENS.append(self)

    def __repr__(self):
        return "<%s#%d %s>" % (self.kind, self.id, self.name)


GENS = []
_gen_by_key = {}


def gen_for(key, make):
    g = _gen_by_key.get(key)
    if g is None:
        g = make()
        g.key = key
        _gen_by_key[key] = g
    return g


# a monomial is (((gid, exp), ...), eid); interned as an int
MONOS = [((), 0)]
_mono_ids = {((), 0): 0}
_mono_const = [True]
EXPS = [None]  # eid -> SNum (the exponent)
_exp_ids = {}
_mul_cache = {}


def mono_id(gens, eid):
    k = (gens, eid)
    i = _mono_ids.get(k)
    if i is None:
        i = len(MONOS)
        MONOS.append(k)
        _mono_ids[k] = i
        _mono_const.append(
            all(GENS[g].const for g, _ in gens) and (eid == 0 or EXPS[eid].is_const())
        )
    return i


def exp_id(p):
    """Intern the exponent polynomial p (no constant root-of-unity part)."""
    if not p.t:
        return 0
    k = p.key()
    i = _exp_ids.get(k)
    if i is None:
        i = len(EXPS)
        EXPS.append(p)
        _exp_ids[k] = i
    return i


def _mono_mul(i, j):
    """Product of two monomials: (mono id) or a term dict."""
    if i == 0:
        return j
    if j == 0:
        return i
    if i > j:
        i, j = j, i
    r = _mul_cache.get((i, j))
    if r is not None:
        return r
    (ga, ea), (gb, eb) = MONOS[i], MONOS[j]
    d = dict(ga)
    for g, e in gb:
        d[g] = d.get(g, 0) + e
    unit = 1
    if ea and eb:
        p = EXPS[ea] + EXPS[eb]
        p, unit = _exp_split(p)
        eid = exp_id(p)
    else:
        eid = ea or eb
    r = _reduce(d, eid, unit)
    _mul_cache[(i, j)] = r
    return r


def _reduce(d, eid, unit=1):
    """Normal form of the monomial {gid: exp}*exp(eid): mono id or term dict."""
    factors = []
    work = list(d)
    while work:
        g = work.pop()
        e = d.get(g, 0)
        if e == 0:
            d.pop(g, None)
            continue
        G = GENS[g]
        k = G.kind
        if k == "sqrt":
            if G.key[1] == "g":  # root of a single generator
                base = G.args[1]
                q, rem = divmod(e, 2)
                if q:
                    d[base] = d.get(base, 0) + q
                    work.append(base)
                    if rem:
                        d[g] = 1
                    else:
                        del d[g]
            elif e >= 2 or e < 0:
                inv = G.args[1]
                q, rem = divmod(e, 2)
                if rem:
                    d[g] = 1
                else:
                    del d[g]
                if q > 0 and d.get(inv, 0) < 0:
                    # S**2 * P**-1 = 1
                    c = min(q, -d[inv])
                    q -= c
                    d[inv] += c
                    if d[inv] == 0:
                        del d[inv]
                if q > 0:
                    factors.append((G.args[0], q))
                elif q < 0:
                    r = G.args[0].rational() if G.const else None
                    if r:
                        factors.append((SNum({0: _norm(1 / Fraction(r))}), -q))
                    else:
                        d[inv] = d.get(inv, 0) + q
                        work.append(inv)
        elif k == "cabs":
            if e >= 2:
                q, rem = divmod(e, 2)
                if rem:
                    d[g] = 1
                else:
                    del d[g]
                factors.append((G.args[1], q))
        elif k == "ind":
            if e > 1:
                d[g] = 1
        elif k == "alias":
            if e > 0:
                factors.append((G.args[0], e))
                del d[g]
    if factors:
        # some generators may have been touched again; rebuild through multiplication
        res = SNum({mono_id(tuple(sorted(d.items())), eid): unit})
        for p, q in factors:
            for _ in range(q):
                res = res * p
        return res.t
    m = mono_id(tuple(sorted(d.items())), eid)
    if unit != 1:
        return {m: unit}
    return m


# ------------------------------------------------------------------------------------------
_TYPE_RANK = {"i": 0, "f": 1, "c": 2}


def _ty2(a, b):
    return a if _TYPE_RANK[a] >= _TYPE_RANK[b] else b


# while a list, values are printed as names that stand for them
TOKENS = [None]


def token(x):
    TOKENS[0].append(x)
    return "_sx%d_" % (len(TOKENS[0]) - 1)


class SNum:
    """A symbolic number; ty is its static type ('i', 'f' or 'c')."""

    __slots__ = ("t", "ty", "_k", "_h")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t, ty="f"):
        self.t = t
        self.ty = ty
        self._k = None
        self._h = None

    # -- python type masquerade -------------------------------------------------------
    @property
    def __class__(self):
        return {"i": int, "f": float, "c": complex}[self.ty]

    # -- construction -----------------------------------------------------------------
    @staticmethod
    def const(c, ty="f"):
        return SNum({0: c} if c else {}, ty)

    def with_ty(self, ty):
        if ty == self.ty:
            return self
        r = SNum(self.t, ty)
        r._k = self._k
        return r

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    # -- predicates -------------------------------------------------------------------
    def isnan(self):
        return self.t is None

    def is_const(self):
        return self.t is not None and all(_mono_const[m] for m in self.t)

    def rational(self):
        """Fraction/int value if it is a plain rational constant, else None."""
        if self.t is None:
            return None
        if not self.t:
            return 0
        if len(self.t) == 1 and 0 in self.t:
            c = self.t[0]
            if not isinstance(c, Cyc):
                return c
        return None

    def numeric(self):
        """Complex value of a constant."""
        return evalf_raw(self, {}, {})

    # -- arithmetic -------------------------------------------------------------------
    def __add__(self, o):
        if o.__class__ is bool or isinstance(o, SBool):
            o = lift(o)
        if type(o) is not SNum:
            o = lift_or_none(o)
            if o is None:
                return NotImplemented
        ty = _ty2(self.ty, o.ty)
        if self.t is None or o.t is None:
            return SNum(None, ty)
        if not o.t:
            return self.with_ty(ty)
        if not self.t:
            return o.with_ty(ty)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = x
                else:
                    del r[m]
        return SNum(r, ty)

    __radd__ = __add__

    def __neg__(self):
        if self.t is None:
            return self
        return SNum({m: -c for m, c in self.t.items()}, self.ty)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not SNum:
            o = lift_or_none(o)
            if o is None:
                return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is not SNum:
            o = lift_or_none(o)
            if o is None:
                return NotImplemented
        ty = _ty2(self.ty, o.ty)
        if self.t is None or o.t is None:
            return SNum(None, ty)
        a, b = self.t, o.t
        if not a or not b:
            return SNum({}, ty)
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1 and 0 in a:
            c = a[0]
            if c == 1:
                return SNum(b, ty)
            return SNum({m: _norm(c * x) for m, x in b.items()}, ty)
        if len(a) * len(b) > LIMIT_TERMS[0]:
            raise Unsupported("polynomial product too large (%d x %d terms)" % (len(a), len(b)))
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                c = ca * cb
                m = _mono_mul(ma, mb)
                if type(m) is int:
                    x = r.get(m)
                    r[m] = c if x is None else x + c
                else:
                    for mm, cc in m.items():
                        x = r.get(mm)
                        v = c * cc
                        r[mm] = v if x is None else x + v
        return SNum({m: _norm(c) for m, c in r.items() if c}, ty)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is not SNum:
            o = lift_or_none(o)
            if o is None:
                return NotImplemented
        ty = _ty2(_ty2(self.ty, o.ty), "f")
        return (self * inverse(o)).with_ty(ty)

    def __rtruediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return (self - floordiv(self, o) * o).with_ty(_ty2(self.ty, o.ty))

    def __rmod__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o % self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        o = lift_or_none(o)
        return o // self, o % self

    def __pow__(self, e):
        return power(self, e)

    def __rpow__(self, b):
        return power(lift(b), self)

    def __abs__(self):
        return absolute(self)

    # -- comparison -------------------------------------------------------------------
    def _cmp(self, o, rel):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return compare(self, o, rel)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        # only used if code under test puts numbers in sets/dicts
        r = self.rational()
        if r is not None:
            return hash(r)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        r = self.rational()
        if r is not None:
            return bool(r)
        if self.t is None:
            return True
        return bool(compare(self, ZERO, "!="))

    # -- conversion -------------------------------------------------------------------
    def __index__(self):
        if self.ty != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize(self)

    def __int__(self):
        return concretize(trunc(self))

    def __float__(self):
        if self.t is None:
            return math.nan
        if self.is_const():
            v = self.numeric()
            return v.real
        raise Unsupported("float() of a symbolic number reached a C boundary")

    def __complex__(self):
        if self.t is None:
            return complex(math.nan)
        if self.is_const():
            return self.numeric()
        raise Unsupported("complex() of a symbolic number reached a C boundary")

    def __round__(self, n=None):
        if n is None:
            return rint(self).with_ty("i")
        s = 10 ** n
        return rint(self * s) / s

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def __format__(self, spec):
        return token(self) if TOKENS[0] is not None else "<sym>"

    def __repr__(self):
        return token(self) if TOKENS[0] is not None else pretty(self)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- numpy-scalar surface ---------------------------------------------------------
    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def dtype(self):
        import numpy as np

        return np.dtype({"i": "int64", "f": "float64", "c": "complex128"}[self.ty])

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def astype(self, dt):
        from . import snp

        dt = snp.to_dtype(dt)
        return snp.out_scalar(snp.cast(self, dt), dt)

    def squeeze(self):
        return self

    def __getattr__(self, n):
        if n in _NDARRAY:
            from . import snp

            return getattr(snp.asarray(self), n)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, n))

    def is_integer(self):
        return bool(compare(self, rint(self), "=="))

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def tolist(self):
        return self

    def ravel(self):
        from . import snp

        return snp.asarray(self).reshape(1)

    def __getitem__(self, k):
        from . import snp

        return snp.asarray(self)[k]


_NDARRAY = frozenset("any all std var prod reshape flatten flat copy nonzero clip round argmax argmin T view fill repeat take transpose "
                     "cumsum itemsize nbytes".split())
LIMIT_TERMS = [4_000_000]
ZERO = SNum({})
ONE = SNum({0: 1})
NAN = SNum(None)
IMAG = SNum({0: I}, "c")


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise Unsupported("cannot lift %r" % (type(x),))
    return r


def lift_or_none(x):
    t = type(x)
    if t is SNum:
        return x
    if t is bool:
        return SNum({0: 1} if x else {}, "i")
    if t is int:
        return SNum({0: x} if x else {}, "i")
    if t is float:
        return _lift_float(x)
    if t is SBool:
        return indicator(x)
    if t is Fraction:
        return SNum({0: _norm(x)} if x else {}, "f")
    if t is complex:
        return (_lift_float(x.real) + _lift_float(x.imag) * IMAG).with_ty("c")
    if t is Cyc:
        return SNum({0: x}, "c")
    if isinstance(x, numbers.Number):
        import numpy as np

        if isinstance(x, np.bool_):
            return lift_or_none(bool(x))
        if isinstance(x, np.generic):
            return lift_or_none(x.item())
    else:
        import numpy as np

        if isinstance(x, np.bool_):
            return lift_or_none(bool(x))
    return None


@lru_cache(100000)
def _lift_float(x):
    if math.isnan(x):
        return SNum(None, "f")
    if math.isinf(x):
        g = gen_for(("inf",), lambda: Gen("inf", "inf", (), pos=True))
        return SNum({mono_id(((g.id, 1),), 0): 1 if x > 0 else -1}, "f")
    f = snap_float(x)
    return SNum({0: f} if f else {}, "f")


def var(name, pos=False, nonneg=False, isint=False):
    """A declared real (or integer) variable."""
    g = gen_for(("var", name), lambda: Gen("var", name, (), nonneg=nonneg, pos=pos, isint=isint))
    return SNum({mono_id(((g.id, 1),), 0): 1}, "i" if isint else "f")


def gen_num(g, ty="f"):
    return SNum({mono_id(((g.id, 1),), 0): 1}, ty)


# ------------------------------------------------------------------------------------------
# structure helpers
# ------------------------------------------------------------------------------------------
def conj(p):
    if not isinstance(p, SNum):
        p = lift(p)
    if p.t is None or p.ty != "c":
        return p
    r = {}
    for m, c in p.t.items():
        gens, eid = MONOS[m]
        c = c_conj(c)
        if eid:
            E, unit = _exp_split(conj(EXPS[eid].with_ty("c")))
            m = mono_id(gens, exp_id(E))
            if unit != 1:
                c = c * unit
        r[m] = r[m] + c if m in r else c
    return SNum({m: c for m, c in r.items() if c}, p.ty)


def real(p):
    p = lift(p)
    if p.t is None or p.ty != "c":
        return p
    return ((p + conj(p)) * Fraction(1, 2)).with_ty("f")


def imag(p):
    p = lift(p)
    if p.t is None:
        return p
    if p.ty != "c":
        return SNum({}, p.ty)
    return ((p - conj(p)) * SNum({0: -I * Fraction(1, 2)}, "c")).with_ty("f")


def is_real(p):
    return p.ty != "c" or not (p - conj(p)).t


def _content(p):
    """p = c * m * P with c>0 rational, m a monomial dict of non-negative gens, P primitive.

    Returns (c, m, P) or None when the coefficients are not all rational.
    """
    num, den = 0, 1
    for c in p.t.values():
        if isinstance(c, Cyc):
            return None
        c = Fraction(c)
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    cont = Fraction(num, den)
    mins = None
    for m in p.t:
        d = dict(MONOS[m][0])
        if mins is None:
            mins = d
        else:
            mins = {g: min(mins.get(g, 0), d.get(g, 0)) for g in set(mins) | set(d)}
    mins = {g: e for g, e in mins.items() if e and GENS[g].nonneg and GENS[g].kind not in ("ind",)}
    if mins or cont != 1:
        q = {}
        for m, c in p.t.items():
            gens, eid = MONOS[m]
            d = dict(gens)
            for g, e in mins.items():
                d[g] = d.get(g, 0) - e
                if d[g] == 0:
                    del d[g]
            mm = mono_id(tuple(sorted(d.items())), eid)
            q[mm] = _norm(Fraction(c) / cont)
        P = SNum(q, p.ty)
    else:
        P = p
    return _norm(cont), mins, P


def _mono_num(d, ty="f"):
    r = _reduce(dict(d), 0)
    if type(r) is int:
        return SNum({r: 1}, ty)
    return SNum(r, ty)


@lru_cache(None)
def _square_split(n):
    """n = s*s*f with f square-free as far as trial division reaches."""
    s, f = 1, 1
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    p = 2
    while p * p <= n and p < 5000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k % 2:
            f *= p
        p += 1 if p == 2 else 2
    r = math.isqrt(n)
    if r * r == n:
        s *= r
    else:
        f *= n
    return s, f


def _sqrt_rational(c):
    """sqrt of a positive rational as SNum."""
    c = Fraction(c)
    s, f = _square_split(c.numerator * c.denominator)
    out = SNum({0: _norm(Fraction(s, c.denominator))})
    if f != 1:
        out = out * gen_num(_sqrt_gen_poly(SNum({0: f})))
    return out


def _sqrt_gen_poly(P):
    """Generator for sqrt(P), P a primitive polynomial or constant."""
    k = ("sqrt", "p", P.key())

    def mk():
        inv = alias_gen(P)
        return Gen("sqrt", "sqrt", (P, inv.id), nonneg=True, const=P.is_const())

    return gen_for(k, mk)


def _sqrt_gen_single(gid):
    G = GENS[gid]
    return gen_for(("sqrt", "g", gid), lambda: Gen("sqrt", "sqrt", (gen_num(G), gid), nonneg=True, pos=G.pos, const=G.const))


def alias_gen(P):
    def mk():
        q = _quick_sign(P)
        return Gen("alias", "1/", (P,), const=P.is_const(), pos=q == (1, 1), nonneg=q is not None and q[0] >= 0)

    return gen_for(("alias", P.key()), mk)


_sqrt_cache = {}


def sqrt(p):
    p = lift(p)
    if p.t is None:
        return SNum(None, "f")
    if not p.t:
        return SNum({}, _ty2(p.ty, "f"))
    if p.ty == "c" and not is_real(p):
        raise Unsupported("square root of a complex number")
    if p.ty == "c":
        # a complex typed value that is real: numpy would give the principal root
        sg = sign_of(p)
        if sg < 0:
            return sqrt((-p).with_ty("f")) * IMAG
        return sqrt(p.with_ty("f")).with_ty("c")
    # domain
    sg = sign_of(p, need=("<",))
    if sg < 0:
        return SNum(None, "f")
    k = p.key()
    r = _sqrt_cache.get(k)
    if r is None:
        r = _sqrt_cache[k] = _sqrt(p)
    return r


def _sqrt(p):
    r = p.rational()
    if r is not None:
        return _sqrt_rational(r)
    cm = _content(p)
    if cm is None:
        # divide by a common unit so that e.g. i*i factors cannot hide; keep as is
        return gen_num(_sqrt_gen_poly(p.with_ty("f")))
    c, m, P = cm
    if len(P.t) == 1:
        # single monomial: P is 1 times leftover (non-nonneg gens or exponentials)
        mm = next(iter(P.t))
        if P.t[mm] == -1:
            # negative coefficient but non-negative value: keep whole
            return gen_num(_sqrt_gen_poly(p.with_ty("f")))
    out = _sqrt_rational(c)
    half = {}
    for g, e in m.items():
        q, rem = divmod(e, 2)
        if q:
            half[g] = half.get(g, 0) + q
        if rem:
            s = _sqrt_gen_single(g)
            half[s.id] = half.get(s.id, 0) + 1
    if half:
        out = out * _mono_num(half)
    if P.t != {0: 1}:
        # even powers of sign-unknown generators in a single leftover monomial
        if len(P.t) == 1:
            mm, cc = next(iter(P.t.items()))
            gens, eid = MONOS[mm]
            if eid == 0 and cc == 1 and all(e % 2 == 0 for _, e in gens):
                return (out * absolute(_mono_num({g: e // 2 for g, e in gens}))).with_ty("f")
        sq = _poly_sqrt(P)
        if sq is not None:
            out = out * absolute(sq)
        else:
            out = out * gen_num(_sqrt_gen_poly(P.with_ty("f")))
    return out.with_ty("f")


def _poly_sqrt(P):
    """Q with Q*Q == P for simple perfect squares (two-to-four variable cases), else None."""
    n = len(P.t)
    if n < 3 or n > 60:
        return None
    for m, c in P.t.items():
        if isinstance(c, Cyc) or MONOS[m][1]:
            return None
    # square terms: monomials with all even exponents and square coefficients
    # number of terms k of Q satisfies k(k+1)/2 >= n
    k = int((math.isqrt(8 * n + 1) - 1) // 2)
    if k * (k + 1) // 2 != n:
        return None
    roots = []
    for m, c in P.t.items():
        gens = MONOS[m][0]
        if c > 0 and all(e % 2 == 0 for _, e in gens):
            c = Fraction(c)
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                roots.append((tuple((g, e // 2) for g, e in gens), Fraction(a, b)))
    if len(roots) < k or len(roots) > 8:
        return None
    import itertools

    for sub in itertools.combinations(roots, k):
        for signs in itertools.product((1, -1), repeat=k - 1):
            q = SNum({})
            for (gens, c), s in zip(sub, (1,) + signs):
                q = q + _mono_num(dict(gens)) * SNum({0: _norm(c * s)})
            if (q * q).t == P.t:
                return q
    return None


_inv_cache = {}


def inverse(p):
    p = lift(p)
    if p.t is None:
        return p
    if not p.t:
        note("division by zero")
        return SNum(None, _ty2(p.ty, "f"))
    if not (len(p.t) == 1 and 0 in p.t):
        if not nonzero(p):
            return SNum(None, _ty2(p.ty, "f"))
    k = p.key()
    r = _inv_cache.get(k)
    if r is None:
        r = _inv_cache[k] = _inverse(p)
    return r.with_ty(_ty2(p.ty, "f"))


def _inverse(p):
    if len(p.t) == 1:
        m, c = next(iter(p.t.items()))
        gens, eid = MONOS[m]
        if eid:
            E, unit = _exp_split(-EXPS[eid])
            eid = exp_id(E)
        else:
            unit = 1
        r = _reduce({g: -e for g, e in gens}, eid, unit)
        ci = c_inv(c)
        if type(r) is int:
            return SNum({r: ci}, p.ty)
        return SNum(r, p.ty) * SNum({0: ci}, p.ty)
    if p.ty == "c":
        if is_real(p):
            return _inverse(p.with_ty("f"))
        # 1/z = conj(z)/|z|^2
        n = (p * conj(p)).with_ty("f")
        return conj(p) * inverse(n)
    cm = _content(p)
    if cm is None:
        return SNum({mono_id(((alias_gen(p).id, -1),), 0): 1})
    c, m, P = cm
    lead = P.t[max(P.t)]
    if lead < 0:
        P, c = -P, -c
    out = _mono_num({g: -e for g, e in m.items()}) * SNum({0: c_inv(c)})
    return out * SNum({mono_id(((alias_gen(P).id, -1),), 0): 1})


def power(b, e):
    b = lift(b)
    ev = lift(e)
    er = ev.rational()
    if er is None:
        br = b.rational()
        if br == -1 and ev.ty == "i":
            # (-1)**n
            return SNum({0: 1}, "i") - 2 * (ev % 2)
        if ev.ty != "i":
            raise Unsupported("symbolic exponent")
        er = concretize(ev)
    ty = _ty2(b.ty, ev.ty)
    if isinstance(er, int):
        if er < 0:
            return inverse(power(b, -er)).with_ty(_ty2(ty, "f"))
        r = SNum({0: 1}, ty)
        sq = b
        n = er
        while n:
            if n & 1:
                r = r * sq
            n >>= 1
            if n:
                sq = sq * sq
        return r.with_ty(ty)
    if er.denominator == 2:
        s = sqrt(b)
        return power(s, er.numerator).with_ty("f" if b.ty == "i" else b.ty)
    raise Unsupported("exponent %s" % er)


def absolute(p):
    p = lift(p)
    if p.t is None:
        return p if p.ty != "c" else p.with_ty("f")
    if p.ty == "c":
        if is_real(p):
            return absolute(p.with_ty("f"))
        if len(p.t) == 1:
            m, c = next(iter(p.t.items()))
            gens, eid = MONOS[m]
            q = SNum({mono_id(gens, 0): 1})
            n2 = c * c_conj(c)
            E = EXPS[eid] if eid else None
            if E is None or not (E + conj(E.with_ty("c"))).t:
                cc = sqrt(SNum({0: n2}))
                return (absolute(q) * cc).with_ty("f")
        k = ("cabs", p.key())

        def mk():
            n = (p * conj(p)).with_ty("f")
            return Gen("cabs", "|z|", (p, n), nonneg=True, const=p.is_const())

        if len(p.t) <= CABS_EXPAND[0]:
            n = (p * conj(p)).with_ty("f")
            kk = n.key()
            r = _sqrt_cache.get(kk)
            if r is None:
                r = _sqrt_cache[kk] = _sqrt(n)
            return r
        return gen_num(gen_for(k, mk))
    sg = sign_of(p, need=())
    if sg is None:
        if p.is_const():
            return p
        r = _abs_known(p)
        if r is not None:
            return r
        if not SPLIT[0]:
            # |x| = x * (1 - 2 [x<0])
            return (p - 2 * p * indicator(compare(p, ZERO, "<"))).with_ty(p.ty)
        lead = p.t[max(p.t)]
        if (complex(lead).real if isinstance(lead, Cyc) else lead) < 0:
            p = -p
        n = p * p
        if len(p.t) == 1:
            m, c = next(iter(p.t.items()))
            gens, eid = MONOS[m]
            if not eid and not isinstance(c, Cyc):
                # keep the known-sign part outside
                out = {g: e for g, e in gens if GENS[g].nonneg or e % 2 == 0}
                rest = {g: e for g, e in gens if not (GENS[g].nonneg or e % 2 == 0)}
                if out:
                    return (_mono_num(out) * abs(c) * absolute(_mono_num(rest))).with_ty(p.ty)
        k = 1
        if len(p.t) > 1 and not any(isinstance(c, Cyc) for c in p.t.values()):
            # |c x| = c |x|: one generator for all multiples
            fs = [Fraction(c) for c in p.t.values()]
            k = Fraction(math.gcd(*[f.numerator for f in fs]), math.lcm(*[f.denominator for f in fs]))
            if k != 1:
                ty, p = p.ty, (p * _norm(1 / k))
                n = p * p
                return (gen_num(gen_for(("rabs", p.key()), lambda: Gen("cabs", "|x|", (p, n), nonneg=True, const=p.is_const())), p.ty) * _norm(k)).with_ty(ty)
        return gen_num(gen_for(("rabs", p.key()), lambda: Gen("cabs", "|x|", (p, n), nonneg=True, const=p.is_const())), p.ty)
    return p if sg >= 0 else -p


CABS_EXPAND = [6]


def _abs_known(p):
    """p or -p if the current path already fixes its sign."""
    if HOOKS.lookup is None:
        return None
    c = compare(p, ZERO, "<")
    if c is True:
        return -p
    if c is False:
        return p
    r = HOOKS.lookup(c)
    if r is not None:
        return -p if r else p
    r = HOOKS.lookup(compare(p, ZERO, "<="))
    if r:
        return -p
    return None


# ------------------------------------------------------------------------------------------
# exponentials, angles
# ------------------------------------------------------------------------------------------
TWO_PI = 2 * math.pi


@lru_cache(100000)
def _pi_multiple(c):
    """If rational c is (to float accuracy) 2*pi*q with small q, return q, else None."""
    f = float(c)
    q = f / TWO_PI
    fr = Fraction(q).limit_denominator(5040)
    if fr and abs(float(fr) - q) <= 4e-15 * abs(q):
        return fr
    return None


def _exp_split(E):
    """Split exp(E) = unit * exp(E') with roots of unity removed from the constant term.

    Also drops integer-valued monomials times 2*pi*i.
    """
    if not E.t:
        return E, 1
    unit = 1
    t = dict(E.t)
    changed = False
    for m, c in list(t.items()):
        gens, eid = MONOS[m]
        if eid == 0 and all(GENS[g].isint and e > 0 for g, e in gens):
            # c must be purely imaginary rational times i
            r = _imag_rational(c)
            if r is None:
                continue
            q = _pi_multiple(r)
            if q is None:
                continue
            if not gens:
                unit = unit * Cyc.root(q.numerator, q.denominator)
                del t[m]
                changed = True
            else:
                # reduce the multiple modulo 1 (integer monomial)
                q2 = q - math.floor(q)
                if q2 == 0:
                    del t[m]
                    changed = True
    if not changed:
        return E, unit
    return SNum(t, E.ty), unit


def _imag_rational(c):
    """c = i*r -> r, else None."""
    if isinstance(c, Cyc):
        r = c * (-I)
        if not isinstance(r, Cyc):
            return r
    return None


def exp(p):
    """Exponential; purely imaginary constant multiples of pi become roots of unity, angle
    generators become their phasors."""
    p = lift(p)
    if p.t is None:
        return p
    ty = _ty2(p.ty, "f")
    if not p.t:
        return SNum({0: 1}, ty)
    # pull out angle generators: terms i*k*angle with integer k
    rest = {}
    factor = SNum({0: 1}, ty)
    for m, c in p.t.items():
        gens, eid = MONOS[m]
        if eid == 0 and len(gens) == 1 and gens[0][1] == 1 and GENS[gens[0][0]].kind == "angle":
            r = _imag_rational(c)
            if r is not None and Fraction(r).denominator == 1:
                ph = GENS[gens[0][0]].phasor
                k = int(r)
                if k < 0:
                    ph, k = conj(ph), -k
                factor = factor * power(ph, k)
                continue
        rest[m] = c
    E, unit = _exp_split(SNum(rest, p.ty))
    if unit != 1:
        factor = factor * SNum({0: unit}, ty)
    if E.t:
        factor = factor * SNum({mono_id((), exp_id(E.with_ty("c"))): 1}, ty)
    return factor.with_ty(ty)


def cos(p):
    p = lift(p)
    if p.t is None:
        return p
    z = exp(p * IMAG)
    return real(z)


def sin(p):
    p = lift(p)
    if p.t is None:
        return p
    z = exp(p * IMAG)
    return imag(z)


def _angle_gen(key, phasor, ev, const):
    def mk():
        g = Gen("angle", key[0], (ev,), const=const)
        g.phasor = phasor
        return g

    return gen_num(gen_for(key, mk))


def _outside_unit(x):
    """Is |x|>1 on this path (branches)."""
    q = _quick_sign(_scale(x)) if x.t else (0, 0)
    if q is not None and q[0] >= 0:
        return sign_of(1 - x, need=("<",)) < 0
    if q is not None and q[1] <= 0:
        return sign_of(1 + x, need=("<",)) < 0
    return sign_of((1 - x * x), need=("<",)) < 0


def _sqrt_nn(p):
    """Square root of a polynomial known to be non-negative."""
    if not p.t:
        return p
    k = p.key()
    r = _sqrt_cache.get(k)
    if r is None:
        r = _sqrt_cache[k] = _sqrt(p)
    return r


def arcsin(x):
    x = lift(x)
    if x.t is None or not x.t:
        return x.with_ty(_ty2(x.ty, "f"))
    if _outside_unit(x):
        return SNum(None, "f")
    c = _sqrt_nn(1 - x * x)
    return _angle_gen(("arcsin", x.key()), (c + x * IMAG), lambda ev: cmath.asin(ev(x)).real, x.is_const())


def arccos(x):
    x = lift(x)
    if x.t is None:
        return x
    if _outside_unit(x):
        return SNum(None, "f")
    s = _sqrt_nn(1 - x * x)
    return _angle_gen(("arccos", x.key()), (x + s * IMAG), lambda ev: cmath.acos(ev(x)).real, x.is_const())


def arctan(x):
    x = lift(x)
    return arctan2(x, SNum({0: 1}))


def tan(x):
    return sin(x) / cos(x)


def hypot(y, x):
    y, x = lift(y), lift(x)
    return _sqrt_nn(y * y + x * x)


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.t is None or x.t is None:
        return SNum(None)
    n2 = y * y + x * x
    if not n2.t:
        return SNum({}, "f")
    if not n2.is_const() and not nonzero(n2, divide=False):
        return SNum({}, "f")
    # reduce (x, y) by the common positive scale so that equal directions share a generator
    rho = _sqrt_nn(n2)
    ph = (x + y * IMAG) * inverse(rho)
    yr, xr = y, x
    return _angle_gen(("arctan2", ph.key()), ph,
                      lambda ev: math.atan2(ev(yr).real, ev(xr).real), y.is_const() and x.is_const())


def angle(z):
    """np.angle."""
    z = lift(z)
    if z.t is None:
        return SNum(None)
    if not z.t:
        return SNum({}, "f")
    if is_real(z) and z.is_const():
        v = z.numeric().real
        return SNum({}, "f") if v >= 0 else lift(math.pi)
    if not z.is_const() and not nonzero(z, divide=False):
        return SNum({}, "f")
    ph = z * inverse(absolute(z))
    return _angle_gen(("angle", z.key()), ph.with_ty("c"), lambda ev: cmath.phase(ev(z)), z.is_const())


def fn(name, *args, pyfn=None):
    """Uninterpreted real function of polynomials (functional consistency by syntactic key)."""
    args = tuple(lift(a) for a in args)
    key = ("fn", name) + tuple(a.key() for a in args)

    def mk():
        g = Gen("fn", name, (args, pyfn), const=all(a.is_const() for a in args))
        return g

    return gen_num(gen_for(key, mk))


# ------------------------------------------------------------------------------------------
# rounding, integer division, extrema
# ------------------------------------------------------------------------------------------
def floor(p):
    """Integer floor, typed like Python's math.floor."""
    p = lift(p)
    if p.t is None:
        return p
    if p.ty == "i":
        return p
    if p.is_const():
        r = p.rational()
        if r is None:
            v = p.numeric().real
            if abs(v - round(v)) < 1e-9:
                return SNum({0: round(v)} if round(v) else {}, "i")
            return SNum({0: math.floor(v)} if math.floor(v) else {}, "i")
        v = math.floor(r)
        return SNum({0: v} if v else {}, "i")
    if all_int(p):
        return p.with_ty("i")
    g = gen_for(("floor", p.key()), lambda: Gen("floor", "floor", (p,), isint=True))
    return gen_num(g, "i")


def all_int(p):
    """Is p syntactically integer valued?"""
    for m, c in p.t.items():
        gens, eid = MONOS[m]
        if eid or isinstance(c, Cyc) or Fraction(c).denominator != 1:
            return False
        if not all(GENS[g].isint and e > 0 for g, e in gens):
            return False
    return True


def ceil(p):
    return -floor(-lift(p))


def trunc(p):
    p = lift(p)
    if p.t is None:
        raise ValueError("cannot convert float NaN to integer")
    if p.ty == "c":
        raise TypeError("can't convert complex to int")
    if p.ty == "i" or all_int(p):
        return p.with_ty("i")
    if bool(compare(p, ZERO, ">=")):
        return floor(p)
    return -floor(-p)


def rint(p):
    """Round half to even (value is integral, type unchanged by caller)."""
    p = lift(p)
    if p.t is None:
        return p
    if p.ty == "i" or all_int(p):
        return p
    if p.is_const():
        r = p.rational()
        if r is None:
            r = Fraction(p.numeric().real)
        v = round(r)
        return SNum({0: v} if v else {}, "f")
    g = gen_for(("rint", p.key()), lambda: Gen("rint", "rint", (p,), isint=True))
    return gen_num(g, "f")


def floordiv(a, b):
    ty = _ty2(a.ty, b.ty)
    if a.t is None or b.t is None:
        return SNum(None, ty)
    if ty == "c":
        raise TypeError("can't take floor of complex number.")
    br = b.rational()
    ar = a.rational()
    if br is not None and br == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if ar is not None and br is not None:
        v = ar // br if isinstance(ar // br, int) else math.floor(Fraction(ar) / Fraction(br))
        return SNum({0: v} if v else {}, ty)
    if ty == "f":
        return floor((a / b).with_ty("f")).with_ty("f")
    if br is None:
        if bool(compare(b, ZERO, "==")):
            raise ZeroDivisionError("integer division or modulo by zero")
    # a = q*b + r ; peel off the multiple of b in a constant-divisor case
    if br is not None:
        if br < 0:
            a, br = -a, -br
            b = SNum({0: br}, "i")
        whole, rest = {}, {}
        for m, c in a.t.items():
            q, r = divmod(c, br)
            if q:
                whole[m] = q
            if r:
                rest[m] = r
        w = SNum(whole, "i")
        if not rest:
            return w
        rp = SNum(rest, "i")
        if rp.rational() is not None:
            return w + (rp.rational() // br)
        if br == 1:
            return a
        g = gen_for(("idiv", rp.key(), br), lambda: Gen("idiv", "//", (rp, b), isint=True))
        return w + gen_num(g, "i")
    g = gen_for(("idiv", a.key(), b.key()), lambda: Gen("idiv", "//", (a, b), isint=True))
    return gen_num(g, "i")


def maximum(args, kind="max"):
    """Max (or min) of real numbers as one generator; nan propagates."""
    best = {}
    ty = "i"
    for a in args:
        a = lift(a)
        if a.t is None:
            return a
        ty = _ty2(ty, a.ty)
        if len(a.t) == 1 and kind == "max":
            g, e = MONOS[next(iter(a.t))]
            if e == 0 and len(g) == 1 and g[0][1] == 1 and a.t[next(iter(a.t))] == 1 and GENS[g[0][0]].kind == kind:
                for x in GENS[g[0][0]].args:
                    best[x.key()] = x
                continue
        best[a.key()] = a
    vals = list(best.values())
    # drop dominated constants and syntactically comparable entries
    consts = [v for v in vals if v.rational() is not None]
    if len(consts) > 1:
        keep = (max if kind == "max" else min)(consts, key=lambda v: v.rational())
        vals = [v for v in vals if v.rational() is None] + [keep]
    if len(vals) == 1:
        return vals[0].with_ty(ty)
    if len(vals) == 2:
        s = sign_of(vals[0] - vals[1], need=())
        if s is not None:
            pick = vals[0] if (s >= 0) == (kind == "max") else vals[1]
            return pick.with_ty(ty)
        if SPLIT[0]:
            ge = bool(compare(vals[0], vals[1], ">="))
            return (vals[0] if ge == (kind == "max") else vals[1]).with_ty(ty)
    elif SPLIT[0]:
        for i, v in enumerate(vals[:-1]):
            rel = ">=" if kind == "max" else "<="
            if bool(b_and(*[compare(v, w, rel) for j, w in enumerate(vals) if j != i])):
                return v.with_ty(ty)
        return vals[-1].with_ty(ty)
    key = (kind, frozenset(v.key() for v in vals))
    nn = any(sign_of(v, need=()) in (0, 1) for v in vals) if kind == "max" else False
    g = gen_for(key, lambda: Gen(kind, kind, tuple(vals), isint=all(all_int(v) for v in vals), nonneg=nn,
                                 const=all(v.is_const() for v in vals)))
    return gen_num(g, ty)


def fmaximum(args, kind="max"):
    args = [lift(a) for a in args]
    ok = [a for a in args if a.t is not None]
    if not ok:
        return args[0]
    return maximum(ok, kind)


# if True, comparisons used as numbers and extrema split the path instead of staying symbolic
SPLIT = [False]


def where(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(c) is not SBool:
        return a if c else b
    if SPLIT[0]:
        return a if bool(c) else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    a, b = lift(a), lift(b)
    if (a - b).t == {}:
        return a
    i = indicator(c)
    return (i * a + (1 - i) * b).with_ty(_ty2(a.ty, b.ty))


def indicator(c):
    if c is True:
        return SNum({0: 1}, "i")
    if c is False:
        return SNum({}, "i")
    if SPLIT[0]:
        return SNum({0: 1}, "i") if bool(c) else SNum({}, "i")
    pol, base = c.polarity()
    g = gen_for(("ind", base.key()), lambda: Gen("ind", "ind", (base,), nonneg=True, isint=True))
    n = gen_num(g, "i")
    return n if pol else 1 - n


# ------------------------------------------------------------------------------------------
# booleans
# ------------------------------------------------------------------------------------------
class SBool:
    """op in: '<0', '<=0', '==0' (args: poly), 'and', 'or', 'not', 'z3' (args: z3 expr, evaluator)."""

    __slots__ = ("op", "args", "_k")
    __array_ufunc__ = None
    __array_priority__ = 1000
    dtype = property(lambda s: __import__("numpy").dtype(bool))
    shape = ()
    ndim = 0

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._k = None

    @property
    def __class__(self):
        return bool

    def key(self):
        if self._k is None:
            if self.op in ("<0", "<=0", "==0"):
                self._k = (self.op, self.args[0].key())
            elif self.op == "z3":
                self._k = ("z3", self.args[0].get_id())
            else:
                self._k = (self.op,) + tuple(a.key() for a in self.args)
        return self._k

    def polarity(self):
        if self.op == "not":
            p, b = self.args[0].polarity()
            return not p, b
        if self.op == "<=0":
            # p<=0  ==  not(-p<0)
            return False, SBool("<0", (_scale(-self.args[0]),))
        return True, self

    def __bool__(self):
        return branch(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return b_not(self ^ o)
        return lift(self) == o

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(self.key())

    # arithmetic through the indicator
    def __add__(self, o):
        return indicator(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return indicator(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return indicator(self) - o

    def __rsub__(self, o):
        return (-indicator(self)) + o

    def __neg__(self):
        return -indicator(self)

    def __truediv__(self, o):
        return indicator(self) / o

    def __lt__(self, o):
        return indicator(self) < o

    def __gt__(self, o):
        return indicator(self) > o

    def __le__(self, o):
        return indicator(self) <= o

    def __ge__(self, o):
        return indicator(self) >= o

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __format__(self, spec):
        return "<symbool>"

    def __repr__(self):
        if self.op in ("<0", "<=0", "==0"):
            return "(%s %s 0)" % (pretty(self.args[0]), self.op[:-1])
        return "%s%r" % (self.op, self.args)

    def __deepcopy__(self, memo):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def astype(self, dt):
        from . import snp

        return snp.cast(self, snp.to_dtype(dt))

    def item(self):
        return self


def b_not(a):
    if a is True or a is False:
        return not a
    if type(a) is not SBool:
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "<0":
        return SBool("<=0", (-a.args[0],))
    if a.op == "<=0":
        return SBool("<0", (-a.args[0],))
    return SBool("not", (a,))


def b_and(*xs):
    out = []
    for x in xs:
        if type(x) is not SBool:
            if not x:
                return False
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SBool("and", tuple(out))


def b_or(*xs):
    out = []
    for x in xs:
        if type(x) is not SBool:
            if x:
                return True
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SBool("or", tuple(out))


def _scale(p):
    """p times a positive factor: clears positive denominators and normalises the coefficients."""
    if not p.t:
        return p
    mins = {}
    for m in p.t:
        for g, e in MONOS[m][0]:
            if e < 0 and GENS[g].pos:
                mins[g] = min(mins.get(g, 0), e)
    if mins:
        p = p * _mono_num({g: -e for g, e in mins.items()})
    num, den = 0, 1
    for c in p.t.values():
        if isinstance(c, Cyc):
            return p
        c = Fraction(c)
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    s = Fraction(den, num)
    if s != 1:
        p = SNum({m: _norm(c * s) for m, c in p.t.items()}, p.ty)
    return p


_binom_cache = {}


def _binomial(d):
    """Canonical form with the same sign of a difference of two non-negative monomials."""
    k = d.key()
    r = _binom_cache.get(k)
    if r is None:
        r = _binom_cache[k] = _binomial_(d)
    return r


def _binomial_(d):
    (m1, c1), (m2, c2) = d.t.items()
    if isinstance(c1, Cyc) or isinstance(c2, Cyc) or (c1 > 0) == (c2 > 0):
        return d
    g1, e1 = MONOS[m1]
    g2, e2 = MONOS[m2]
    if e1 or e2:
        return d
    for g, e in g1 + g2:
        if not GENS[g].nonneg or e < 0 or GENS[g].kind == "inf":
            return d
    if c1 < 0:
        m1, c1, g1, m2, c2, g2 = m2, c2, g2, m1, c1, g1
    a, b = SNum({m1: c1}), SNum({m2: -c2})
    for _ in range(6):
        if not any(GENS[g].kind in ("sqrt", "cabs") for p in (a, b) for m in p.t for g, _ in MONOS[m][0]):
            break
        a2, b2 = a * a, b * b
        if len(a2.t) != 1 or len(b2.t) != 1:
            # the roots of polynomials disappeared: a - b has the sign of a^2 - b^2
            r = _scale((a2 - b2).with_ty(d.ty))
            return r if len(r.t) <= 2 or True else d
        a, b = a2, b2
    r = _scale(a - b)
    while len(r.t) == 2:
        (m1, c1), (m2, c2) = r.t.items()
        if (c1 > 0) == (c2 > 0):
            return d
        g1, g2 = MONOS[m1][0], MONOS[m2][0]
        # divide by the common positive factor
        com = {g: min(e, dict(g2).get(g, 0)) for g, e in g1}
        com = {g: -e for g, e in com.items() if e > 0 and GENS[g].pos}
        if com:
            r = r * _mono_num(com)
            continue
        if not (g1 or g2) or not all(e % 2 == 0 for _, e in g1 + g2):
            break
        x, y = abs(Fraction(c1)), abs(Fraction(c2))
        rt = [math.isqrt(v) for v in (x.numerator, x.denominator, y.numerator, y.denominator)]
        if [v * v for v in rt] != [x.numerator, x.denominator, y.numerator, y.denominator]:
            break
        h = lambda gs: mono_id(tuple((g, e // 2) for g, e in gs), 0)
        s1, s2 = (1, -1) if c1 > 0 else (-1, 1)
        r = SNum({h(g1): _norm(s1 * Fraction(rt[0], rt[1])), h(g2): _norm(s2 * Fraction(rt[2], rt[3]))})
    return r.with_ty(d.ty) if all_int(r) or d.ty != "i" else r.with_ty("f")


def compare(a, b, rel):
    if a.t is None or b.t is None:
        return rel == "!="
    if a.ty == "c" or b.ty == "c":
        d = a - b
        if rel in ("==", "!="):
            if not d.t:
                return rel == "=="
            if is_real(d):
                r = _cmp0(d.with_ty("f"), "==")
            else:
                r = b_and(_cmp0(real(d), "=="), _cmp0(imag(d), "=="))
            return r if rel == "==" else b_not(r)
        im = imag(d)
        if im.t:
            # numpy orders complex lexicographically
            re = real(d)
            strict = _cmp0(re, "<" if rel[0] == "<" else ">")
            return b_or(strict, b_and(_cmp0(re, "=="), _cmp0(im, rel)))
        return _cmp0(real(d), rel)
    return _cmp0(a - b, rel)


def _cmp0(d, rel):
    if rel == "!=":
        return b_not(_cmp0(d, "=="))
    if rel in (">", ">="):
        d, rel = -d, {">": "<", ">=": "<="}[rel]
    if not d.t:
        return rel != "<"
    if d.is_const():
        r = d.rational()
        if r is None:
            v = d.numeric().real
            r = 0 if abs(v) < 1e-11 * (1 + max(abs(c_float(c)) for c in d.t.values())) else v
        return {"<": r < 0, "<=": r <= 0, "==": r == 0}[rel]
    d = _scale(d)
    if len(d.t) == 2:
        d = _binomial(d)
    q = _quick_sign(d)
    if q is not None:
        lo, hi = q
        if rel == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif rel == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
    if rel == "==":
        # canonical orientation
        lead = d.t[max(d.t)]
        if not isinstance(lead, Cyc) and lead < 0:
            d = -d
        if d.ty == "i" and all_int(d):
            pass
    return SBool(rel + "0", (d,))


def _quick_sign(d):
    """(lo, hi) in {-1,0,1} bounds of the sign when all monomials have known sign, else None."""
    lo = hi = 0
    strict = False
    for m, c in d.t.items():
        gens, eid = MONOS[m]
        if eid:
            return None
        if isinstance(c, Cyc):
            z = complex(c)
            if abs(z.imag) > 1e-12:
                return None
            c = z.real
        s = 1 if c > 0 else -1
        pos = True
        for g, e in gens:
            G = GENS[g]
            if e % 2 == 0:
                if not G.pos:
                    pos = False
                continue
            if not G.nonneg:
                return None
            if not G.pos:
                pos = False
        if s > 0:
            if lo < 0 or hi < 0:
                return None
            hi = 1
            if pos:
                strict = True
            if lo == 0 and strict:
                lo = 0
            sgn = 1
        else:
            if hi > 0:
                return None
            lo = -1
            if pos:
                strict = True
            sgn = -1
    if hi > 0:
        return (1, 1) if strict else (0, 1)
    if lo < 0:
        return (-1, -1) if strict else (-1, 0)
    return (0, 0)


# ------------------------------------------------------------------------------------------
# hooks filled in by ctx
# ------------------------------------------------------------------------------------------
class _Hooks:
    branch = None
    concretize = None
    note = None
    lookup = None


HOOKS = _Hooks()


def branch(b):
    if HOOKS.branch is None:
        raise Unsupported("branch on symbolic condition outside a run: %r" % (b,))
    return HOOKS.branch(b)


def concretize(p):
    r = p.rational()
    if r is not None:
        if not isinstance(r, int):
            raise Unsupported("not an integer: %r" % (p,))
        return r
    if p.t is None:
        raise ValueError("cannot convert float NaN to integer")
    if HOOKS.concretize is None:
        raise Unsupported("concretize outside a run")
    return HOOKS.concretize(p)


def note(msg):
    if HOOKS.note is not None:
        HOOKS.note(msg)


def sign_of(p, need=("<", "==")):
    """-1, 0, 1 or None. `need` lists relations worth asking the path oracle about:
    '<' -> distinguishes p<0 from p>=0 (returns -1 or 1, 1 meaning >=0)."""
    if not p.t:
        return 0
    if p.is_const():
        v = p.numeric().real
        r = p.rational()
        if r is not None:
            return (r > 0) - (r < 0)
        if abs(v) < 1e-11:
            return 0
        return 1 if v > 0 else -1
    q = _quick_sign(_scale(real(p)))
    if q is not None:
        if q[0] >= 0:
            return 1
        if q[1] < 0:
            return -1
        if q[1] <= 0 and "<" not in need:
            return -1
    if "<" in need:
        c = compare(real(p), ZERO, "<")
        return -1 if bool(c) else 1
    return None


def nonzero(p, divide=True):
    """Decide (branching if needed) whether p != 0 on this path."""
    if len(p.t) == 1:
        m, c = next(iter(p.t.items()))
        gens, eid = MONOS[m]
        if all(GENS[g].pos for g, _ in gens):
            return True
    if p.is_const():
        v = p.numeric()
        return abs(v) > 1e-12
    if divide and ASSUME_NONZERO_DIV[0]:
        note("assumed nonzero divisor")
        return True
    if not divide and ASSUME_NONZERO_DIV[0]:
        note("assumed nonzero amplitude")
        return True
    return bool(compare(p, ZERO, "!="))


ASSUME_NONZERO_DIV = [True]


# ------------------------------------------------------------------------------------------
# numeric evaluation
# ------------------------------------------------------------------------------------------
class EvalError(Exception):
    pass


def evalf_raw(p, env, cache):
    """Complex value of p under env {var name: float}."""
    if p.t is None:
        return complex(math.nan)
    tot = 0j
    for m, c in p.t.items():
        v = cache.get(("m", m))
        if v is None:
            gens, eid = MONOS[m]
            v = 1 + 0j
            for g, e in gens:
                x = _evalg(g, env, cache)
                try:
                    v *= x ** e
                except ZeroDivisionError:
                    v = complex(math.nan)
            if eid:
                v *= cmath.exp(evalf_raw(EXPS[eid], env, cache))
            cache[("m", m)] = v
        tot += c_float(c) * v
    return tot


def eval_magnitude(p, env, cache):
    """Sum of the magnitudes of p's terms, after evalf_raw(p, env, cache)."""
    return sum(abs(c_float(c) * cache[("m", m)]) for m, c in p.t.items()) if p.t else 0.0


def _evalg(g, env, cache):
    v = cache.get(("g", g))
    if v is not None:
        return v
    G = GENS[g]
    ev = lambda p: evalf_raw(p, env, cache)
    k = G.kind
    if k == "var":
        if G.name not in env:
            raise EvalError("no value for %s" % G.name)
        v = float(env[G.name])
    elif k == "sqrt":
        v = math.sqrt(max(0.0, ev(G.args[0]).real))
    elif k == "alias":
        v = ev(G.args[0])
    elif k == "cabs":
        v = abs(ev(G.args[0]))
    elif k == "ind":
        v = 1.0 if evalb(G.args[0], env, cache) else 0.0
    elif k == "angle":
        v = G.args[0](ev)
    elif k == "floor":
        x = ev(G.args[0]).real
        v = float(round(x)) if abs(x - round(x)) < 1e-9 else float(math.floor(x))
    elif k == "rint":
        v = float(round(ev(G.args[0]).real))
    elif k == "idiv":
        v = float(round(ev(G.args[0]).real) // round(ev(G.args[1]).real))
    elif k == "max":
        v = max(ev(a).real for a in G.args)
    elif k == "min":
        v = min(ev(a).real for a in G.args)
    elif k == "inf":
        v = math.inf
    elif k == "fn":
        args, py = G.args
        if py is None:
            raise EvalError("no evaluator for %s" % G.name)
        v = py(*[ev(a).real for a in args])
    else:
        raise EvalError(k)
    cache[("g", g)] = v
    return v


def evalb(b, env, cache, tol=0.0):
    if b is True or b is False:
        return b
    op = b.op
    if op in ("<0", "<=0", "==0"):
        v = evalf_raw(b.args[0], env, cache).real
        if op == "<0":
            return v < 0
        if op == "<=0":
            return v <= 1e-12
        return abs(v) < 1e-12
    if op == "and":
        return all(evalb(x, env, cache) for x in b.args)
    if op == "or":
        return any(evalb(x, env, cache) for x in b.args)
    if op == "not":
        return not evalb(b.args[0], env, cache)
    raise EvalError(op)


# ------------------------------------------------------------------------------------------
# zero test / residual
# ------------------------------------------------------------------------------------------
def residual(p, chop=1e-11):
    """Normal form of p for a zero test: denominators cleared (times a nonzero factor), constant
    factors evaluated, float-rounding noise dropped.  Returns an SNum; empty iff p==0 by
    normalisation."""
    if p.t is None:
        return p
    for _ in range(8):
        if not p.t:
            return p
        mins = {}
        for m in p.t:
            for g, e in MONOS[m][0]:
                if e < 0:
                    mins[g] = min(mins.get(g, 0), e)
        if not mins:
            break
        # multiply monomial by monomial so that exact cancellations are used first
        acc = {}
        fac = {g: -e for g, e in mins.items()}
        for m, c in p.t.items():
            gens, eid = MONOS[m]
            d = dict(gens)
            for g, e in fac.items():
                d[g] = d.get(g, 0) + e
            r = _reduce(d, eid)
            for mm, cc in ({r: 1} if type(r) is int else r).items():
                x = acc.get(mm, 0) + c * cc
                if x:
                    acc[mm] = x
                elif mm in acc:
                    del acc[mm]
        p = SNum({m: _norm(c) for m, c in acc.items()}, p.ty)
    if not p.t:
        return p
    # group by the non-constant part of each monomial, evaluate the constant part numerically
    groups = {}
    for m, c in p.t.items():
        gens, eid = MONOS[m]
        nc = tuple((g, e) for g, e in gens if not GENS[g].const)
        cg = tuple((g, e) for g, e in gens if GENS[g].const)
        if eid and EXPS[eid].is_const():
            ce, ne = eid, 0
        else:
            ce, ne = 0, eid
        v = c_float(c)
        if cg or ce:
            v *= evalf_raw(SNum({mono_id(cg, ce): 1}), {}, {})
        k = (nc, ne)
        tot, mag, ms = groups.get(k, (0j, 0.0, []))
        ms.append((m, c))
        groups[k] = (tot + v, mag + abs(v), ms)
    scale = max(g[1] for g in groups.values())
    keep = {}
    for k, (tot, mag, ms) in groups.items():
        if abs(tot) > chop * scale:
            for m, c in ms:
                keep[m] = c
    return SNum(keep, p.ty)


def tidy(p, boxes, eps):
    """(q, slack): p with its constant factors evaluated and rounded, and a bound of |p - q| over the
    box |x| <= boxes[x]; p itself where a factor is not a boxed variable."""
    groups = {}
    for m, c in p.t.items():
        gens, eid = MONOS[m]
        nc = tuple((g, e) for g, e in gens if not GENS[g].const)
        cg = tuple((g, e) for g, e in gens if GENS[g].const)
        if eid or any(g not in boxes or e < 0 for g, e in nc):
            return p, 0
        v = c_float(c)
        if cg:
            v *= evalf_raw(SNum({mono_id(cg, 0): 1}), {}, {})
        t, a = groups.get(nc, (0.0, 0.0))
        groups[nc] = (t + v.real, a + abs(v))
    out, slack = {}, 0.0
    unit = 2.0 ** math.floor(math.log2(eps / max(1, len(groups))))
    for nc, (t, a) in groups.items():
        size = 1.0
        for g, e in nc:
            size *= float(boxes[g]) ** e
        r = round(t / unit)
        slack += size * (unit + 1e-14 * a)
        if r:
            out[mono_id(nc, 0)] = _norm(Fraction(r) * Fraction(unit))
    return SNum(out, p.ty), slack


# ------------------------------------------------------------------------------------------
def subst(p, known, memo, look=None):
    """p with the generators in `known` (gen id -> SNum) replaced and, given look(cond), the
    indicators whose condition is settled."""
    if p.t is None or not p.t:
        return p
    k = p.key()
    r = memo.get(k)
    if r is None:
        if not any(_touched(m, known, memo, look) for m in p.t):
            r = p
        else:
            r = ZERO
            for m, c in p.t.items():
                gens, eid = MONOS[m]
                t = SNum({0: c}, "c" if isinstance(c, Cyc) else "f")
                for g, e in gens:
                    t = t * power(_gsub(g, known, memo, look), lift(e))
                if eid:
                    t = t * exp(subst(EXPS[eid], known, memo, look).with_ty("c"))
                r = r + t
        memo[k] = r
    return r.with_ty(p.ty)


def _touched(m, known, memo, look):
    k = ("t", m)
    r = memo.get(k)
    if r is None:
        gens, eid = MONOS[m]
        r = False
        for g, _ in gens:
            q = _gsub(g, known, memo, look)
            if not (len(q.t or ()) == 1 and q.t == gen_num(GENS[g]).t):
                r = True
                break
        if not r and eid:
            r = subst(EXPS[eid], known, memo, look).t != EXPS[eid].t
        memo[k] = r
    return r


def _gsub(g, known, memo, look):
    k = ("g", g)
    r = memo.get(k)
    if r is not None:
        return r
    G = GENS[g]
    same = gen_num(G)
    memo[k] = same  # cycles cannot occur, but be safe
    f = lambda x: subst(x, known, memo, look)
    r = same
    if g in known:
        r = known[g]
    elif G.kind == "ind":
        v = look(G.args[0]) if look else None
        if v is not None:
            r = lift(1 if v else 0)
        else:
            b = bsubst(G.args[0], known, memo, look)
            if b is True or b is False:
                r = lift(1 if b else 0)
    elif G.kind in ("floor", "rint", "idiv", "max", "min", "sqrt", "alias"):
        args = [x for x in G.args if type(x) is SNum]
        new = [f(x) for x in args]
        if any(a.t != b.t for a, b in zip(args, new)):
            if G.kind == "floor":
                r = floor(new[0])
            elif G.kind == "rint":
                r = rint(new[0])
            elif G.kind == "idiv":
                r = floordiv(new[0].with_ty("i"), new[1].with_ty("i"))
            elif G.kind in ("max", "min"):
                r = maximum(new, G.kind)
            elif G.kind == "sqrt":
                r = sqrt(new[0].with_ty("f"))
            elif G.kind == "alias":
                r = new[0]
    memo[k] = r
    return r


def bsubst(b, known, memo, look):
    if b is True or b is False:
        return b
    if b.op in ("<0", "<=0", "==0"):
        p = subst(b.args[0], known, memo, look)
        return compare(p, ZERO, {"<0": "<", "<=0": "<=", "==0": "=="}[b.op])
    if b.op == "not":
        return b_not(bsubst(b.args[0], known, memo, look))
    return (b_and if b.op == "and" else b_or)(*[bsubst(a, known, memo, look) for a in b.args])


# ------------------------------------------------------------------------------------------
def pretty(p, limit=6):
    if p.t is None:
        return "nan"
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:limit]:
        gens, eid = MONOS[m]
        s = []
        for g, e in gens:
            G = GENS[g]
            nm = G.name if G.kind == "var" else "%s%d" % (G.name, G.id)
            s.append(nm if e == 1 else "%s^%d" % (nm, e))
        if eid:
            s.append("exp(#%d)" % eid)
        cs = str(c) if not isinstance(c, Cyc) else "(%.4g%+.4gj)" % (complex(c).real, complex(c).imag)
        out.append("*".join([cs] + s))
    if len(p.t) > limit:
        out.append("...%d terms" % len(p.t))
    return " + ".join(out)
