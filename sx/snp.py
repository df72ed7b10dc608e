"""Symbolic numpy: the array operations the code under test uses, over SNum / SBool elements.

An array is an object ndarray (`.a`, so views alias exactly as in numpy) plus the real dtype numpy
would give it.  dtypes of results come from running the real numpy function on dummies.
"""
import builtins
import math
import operator
import types
from fractions import Fraction

import numpy as np

from . import num as N
from .num import SNum, SBool, Unsupported, lift

F64, C128, I64, B8 = np.dtype(float), np.dtype(complex), np.dtype("int64"), np.dtype(bool)


def to_dtype(dt):
    if dt is None:
        return None
    if isinstance(type(dt), type) and issubclass(type(dt), _TypeMeta):
        return np.dtype(dt._real)
    return np.dtype(dt)


# ------------------------------------------------------------------------------------------
# elements
# ------------------------------------------------------------------------------------------
_KIND_TY = {"f": "f", "c": "c", "i": "i", "u": "i", "b": "i"}


def elem(x, dt):
    """Represent scalar x as an element of an array of dtype dt (no range change)."""
    k = dt.kind
    t = type(x)
    if k in "fc":
        if t is not SNum:
            x = lift(x)
        ty = "f" if k == "f" else "c"
        return x if x.ty == ty else x.with_ty(ty)
    if k in "iu":
        if t is SNum:
            r = x.rational()
            if r is not None and type(r) is builtins.int:
                return r
            return x.with_ty("i")
        if t is SBool:
            return N.indicator(x)
        return builtins.int(x)
    if k == "b":
        if t is SBool or t is bool:
            return x
        if t is SNum:
            return N.compare(x, N.ZERO, "!=")
        return bool(x)
    return x


def wrap_int(x, dt):
    """Reduce an integer element modulo the width of dt."""
    bits = dt.itemsize * 8
    if type(x) is SNum:
        r = x.rational()
        if r is not None:
            x = r
    if type(x) is not SNum:
        x = builtins.int(x)
        if dt.kind == "u":
            return x % (1 << bits)
        h = 1 << (bits - 1)
        return (x + h) % (1 << bits) - h
    if bits >= 64 and dt.kind == "i":
        return x
    m = 1 << bits
    if dt.kind == "u":
        if N.sign_of(x, need=()) in (0, 1) and x.key() in _INRANGE.get(bits, ()):
            return x
        return (x - m * N.floordiv(x, lift(m))).with_ty("i")
    h = m >> 1
    return (x - m * N.floordiv(x + h, lift(m))).with_ty("i")


_INRANGE = {}


def declare_range(x, dt):
    """x is known to be representable in dt."""
    if dt.kind in "iu" and dt.itemsize < 8 or dt.kind == "u":
        for b in (8, 16, 32, 64):
            if b >= dt.itemsize * 8:
                _INRANGE.setdefault(b, set()).add(x.key())


def cast(x, dt):
    """astype of one element."""
    k = dt.kind
    if type(x) not in (SNum, SBool):
        if k == "O":
            return x
        if k in "fc":
            return elem(x, dt) if k == "c" or not isinstance(x, complex) else elem(x.real, dt)
        if k == "b":
            return bool(x)
        if isinstance(x, (complex, np.complexfloating)):
            x = x.real
        if k in "iu":
            return wrap_int(builtins.int(x), dt)
        return x
    if k == "b":
        return elem(x, dt)
    if type(x) is SBool:
        x = N.indicator(x)
    if k == "c":
        return x.with_ty("c")
    if k == "f":
        return N.real(x).with_ty("f")
    if k in "iu":
        if x.t is None:
            raise Unsupported("cast of nan to integer")
        x = N.trunc(N.real(x).with_ty("f") if x.ty == "c" else x)
        return elem(wrap_int(x, dt), dt)
    if k == "O":
        return x
    raise Unsupported("cast to %s" % dt)


def scalar_dtype(x):
    t = type(x)
    if t is SNum:
        return {"i": I64, "f": F64, "c": C128}[x.ty]
    if t is SBool or isinstance(x, (bool, np.bool_)):
        return B8
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, builtins.int):
        return I64
    if isinstance(x, (builtins.float, Fraction)):
        return F64
    if isinstance(x, builtins.complex):
        return C128
    return None


def is_scalar(x):
    return type(x) in (SNum, SBool) or isinstance(x, (bool, builtins.int, builtins.float, builtins.complex, np.generic, Fraction))


def out_scalar(x, dt):
    """What numpy hands out for a 0-d result."""
    if type(x) is builtins.int:
        return dt.type(x) if dt.kind in "iu" else x
    if type(x) is bool:
        return np.bool_(x)
    return x


def _objarr(shape):
    return np.empty(shape, dtype=object)


# ------------------------------------------------------------------------------------------
class SymArray:
    __array_ufunc__ = None
    __array_priority__ = 2000
    __slots__ = ("a", "_dt", "__weakref__")

    def __init__(self, a, dt):
        self.a = a
        self._dt = dt

    # ---- basics
    @property
    def dtype(self):
        return self._dt

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = _ints(s) if not is_scalar(s) else _int(s)

    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)
    T = property(lambda s: SymArray(s.a.T, s._dt))
    itemsize = property(lambda s: s._dt.itemsize)
    nbytes = property(lambda s: s._dt.itemsize * s.a.size)
    flags = property(lambda s: s.a.flags)
    base = property(lambda s: s.a.base)

    @property
    def real(self):
        if self._dt.kind != "c":
            return self
        return _emap1(N.real, self, F64)

    @real.setter
    def real(self, v):
        new = asarray(v)
        self[...] = new + 1j * self.imag

    @property
    def imag(self):
        return _emap1(N.imag, self, F64) if self._dt.kind == "c" else zeros(self.shape, self._dt)

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * asarray(v)

    @property
    def flat(self):
        return _Flat(self)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        if N.TOKENS[0] is not None:
            return "array(%r)" % (self.tolist(),)
        return "SymArray(%s, %s)" % (self.shape, self._dt)

    def __format__(self, spec):
        return str(self) if N.TOKENS[0] is not None else "<symarray>"

    def __str__(self):
        return N.token(self) if N.TOKENS[0] is not None else repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = lambda self: self.copy()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def _one(self):
        if self.a.size != 1:
            return None
        return self.a.reshape(-1)[0]

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self._one())

    def __int__(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return builtins.int(self._one())

    def __float__(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return builtins.float(self._one())

    def __index__(self):
        if self.a.ndim or self._dt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._one())

    def item(self, *a):
        x = self.a.item(*a)
        return x

    def tolist(self):
        return self.a.tolist()

    # ---- indexing
    def __getitem__(self, key):
        key = _key(key, self.shape)
        r = self.a[key]
        if isinstance(r, np.ndarray) and not _scalar_key(key, self.a.ndim):
            return SymArray(r, self._dt)
        return out_scalar(r, self._dt)

    def __setitem__(self, key, val):
        k0 = key
        if isinstance(key, tuple) and len(key) == 1:
            k0 = key[0]
        if type(k0) is SymArray and k0._dt.kind == "b" and k0.shape == self.shape and _has_sym_bool(k0):
            if is_scalar(val) or (isinstance(val, SymArray) and val.ndim == 0):
                v = cast(val if is_scalar(val) else val._one(), self._dt)
                fa, fm = self.a, k0.a
                for i in np.ndindex(*self.shape):
                    m = fm[i]
                    if m is True or m is False:
                        if m:
                            fa[i] = v
                    else:
                        fa[i] = elem(N.where(m, v, fa[i]), self._dt)
                return
        key = _key(key, self.shape)
        if is_scalar(val):
            v = cast(val, self._dt)
            tgt = self.a[key]
            if isinstance(tgt, np.ndarray) and not _scalar_key(key, self.a.ndim):
                b = _objarr(())
                b[()] = v
                self.a[key] = np.broadcast_to(b, tgt.shape)
            else:
                self.a[key] = v
            return
        val = asarray(val)
        src = _castarr(val.a, val._dt, self._dt)
        if src.ndim == 0:
            if _scalar_key(key, self.a.ndim):
                self.a[key] = src[()]
                return
        self.a[key] = src.copy() if src is val.a else src

    # ---- methods
    def copy(self, order=None):
        return SymArray(self.a.copy(), self._dt)

    def astype(self, dt, copy=True, **kw):
        dt = to_dtype(dt)
        if dt == self._dt:
            return self.copy() if copy else self
        return SymArray(_castarr(self.a, self._dt, dt), dt)

    def view(self, *a, **k):
        if not a and not k:
            return SymArray(self.a.view(), self._dt)
        raise Unsupported("ndarray.view")

    def fill(self, v):
        self[...] = v

    def reshape(self, *s, order="C"):
        if len(s) == 1:
            s = s[0]
        s = _ints(s) if not is_scalar(s) else _int(s)
        return SymArray(self.a.reshape(s, order=order), self._dt)

    def ravel(self, order="C"):
        return SymArray(self.a.ravel(), self._dt)

    def flatten(self, order="C"):
        return SymArray(self.a.flatten(), self._dt)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self._dt)

    def transpose(self, *ax):
        return SymArray(self.a.transpose(*ax), self._dt)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self._dt)

    def repeat(self, n, axis=None):
        return SymArray(self.a.repeat(n, axis), self._dt)

    def take(self, idx, axis=None, **k):
        return take(self, idx, axis)

    def conj(self):
        return conjugate(self)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum(self, axis, dtype, out, keepdims)

    def prod(self, axis=None, **k):
        return prod(self, axis, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, dtype, out, keepdims)

    def std(self, axis=None, **k):
        return std(self, axis, **k)

    def var(self, axis=None, **k):
        return var(self, axis, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return amax(self, axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return amin(self, axis, keepdims=keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, out=None):
        return argmax(self, axis)

    def argmin(self, axis=None, out=None):
        return argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def nonzero(self):
        return nonzero(self)

    def any(self, axis=None, out=None, keepdims=False):
        return any_(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return all_(self, axis, keepdims=keepdims)

    def clip(self, a_min=None, a_max=None, **k):
        return clip(self, a_min, a_max)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def dot(self, o):
        return dot(self, o)

    def diagonal(self, *a, **k):
        return SymArray(self.a.diagonal(*a, **k), self._dt)

    # ---- operators
    def __neg__(self):
        return negative(self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        return invert(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __divmod__(self, o):
        return floor_divide(self, o), remainder(self, o)


class _Flat:
    def __init__(self, arr):
        self.arr = arr

    def __iter__(self):
        for x in self.arr.a.flat:
            yield out_scalar(x, self.arr._dt)

    def __len__(self):
        return self.arr.a.size

    def __getitem__(self, k):
        return self.arr.ravel()[k]

    def __setitem__(self, k, v):
        idx = np.arange(self.arr.a.size)[k]
        flat = self.arr.a.reshape(-1)
        if flat.base is not self.arr.a and flat is not self.arr.a:
            pass
        vv = asarray(v)
        vals = np.broadcast_to(_castarr(vv.a, vv._dt, self.arr._dt), np.shape(idx))
        for i, x in zip(np.atleast_1d(idx), np.atleast_1d(vals)):
            self.arr.a[np.unravel_index(i, self.arr.a.shape)] = x


ndarray = SymArray


def _castarr(a, src, dt):
    if src == dt:
        return a
    out = _objarr(a.shape)
    for i in np.ndindex(*a.shape):
        out[i] = cast(a[i], dt)
    return out


def _has_sym_bool(m):
    return builtins.any(type(x) is SBool for x in m.a.flat)


def _int(x):
    if type(x) is SNum:
        return operator.index(x)
    return operator.index(x)


def _ints(s):
    if is_scalar(s):
        return _int(s)
    return tuple(_int(x) for x in s)


def _scalar_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    return len(key) == ndim and builtins.all(isinstance(k, (builtins.int, np.integer)) and not isinstance(k, (bool, np.bool_)) for k in key)


def _key1(k):
    if type(k) is SNum:
        if k.ty != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                             "boolean arrays are valid indices")
        return N.concretize(k)
    if type(k) is SBool:
        return bool(k)
    if isinstance(k, slice):
        f = lambda x: x if x is None else _int(x)
        return slice(f(k.start), f(k.stop), f(k.step))
    if type(k) is SymArray:
        kind = k._dt.kind
        if kind == "b":
            out = np.empty(k.shape, bool)
            for i in np.ndindex(*k.shape):
                out[i] = bool(k.a[i])
            return out
        if kind in "iu":
            out = np.empty(k.shape, np.int64)
            for i in np.ndindex(*k.shape):
                out[i] = _int(k.a[i])
            return out if out.ndim else builtins.int(out)
        if k.size == 0:
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, (list, np.ndarray)):
        return _key1(asarray(k))
    return k


def _in_bounds(k, n):
    """Symbolic integer indices are checked before they are enumerated."""
    if type(k) is SNum and k.ty == "i":
        if not bool(N.b_and(k >= -n, k < n)):
            raise IndexError("index is out of bounds for axis with size %d" % n)
    elif type(k) is SymArray and k._dt.kind in "iu":
        for v in k.a.flat:
            if type(v) is SNum:
                _in_bounds(v, n)


def _key(key, shape):
    if isinstance(key, tuple):
        if builtins.all(type(k) is SNum or isinstance(k, (builtins.int, slice, SymArray)) for k in key) and not builtins.any(
                type(k) is SymArray and k._dt.kind == "b" for k in key):
            for k, n in zip(key, shape):
                _in_bounds(k, n)
        return tuple(_key1(k) for k in key)
    if shape:
        _in_bounds(key, shape[0])
    return _key1(key)


class ShapeArray:
    """An array of which only the shape is modelled, each length a symbolic integer.  Slicing and
    padding track where the original samples go: sample i of the source is at index i + shift."""

    __fake_array__ = True
    __array_ufunc__ = None

    def __init__(self, shape, shift=None, lo=None, hi=None, dt=None):
        self.shape = tuple(shape)
        z = lift(0)
        self.shift = shift or [z] * len(self.shape)
        self.lo = lo or [z] * len(self.shape)  # surviving source samples [lo, hi)
        self.hi = hi or [lift(n) for n in self.shape]
        self.dtype = dt or F64
        self.ndim = len(self.shape)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("ndarray.%s on a shape model" % n)

    def __len__(self):
        return self.shape[0]

    def copy(self):
        return self

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if builtins.any(k is Ellipsis for k in key):
            i = key.index(Ellipsis)
            key = key[:i] + (slice(None),) * (self.ndim - len(key) + 1) + key[i + 1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        shp, sh, lo, hi = [], [], [], []
        for k, n, s, a, b in zip(key, self.shape, self.shift, self.lo, self.hi):
            if not isinstance(k, slice) or k.step not in (None, 1):
                raise Unsupported("indexing a shape model")

            def norm(x, d):
                if x is None:
                    return lift(d)
                x = lift(x)
                if bool(x < 0):
                    x = x + n
                    return x if bool(x >= 0) else lift(0)
                return x if bool(x <= n) else lift(n)

            st, en = norm(k.start, 0), norm(k.stop, n)
            if bool(en < st):
                en = st
            shp.append(en - st)
            sh.append(s - st)
            # source sample i sits at i + s; it survives when st <= i + s < en
            la, hb = st - s, en - s
            lo.append(la if bool(la > a) else a)
            hi.append(hb if bool(hb < b) else b)
        return ShapeArray(shp, sh, lo, hi, self.dtype)

    def pad(self, pw, mode="constant", **kw):
        pw = list(pw)
        if len(pw) != self.ndim:
            raise Unsupported("broadcast pad width on a shape model")
        shp, sh = [], []
        for (a, b), n, s in zip(pw, self.shape, self.shift):
            if bool(lift(a) < 0) or bool(lift(b) < 0):
                raise ValueError("index can't contain negative values")
            shp.append(a + n + b)
            sh.append(s + a)
        return ShapeArray(shp, sh, self.lo, self.hi, self.dtype)


# ------------------------------------------------------------------------------------------
# construction
# ------------------------------------------------------------------------------------------
def from_objects(a, dt):
    """Build from an object ndarray of scalars."""
    out = _objarr(a.shape)
    for i in np.ndindex(*a.shape):
        out[i] = elem(a[i], dt)
    return SymArray(out, dt)


def _nested(x):
    """(object ndarray, dtype) for a nested sequence / array / scalar."""
    if type(x) is SymArray:
        return x.a, x._dt
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            dts = [scalar_dtype(v) for v in x.flat]
            dt = np.result_type(*dts) if dts else F64
            return from_objects(x, dt).a, dt
        return from_objects(x.astype(object), x.dtype).a, x.dtype
    if is_scalar(x):
        dt = scalar_dtype(x)
        a = _objarr(())
        a[()] = elem(x, dt)
        return a, dt
    if isinstance(x, (range,)):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return _objarr((0,)), F64
        subs = [_nested(v) for v in x]
        shp = subs[0][0].shape
        for s in subs:
            if s[0].shape != shp:
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
        dt = np.result_type(*[s[1] for s in subs])
        out = _objarr((len(subs),) + shp)
        for i, (a, d) in enumerate(subs):
            out[i] = _castarr(a, d, dt) if a.ndim else cast(a[()], dt)
        return out, dt
    if hasattr(x, "__fake_array__"):
        raise Unsupported("array() of an abstract array")
    if hasattr(x, "__iter__") and not isinstance(x, (str, dict, set)):
        return _nested(list(x))
    return None, None


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False, **k):
    dt = to_dtype(dtype)
    a, d = _nested(x)
    if a is None:
        return np.array(x, dtype=dtype)
    if dt is not None and dt != d:
        a = _castarr(a, d, dt)
        d = dt
    elif copy and type(x) in (SymArray, np.ndarray):
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    return SymArray(a, d)


def asarray(x, dtype=None, order=None, **k):
    if type(x) is SymArray and (dtype is None or to_dtype(dtype) == x._dt):
        return x
    return array(x, dtype, copy=False)


asanyarray = ascontiguousarray = asfarray_ = asarray


def asfarray(x, dtype=float):
    return asarray(x, dtype)


def full(shape, v, dtype=None, order="C", **k):
    dt = to_dtype(dtype)
    if isinstance(v, SymArray):
        out = empty(shape, dt or v._dt)
        out[...] = v
        return out
    if dt is None:
        dt = scalar_dtype(v)
    a = _objarr(_ints(shape))
    e = cast(v, dt)
    for i in np.ndindex(*a.shape):
        a[i] = e
    return SymArray(a, dt)


def zeros(shape, dtype=float, order="C", **k):
    return full(shape, 0, to_dtype(dtype) or F64)


def ones(shape, dtype=None, order="C", **k):
    return full(shape, 1, to_dtype(dtype) or F64)


def empty(shape, dtype=float, order="C", **k):
    """Uninitialised memory: reading it before writing is an error, modelled as nan."""
    dt = to_dtype(dtype) or F64
    if dt.kind in "fc":
        return full(shape, math.nan, dt)
    return full(shape, 0, dt)


def zeros_like(x, dtype=None, order="K", subok=True, shape=None):
    x = asarray(x)
    return zeros(x.shape if shape is None else shape, dtype or x.dtype)


def ones_like(x, dtype=None, order="K", subok=True, shape=None):
    x = asarray(x)
    return ones(x.shape if shape is None else shape, dtype or x.dtype)


def empty_like(x, dtype=None, order="K", subok=True, shape=None):
    x = asarray(x)
    return empty(x.shape if shape is None else shape, dtype or x.dtype)


def full_like(x, v, dtype=None, **k):
    x = asarray(x)
    return full(x.shape, v, dtype or x.dtype)


def copy(x, **k):
    return array(x)


def arange(*args, dtype=None, **k):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    dts = [scalar_dtype(x) for x in args]
    dt = to_dtype(dtype) or np.result_type(*dts)
    n = N.ceil((lift(stop) - lift(start)) / lift(step)).with_ty("i")
    n = builtins.max(0, N.concretize(n))
    out = _objarr((n,))
    for i in range(n):
        v = lift(start) + i * lift(step)
        out[i] = cast(elem(v, np.result_type(*dts)), dt)
    return SymArray(out, dt)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _int(num)
    start, stop = lift(start), lift(stop)
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div > 0 else N.NAN
    out = [start + i * step if div > 0 else start for i in range(num)]
    r = array(out, dtype=dtype or (C128 if "c" in (start.ty, stop.ty) else F64)) if out else zeros(0)
    return (r, step) if retstep else r


def eye(n, m=None, k=0, dtype=float):
    return asarray(np.eye(n, m, k).astype(to_dtype(dtype)))


identity = eye


def indices(dimensions, dtype=int, sparse=False):
    r = np.indices(_ints(dimensions), sparse=sparse)
    if sparse:
        return tuple(asarray(x) for x in r)
    return asarray(r)


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = [asarray(x).ravel() for x in xs]
    r = np.meshgrid(*[x.a for x in xs], indexing=indexing, sparse=sparse, copy=True)
    return [SymArray(g, x._dt) for g, x in zip(r, xs)]


class _MGrid:
    def __init__(self, sparse):
        self.g = np.ogrid if sparse else np.mgrid

    def __getitem__(self, key):
        def num(v):
            return v if v is None or isinstance(v, complex) else _int(v) if type(v) is not SNum or v.ty == "i" else N.lift(v).const_value() if hasattr(v, "const_value") else v

        def con(s):
            if isinstance(s, slice) and builtins.any(type(v) in (SNum, SymArray) for v in (s.start, s.stop, s.step)):
                return slice(num(s.start), num(s.stop), num(s.step))
            return s

        r = self.g[tuple(con(s) for s in key) if isinstance(key, tuple) else con(key)]
        return [asarray(x) for x in r] if isinstance(r, (list, tuple)) else asarray(r)


mgrid, ogrid = _MGrid(False), _MGrid(True)


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return concatenate([atleast_1d(arange(k.start or 0, k.stop, k.step or 1) if isinstance(k, slice) else k) for k in key])


r_ = _R()


def fromfunction(f, shape, dtype=float, **k):
    return f(*indices(shape, dtype=dtype), **k)


# ------------------------------------------------------------------------------------------
# ufuncs
# ------------------------------------------------------------------------------------------
_dt_cache = {}


def _dummy(x):
    if type(x) is SymArray:
        return np.ones((1,) * 1 if x.ndim else (), x._dt) if x.ndim else x._dt.type(1)
    if type(x) is SNum:
        return {"i": np.int64, "f": np.float64, "c": np.complex128}[x.ty](1)
    if type(x) is SBool:
        return np.bool_(True)
    if isinstance(x, Fraction):
        return 1.0
    return x


def _res_dtype(uf, args):
    ds = [_dummy(a) for a in args]
    try:
        key = (uf.__name__,) + tuple((type(d), d.dtype, d.ndim) if isinstance(d, np.ndarray) else (type(d), d) for d in ds)
        r = _dt_cache.get(key)
    except TypeError:
        key, r = None, None
    if r is None:
        with np.errstate(all="ignore"):
            o = uf(*ds)
        if isinstance(o, tuple):
            r = tuple(np.asarray(x).dtype for x in o)
        else:
            r = np.asarray(o).dtype
        if key is not None:
            _dt_cache[key] = r
    return r


def _obj(x):
    if type(x) is SymArray:
        return x.a
    a = _objarr(())
    a[()] = x if type(x) in (SNum, SBool, bool, builtins.int) else (lift(x) if not isinstance(x, np.bool_) else bool(x))
    return a


def _emap1(f, x, dt):
    out = _objarr(x.a.shape)
    for i in np.ndindex(*x.a.shape):
        out[i] = elem(f(x.a[i]), dt)
    return SymArray(out, dt)


def _norm_arg(x):
    if type(x) is SymArray or is_scalar(x):
        return x
    if x is None or isinstance(x, str):
        raise TypeError("unsupported operand type(s): %s" % type(x).__name__)
    if hasattr(x, "__fake_array__"):
        raise Unsupported("operation on an abstract array")
    return asarray(x)


class Ufunc:
    """Elementwise function with numpy's dtype and broadcasting rules."""

    def __init__(self, name, f, nin=1, identity=None, prep=True):
        self.__name__ = name
        self.f = f
        self.nin = nin
        self.real = getattr(np, name)
        self.identity = identity
        self.prep = prep

    def __repr__(self):
        return "<ufunc %s>" % self.__name__

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **k):
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[: self.nin]
        if isinstance(out, tuple):
            out = out[0]
        args = [_norm_arg(a) for a in args]
        dt = _res_dtype(self.real, args)
        if dtype is not None:
            dt = to_dtype(dtype)
        # operands are promoted to the operation's type first
        arrs = [_obj(a) for a in args]
        if len(arrs) == 1:
            shp = arrs[0].shape
            bs = arrs
        else:
            bs = np.broadcast_arrays(*arrs)
            shp = bs[0].shape
        res = _objarr(shp)
        f = self.f
        intres = dt.kind in "iu" and self.__name__ in _ARITH
        for i in np.ndindex(*shp):
            v = f(*[b[i] for b in bs])
            v = elem(v, dt)
            if intres and not (dt.kind == "i" and dt.itemsize == 8):
                v = elem(wrap_int(v, dt), dt)
            res[i] = v
        r = SymArray(res, dt)
        if where is not True:
            w = asarray(where)
            if out is None:
                out = zeros(shp, dt)
            wb = np.broadcast_to(w.a, shp)
            for i in np.ndindex(*shp):
                if bool(wb[i]):
                    out.a[i] = cast(res[i], out._dt)
            return out
        if out is not None:
            if not np.can_cast(dt, out._dt, "same_kind"):
                raise np.core._exceptions.UFuncTypeError("Cannot cast ufunc output") if False else TypeError(
                    "Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (self.__name__, dt, out._dt))
            if out.a.shape != shp:
                np.broadcast_to(np.empty(shp), out.a.shape)
                if np.broadcast_shapes(shp, out.a.shape) != out.a.shape:
                    raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.a.shape, shp))
            src = _castarr(res, dt, out._dt)
            out.a[...] = src if src.ndim else np.broadcast_to(src, out.a.shape)
            return out
        if shp == ():
            return out_scalar(res[()], dt)
        return r

    def reduce(self, x, axis=0, dtype=None, out=None, keepdims=False, **k):
        return _reduce_generic(self, asarray(x), axis, keepdims)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def accumulate(self, x, axis=0):
        x = asarray(x)
        mv = moveaxis(x, axis, 0)
        rows = [mv[0]]
        for i in range(1, len(mv)):
            rows.append(self(rows[-1], mv[i]))
        return moveaxis(array(rows), 0, axis)

    def at(self, a, idx, b=None):
        ii = _key1(asarray(idx)) if not isinstance(idx, tuple) else tuple(_key1(asarray(i)) for i in idx)
        if b is None:
            raise Unsupported("ufunc.at")
        bb = np.broadcast_to(asarray(b).a, np.shape(ii if not isinstance(ii, tuple) else ii[0]))
        it = np.ndindex(*bb.shape)
        for i in it:
            k = ii[i] if not isinstance(ii, tuple) else tuple(x[i] for x in ii)
            a[k] = self(a[k], bb[i])


_ARITH = {"add", "subtract", "multiply", "negative", "power", "square", "absolute", "left_shift"}


def _num(f):
    def g(*xs):
        return f(*[x if type(x) is SNum else lift(x) for x in xs])

    return g


def _add(a, b):
    if type(a) in (bool, SBool) and type(b) in (bool, SBool):
        return N.b_or(a, b)
    return a + b if type(a) is not SBool else lift(a) + b


def _mul(a, b):
    if type(a) in (bool, SBool) and type(b) in (bool, SBool):
        return N.b_and(a, b)
    if type(a) in (bool, SBool):
        a = lift(a)
    return a * b


def _div(a, b):
    a, b = lift(a), lift(b)
    if b.t == {}:
        if not a.t:
            return N.NAN
        if a.ty != "c":
            inf = lift(math.inf)
            s = N.sign_of(a, need=())
            if s is None:
                s = 1 if bool(a > 0) else -1
            N.note("division by zero gives inf")
            return inf if s > 0 else -inf
        return N.NAN
    return a / b


def _floor_div(a, b):
    a, b = lift(a), lift(b)
    if b.t == {}:
        if a.ty == "i" and b.ty == "i":
            return lift(0)
        return N.NAN
    return N.floordiv(a, b)


def _mod(a, b):
    a, b = lift(a), lift(b)
    if b.t == {}:
        return lift(0) if a.ty == "i" and b.ty == "i" else N.NAN
    return a % b


def _pow(a, b):
    return N.power(lift(a), lift(b))


def _and(a, b):
    if type(a) in (bool, SBool) and type(b) in (bool, SBool):
        return N.b_and(a, b)
    if type(a) is builtins.int and type(b) is builtins.int:
        return a & b
    if type(b) is builtins.int and b == 1:
        return lift(a) % 2
    raise Unsupported("bitwise and on symbolic integers")


def _or(a, b):
    if type(a) in (bool, SBool) and type(b) in (bool, SBool):
        return N.b_or(a, b)
    if type(a) is builtins.int and type(b) is builtins.int:
        return a | b
    raise Unsupported("bitwise or on symbolic integers")


def _xor(a, b):
    if type(a) in (bool, SBool) and type(b) in (bool, SBool):
        return N.b_or(N.b_and(a, N.b_not(b)), N.b_and(N.b_not(a), b))
    if type(a) is builtins.int and type(b) is builtins.int:
        return a ^ b
    raise Unsupported("xor")


def _not(a):
    if type(a) in (bool, SBool):
        return N.b_not(a)
    if type(a) is builtins.int:
        return ~a
    return -lift(a) - 1


def _tobool(x):
    if type(x) in (bool, SBool):
        return x
    return N.compare(lift(x), N.ZERO, "!=")


def _cmp(rel):
    def f(a, b):
        if type(a) is not SNum and type(b) is not SNum and type(a) is not SBool and type(b) is not SBool:
            return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}[rel](a, b)
        if type(a) in (bool, SBool) and type(b) in (bool, SBool) and rel in ("==", "!="):
            e = N.b_not(_xor(a, b))
            return e if rel == "==" else N.b_not(e)
        return N.compare(lift(a), lift(b), rel)

    return f


def _sign(x):
    x = lift(x)
    if x.t is None:
        return x
    return N.where(N.compare(x, N.ZERO, ">"), lift(1), N.where(N.compare(x, N.ZERO, "<"), lift(-1), lift(0)))


def _log(x):
    x = lift(x)
    if x.t is None:
        return x
    r = x.rational()
    if r == 1:
        return N.ZERO
    return N.fn("log", x, pyfn=lambda v: math.log(v) if v > 0 else math.nan)


def _rint(x):
    x = lift(x)
    if x.ty == "c":
        return N.rint(N.real(x)) + N.rint(N.imag(x)) * N.IMAG
    return N.rint(x)


def _sinc(x):
    x = lift(x)
    if x.t == {}:
        return lift(1)
    y = x * math.pi
    return N.sin(y) / y


def _isnan(x):
    return type(x) is SNum and x.t is None


def _isinf(x):
    if type(x) is not SNum or x.t is None:
        return False
    return builtins.any(N.GENS[g].kind == "inf" for m in x.t for g, _ in N.MONOS[m][0])


def _mk(name, f, nin=1, **k):
    u = Ufunc(name, f, nin, **k)
    globals()[name] = u
    return u


_mk("add", _add, 2, identity=0)
_mk("subtract", lambda a, b: lift(a) - lift(b), 2)
_mk("multiply", _mul, 2, identity=1)
_mk("true_divide", _div, 2)
divide = true_divide
_mk("floor_divide", _floor_div, 2)
_mk("remainder", _mod, 2)
mod = remainder
_mk("power", _pow, 2)
float_power = power
_mk("negative", lambda a: -lift(a))
_mk("positive", lambda a: a)
_mk("absolute", _num(N.absolute))
abs = fabs = absolute
_mk("sqrt", _num(N.sqrt))
_mk("square", lambda a: lift(a) * lift(a))
_mk("reciprocal", lambda a: _div(lift(1.0), a))
_mk("exp", _num(N.exp))
_mk("sin", _num(N.sin))
_mk("cos", _num(N.cos))
_mk("tan", _num(N.tan))
_mk("arcsin", _num(N.arcsin))
_mk("arccos", _num(N.arccos))
_mk("arctan", _num(N.arctan))
_mk("arctan2", _num(N.arctan2), 2)
_mk("hypot", _num(N.hypot), 2)
_mk("conjugate", _num(N.conj))
conj = conjugate
_mk("rint", _rint)
_mk("floor", lambda x: N.floor(lift(x)))
_mk("ceil", lambda x: N.ceil(lift(x)))
_mk("trunc", lambda x: N.trunc(lift(x)))
fix = trunc
_mk("sign", _sign)
_mk("log", _log)
_mk("log10", lambda x: _log(x) / _log(lift(10.0)))
_mk("maximum", lambda a, b: N.maximum([lift(a), lift(b)]), 2)
_mk("minimum", lambda a, b: N.maximum([lift(a), lift(b)], "min"), 2)
_mk("fmax", lambda a, b: N.fmaximum([lift(a), lift(b)]), 2)
_mk("fmin", lambda a, b: N.fmaximum([lift(a), lift(b)], "min"), 2)
_mk("isnan", _isnan)
_mk("isinf", _isinf)
_mk("isfinite", lambda x: not _isnan(x) and not _isinf(x))
_mk("logical_and", lambda a, b: N.b_and(_tobool(a), _tobool(b)), 2, identity=True)
_mk("logical_or", lambda a, b: N.b_or(_tobool(a), _tobool(b)), 2, identity=False)
_mk("logical_xor", lambda a, b: _xor(_tobool(a), _tobool(b)), 2)
_mk("logical_not", lambda a: N.b_not(_tobool(a)))
_mk("bitwise_and", _and, 2)
_mk("bitwise_or", _or, 2)
_mk("bitwise_xor", _xor, 2)
_mk("invert", _not)
bitwise_not = invert
_mk("left_shift", lambda a, b: lift(a) * 2 ** _int(b), 2)
_mk("right_shift", lambda a, b: N.floordiv(lift(a), lift(2 ** _int(b))), 2)
_DEG = Fraction(180 / math.pi)  # exact inverses of each other
_mk("deg2rad", lambda x: lift(x) * (1 / _DEG))
_mk("rad2deg", lambda x: lift(x) * _DEG)
radians, degrees = deg2rad, rad2deg
for _n, _r in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")):
    _mk(_n, _cmp(_r), 2)


def _binop(uf, swap=False):
    def f(self, o):
        if o is None or isinstance(o, (str, dict)) or callable(o) and not isinstance(o, (SymArray,)) and not is_scalar(o):
            return NotImplemented
        return uf(o, self) if swap else uf(self, o)

    return f


def _iop(uf):
    def f(self, o):
        uf(self, o, out=self)
        return self

    return f


for _op, _uf in (("add", add), ("sub", subtract), ("mul", multiply), ("truediv", true_divide), ("floordiv", floor_divide),
                 ("mod", remainder), ("pow", power), ("and", bitwise_and), ("or", bitwise_or), ("xor", bitwise_xor),
                 ("lshift", left_shift), ("rshift", right_shift)):
    setattr(SymArray, "__%s__" % _op, _binop(_uf))
    setattr(SymArray, "__r%s__" % _op, _binop(_uf, True))
    setattr(SymArray, "__i%s__" % _op, _iop(_uf))
for _op, _uf in (("lt", less), ("le", less_equal), ("gt", greater), ("ge", greater_equal), ("eq", equal), ("ne", not_equal)):
    setattr(SymArray, "__%s__" % _op, _binop(_uf))


def _pow_method(self, o, mod=None):
    return power(self, o)


SymArray.__pow__ = _pow_method


# ------------------------------------------------------------------------------------------
# reductions
# ------------------------------------------------------------------------------------------
def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if is_scalar(axis):
        axis = (axis,)
    out = []
    for ax in axis:
        ax = _int(ax)
        if not -ndim <= ax < ndim:
            raise np.AxisError(ax, ndim)
        out.append(ax % ndim)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def _reduce(x, axis, f, dt, keepdims=False):
    """f: list of elements -> element."""
    axes = _axes(axis, x.ndim)
    rest = [i for i in range(x.ndim) if i not in axes]
    a = x.a.transpose(rest + list(axes))
    shp = tuple(x.shape[i] for i in rest)
    a = a.reshape(shp + (-1,)) if a.size or not shp else a.reshape(shp + (0,))
    out = _objarr(shp)
    for i in np.ndindex(*shp):
        out[i] = elem(f(list(a[i])), dt)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else x.shape[i] for i in range(x.ndim)))
        return SymArray(out, dt)
    if out.shape == ():
        return out_scalar(out[()], dt)
    return SymArray(out, dt)


def _reduce_generic(uf, x, axis, keepdims):
    def f(xs):
        if not xs:
            return uf.identity
        r = xs[0]
        for y in xs[1:]:
            r = uf.f(r, y)
        return r

    dt = np.asarray(uf.real.reduce(np.ones((1,), x._dt))).dtype
    return _reduce(x, axis, f, dt, keepdims)


def _sumlist(xs):
    if not xs:
        return lift(0)
    acc = {}
    ty = "i"
    for x in xs:
        if type(x) is not SNum:
            x = lift(x)
        if x.t is None:
            return x
        ty = N._ty2(ty, x.ty)
        for m, c in x.t.items():
            v = acc.get(m)
            acc[m] = c if v is None else v + c
    return SNum({m: N._norm(c) for m, c in acc.items() if c}, ty)


def _store(r, out):
    if out is None:
        return r
    out[...] = r
    return out


def sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if isinstance(x, types.GeneratorType):
        return builtins.sum(x)
    x = asarray(x)
    dt = to_dtype(dtype) or np.ones((1,), x._dt).sum().dtype
    return _store(_reduce(x, axis, _sumlist, dt, keepdims), out)


def prod(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = asarray(x)

    def f(xs):
        r = lift(1)
        for y in xs:
            r = r * y
        return r

    return _reduce(x, axis, f, np.ones((1,), x._dt).prod().dtype, keepdims)


product = prod


def mean(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = asarray(x)
    dt = np.ones((1,), x._dt).mean().dtype

    def f(xs):
        if not xs:
            return N.NAN
        return _sumlist(xs) * Fraction(1, len(xs))

    return _store(_reduce(x, axis, f, dt, keepdims), out)


def average(x, axis=None, weights=None, **k):
    x = asarray(x)
    if weights is None:
        return mean(x, axis)
    w = asarray(weights)
    if w.shape != x.shape:
        w = w.reshape([-1 if i == _axes(axis, x.ndim)[0] else 1 for i in range(x.ndim)])
    w = w + zeros(x.shape)
    return (x * w).sum(axis) / w.sum(axis)


def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = asarray(x)
    m = mean(x, axis, keepdims=True)
    d = absolute(x - m) ** 2
    n = int(np.prod([x.shape[i] for i in _axes(axis, x.ndim)])) - ddof
    r = sum(d, axis, keepdims=keepdims)
    return r / n


def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return sqrt(var(x, axis, ddof=ddof, keepdims=keepdims))


def _amax(kind):
    def f(x, axis=None, out=None, keepdims=False, initial=None, where=None, **k):
        x = asarray(x)
        if x.size == 0:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return _reduce(x, axis, lambda xs: N.maximum([lift(v) for v in xs], kind), x._dt, keepdims)

    return f


amax = max = _amax("max")
amin = min = _amax("min")
nanmax, nanmin = amax, amin
maximum.reduce = lambda x, axis=0, **k: amax(x, axis, **k)
minimum.reduce = lambda x, axis=0, **k: amin(x, axis, **k)
fmax.reduce, fmin.reduce = maximum.reduce, minimum.reduce


def ptp(x, axis=None):
    return amax(x, axis) - amin(x, axis)


def any_(x, axis=None, out=None, keepdims=False, **k):
    return _reduce(asarray(x), axis, lambda xs: N.b_or(*[_tobool(v) for v in xs]), B8, keepdims)


def all_(x, axis=None, out=None, keepdims=False, **k):
    return _reduce(asarray(x), axis, lambda xs: N.b_and(*[_tobool(v) for v in xs]), B8, keepdims)


def count_nonzero(x, axis=None, **k):
    return _reduce(asarray(x), axis, lambda xs: _sumlist([N.indicator(_tobool(v)) for v in xs]), I64)


def _pick_ext(xs, rel):
    """Index of the first extreme element, forking as needed."""
    xs = [lift(v) if type(v) is not SNum else v for v in xs]
    for i, v in enumerate(xs):
        if v.t is None:
            return i
    rats = [v.rational() for v in xs]
    if builtins.all(r is not None for r in rats):
        best = 0
        for i, r in enumerate(rats):
            if (r > rats[best]) if rel == ">" else (r < rats[best]):
                best = i
        return best
    n = len(xs)
    for i in range(n - 1):
        cs = []
        for j in range(n):
            if j != i:
                cs.append(N.compare(xs[i], xs[j], (rel if j < i else rel + "=")))
        if bool(N.b_and(*cs)):
            return i
    return n - 1


def argmax(x, axis=None, out=None, keepdims=False, _rel=">"):
    if type(x) is BinCount and _rel == ">" and axis in (None, 0):
        return x.mode()
    x = asarray(x)
    if x.size == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    if axis is None:
        return np.int64(_pick_ext(list(x.a.flat), _rel))
    return _reduce(x, axis, lambda xs: _pick_ext(xs, _rel), I64, keepdims)


def argmin(x, axis=None, out=None, keepdims=False):
    return argmax(x, axis, _rel="<")


nanargmax, nanargmin = argmax, argmin


def _order(xs):
    idx = []
    for i, v in enumerate(xs):
        k = len(idx)
        while k > 0 and bool(N.compare(lift(v), lift(xs[idx[k - 1]]), "<")):
            k -= 1
        idx.insert(k, i)
    return idx


def _along(x, axis, f, dt):
    x = asarray(x)
    if axis is None:
        x, axis = x.ravel(), -1
    mv = np.moveaxis(x.a, axis, -1)
    out = None
    for i in np.ndindex(*mv.shape[:-1]):
        r = f(list(mv[i]))
        if out is None:
            out = _objarr(mv.shape[:-1] + (len(r),))
        for j, v in enumerate(r):
            out[i + (j,)] = elem(v, dt)
    return SymArray(np.moveaxis(out, -1, axis), dt)


def argsort(x, axis=-1, **k):
    return _along(x, axis, _order, I64)


def sort(x, axis=-1, **k):
    x = asarray(x)
    return _along(x, axis, lambda xs: [xs[i] for i in _order(xs)], x._dt)


def median(x, axis=None, **k):
    x = asarray(x)

    def f(xs):
        o = [lift(xs[i]) for i in _order(xs)]
        n = len(o)
        return o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) * Fraction(1, 2)

    return _reduce(x, axis, f, np.median(np.ones(1, x._dt)).dtype)


def cumsum(x, axis=None, **k):
    x = asarray(x)

    def f(xs):
        r, t = [], lift(0)
        for v in xs:
            t = t + v
            r.append(t)
        return r

    return _along(x, axis, f, np.ones(1, x._dt).cumsum().dtype)


def diff(x, n=1, axis=-1, **k):
    x = asarray(x)
    for _ in range(n):
        sl = [slice(None)] * x.ndim
        s2 = list(sl)
        sl[axis], s2[axis] = slice(1, None), slice(None, -1)
        x = x[tuple(sl)] - x[tuple(s2)]
    return x


def nonzero(x):
    x = asarray(x)
    m = np.empty(x.shape, bool)
    for i in np.ndindex(*x.shape):
        m[i] = bool(_tobool(x.a[i]))
    return tuple(asarray(r) for r in np.nonzero(m))


def flatnonzero(x):
    return nonzero(asarray(x).ravel())[0]


def argwhere(x):
    return array(nonzero(x)).T


def where(c, *ab):
    if not ab:
        return nonzero(c)
    c, a, b = asarray(c), _norm_arg(ab[0]), _norm_arg(ab[1])
    dt = np.where(np.array([True]), _dummy(a), _dummy(b)).dtype
    bs = np.broadcast_arrays(c.a, _obj(a), _obj(b))
    out = _objarr(bs[0].shape)
    for i in np.ndindex(*out.shape):
        m = _tobool(bs[0][i])
        x, y = bs[1][i], bs[2][i]
        if m is True:
            out[i] = cast(x, dt)
        elif m is False:
            out[i] = cast(y, dt)
        else:
            out[i] = elem(N.where(m, cast(x, dt), cast(y, dt)), dt)
    return SymArray(out, dt)


def select(conds, choices, default=0):
    r = asarray(default) + zeros(np.broadcast_shapes(*[asarray(c).shape for c in conds]))
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def clip(x, a_min=None, a_max=None, out=None, **k):
    if a_min is not None:
        x = maximum(x, a_min)
    if a_max is not None:
        x = minimum(x, a_max)
    return _store(x, out)


def around(x, decimals=0, out=None):
    if decimals:
        s = 10 ** decimals
        return rint(multiply(x, s)) / s
    x = _norm_arg(x)
    dt = x.dtype if type(x) is SymArray else scalar_dtype(x)
    if dt.kind in "iu":
        return x
    return rint(x)


round = round_ = around


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return absolute(subtract(a, b)) <= atol + rtol * absolute(b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(all_(r)) if type(r) is SymArray else bool(r)


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(all_(a == b))


def array_equiv(a, b):
    return bool(all_(equal(a, b)))


def real(x):
    return asarray(x).real if not is_scalar(x) else N.real(lift(x))


def imag(x):
    return asarray(x).imag if not is_scalar(x) else N.imag(lift(x))


def angle(z, deg=False):
    z = _norm_arg(z)
    if is_scalar(z):
        r = N.angle(lift(z))
    else:
        r = _emap1(lambda v: N.angle(lift(v)), z, F64)
    return rad2deg(r) if deg else r


def iscomplexobj(x):
    return asarray(x).dtype.kind == "c"


def isrealobj(x):
    return not iscomplexobj(x)


def isscalar(x):
    return is_scalar(x)


def ndim(x):
    return asarray(x).ndim


def shape(x):
    return x.shape if hasattr(x, "shape") else asarray(x).shape


def size(x, axis=None):
    return asarray(x).size if axis is None else asarray(x).shape[axis]


def _nonneg_list(x):
    return x


class BinCount:
    """Result of bincount without weights on symbolic data: materialised on demand."""

    dtype = I64

    def __init__(self, xs, minlength):
        self.xs = xs
        self.minlength = minlength
        self._arr = None

    def mode(self):
        """argmax: the smallest of the most frequent values."""
        xs = [lift(v) for v in self.xs]
        n = len(xs)
        eq = [[N.indicator(N.compare(xs[i], xs[j], "==")) if i != j else lift(1) for j in range(n)] for i in range(n)]
        cnt = [_sumlist(r) for r in eq]
        for i in range(n - 1):
            cs = []
            for j in range(n):
                if j != i:
                    d = cnt[i] - cnt[j]
                    cs.append(N.b_or(N.compare(d, N.ZERO, ">"),
                                     N.b_and(N.compare(d, N.ZERO, "=="), N.compare(xs[i], xs[j], "<="))))
            if bool(N.b_and(*cs)):
                return out_scalar(elem(xs[i], I64), I64)
        return out_scalar(elem(xs[n - 1], I64), I64)

    def argmax(self, axis=None, out=None):
        return self.mode()

    def arr(self):
        if self._arr is None:
            top = N.concretize(N.maximum([lift(v) for v in self.xs]).with_ty("i"))
            n = builtins.max(top + 1, self.minlength)
            out = _objarr((n,))
            for k in range(n):
                out[k] = elem(_sumlist([N.indicator(N.compare(lift(v), lift(k), "==")) for v in self.xs]), I64)
            self._arr = SymArray(out, I64)
        return self._arr

    def __getattr__(self, n):
        return getattr(self.arr(), n)

    def __len__(self):
        return len(self.arr())

    def __iter__(self):
        return iter(self.arr())

    def __getitem__(self, k):
        return self.arr()[k]


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "eq", "ne", "lt", "le", "gt", "ge", "pow"):
    setattr(BinCount, "__%s__" % _n, (lambda nm: lambda self, o: getattr(self.arr(), nm)(o))("__%s__" % _n))


def bincount(x, weights=None, minlength=0):
    x = asarray(x)
    if x.ndim != 1:
        raise ValueError("object too deep for desired array")
    if x._dt.kind not in "iub" or not np.can_cast(x._dt, I64, "safe"):
        raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % x._dt)
    xs = list(x.a)
    for v in xs:
        if type(v) is not SNum:
            if v < 0:
                raise ValueError("'list' argument must have no negative elements")
        elif bool(N.compare(v, N.ZERO, "<")):
            raise ValueError("'list' argument must have no negative elements")
    if not xs:
        return zeros(minlength, I64 if weights is None else F64)
    symbolic = builtins.any(type(v) is SNum for v in xs)
    if symbolic and weights is None:
        return BinCount(xs, minlength)
    if symbolic:
        xs = [_int(v) for v in xs]
    n = builtins.max(builtins.max(xs) + 1, minlength)
    if weights is None:
        w = [1] * len(xs)
        dt = I64
    else:
        weights = asarray(weights)
        if weights.shape != x.shape:
            raise ValueError("The weights and list don't have the same length.")
        if weights._dt.kind == "c":
            raise TypeError("Cannot cast array data from dtype('complex128') to dtype('float64') according to the rule 'safe'")
        w = list(weights.a)
        dt = F64
    out = _objarr((n,))
    buckets = [[] for _ in range(n)]
    for k, v in zip(xs, w):
        buckets[k].append(v)
    for k in range(n):
        out[k] = elem(_sumlist(buckets[k]), dt)
    return SymArray(out, dt)


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = asarray(x)
    if axis is not None and x.ndim != 1:
        raise Unsupported("unique along an axis")
    flat = x.ravel()
    xs = list(flat.a)
    vals, first, counts, inv = [], [], [], [0] * len(xs)
    for i in _order(xs):
        if not vals or not bool(N.compare(lift(vals[-1]), lift(xs[i]), "==")):
            vals.append(xs[i])
            first.append(i)
            counts.append(0)
        first[-1] = builtins.min(first[-1], i)
        counts[-1] += 1
        inv[i] = len(vals) - 1
    out = (array(vals, dtype=flat._dt),)
    for on, v in ((return_index, first), (return_inverse, inv), (return_counts, counts)):
        if on:
            out += (array(v, dtype=I64),)
    return out if len(out) > 1 else out[0]


def histogram(*a, **k):
    raise Unsupported("histogram")


# ------------------------------------------------------------------------------------------
# structural functions through the real numpy on object arrays
# ------------------------------------------------------------------------------------------
def _unw(x, dts):
    if type(x) is SymArray:
        dts.append(x._dt)
        return x.a
    if type(x) is BinCount:
        return _unw(x.arr(), dts)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return _unw(asarray(x), dts)
    if isinstance(x, list):
        return [_unw(v, dts) for v in x]
    if isinstance(x, tuple):
        return tuple(_unw(v, dts) for v in x)
    if type(x) is SNum and x.ty == "i":
        return _int(x)
    return x


def _rewrap(r, dt):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return from_objects(r, dt) if False else SymArray(r, dt)
        return asarray(r)
    if isinstance(r, (list, tuple)) and not isinstance(r, str):
        return type(r)(_rewrap(v, dt) for v in r)
    return out_scalar(r, dt)


def _structural(name, fn=None, seq=False):
    fn = fn or getattr(np, name)

    def f(*args, **kw):
        if args and not seq and not isinstance(args[0], (SymArray, BinCount)):
            if isinstance(args[0], (list, tuple, np.ndarray)) or is_scalar(args[0]):
                args = (asarray(args[0]),) + args[1:]
        if args and seq:
            xs = [asarray(v) for v in args[0]]
            dt = np.result_type(*[v._dt for v in xs])
            args = ([v.astype(dt, copy=False).a for v in xs],) + args[1:]
            dts = [dt]
        else:
            dts = []
        args = [_unw(a, dts) for a in args]
        kw = {k: _unw(v, dts) for k, v in kw.items()}
        r = fn(*args, **kw)
        return _rewrap(r, dts[0] if dts else F64)

    f.__name__ = name
    return f


for _n in ("transpose reshape ravel squeeze roll rollaxis moveaxis swapaxes flip fliplr flipud rot90 tile repeat "
           "expand_dims broadcast_to broadcast_arrays atleast_1d atleast_2d atleast_3d split array_split "
           "hsplit vsplit dsplit take delete diag diagonal triu tril resize take_along_axis ediff1d").split():
    globals()[_n] = _structural(_n)
for _n in "concatenate stack hstack vstack dstack column_stack".split():
    globals()[_n] = _structural(_n, seq=True)


def append(a, b, axis=None):
    if axis is None:
        return concatenate((asarray(a).ravel(), asarray(b).ravel()))
    return concatenate((a, b), axis)


def insert(a, idx, v, axis=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    i = _int(idx)
    pre = take(a, range(i), axis=axis)
    post = take(a, range(i, a.shape[axis]), axis=axis)
    v = asarray(v)
    mid = zeros(a.shape[:axis] + (1,) + a.shape[axis + 1:], a._dt)
    mid[...] = v
    return concatenate((pre, mid, post), axis)


def unravel_index(i, shape, order="C"):
    shape = _ints(shape)
    i = _key1(i) if isinstance(i, (SymArray, SNum)) else i
    r = np.unravel_index(i, shape)
    return tuple(asarray(x) if isinstance(x, np.ndarray) else x for x in r)


def ravel_multi_index(idx, dims, **k):
    r = np.ravel_multi_index(tuple(_key1(i) if isinstance(i, (SymArray, SNum)) else i for i in idx), _ints(dims), **k)
    return asarray(r) if isinstance(r, np.ndarray) else r


def pad(x, pad_width, mode="constant", **kw):
    if hasattr(x, "__fake_array__"):
        return x.pad(pad_width, mode, **kw)
    x = asarray(x)

    def ints(p):
        if is_scalar(p):
            return _int(p)
        if isinstance(p, (SymArray, np.ndarray)):
            return [ints(v) for v in p]
        if isinstance(p, dict):
            raise Unsupported("dict pad width")
        return [ints(v) for v in p]

    pw = np.asarray(ints(pad_width))
    pw = np.broadcast_to(pw, (x.ndim, 2))
    if (pw < 0).any():
        raise ValueError("index can't contain negative values")
    if callable(mode):
        raise Unsupported("pad with a function")
    if mode == "constant":
        cv = kw.pop("constant_values", 0)
        if kw:
            raise ValueError("unsupported keyword arguments for mode 'constant': %s" % set(kw))
        if not is_scalar(cv):
            cvs = np.broadcast_to(np.asarray(cv, dtype=object), (x.ndim, 2))
        else:
            cvs = None
        out = _objarr(tuple(s + a + b for s, (a, b) in zip(x.shape, pw)))
        if cvs is None:
            e = cast(cv, x._dt)
            for i in np.ndindex(*out.shape):
                out[i] = e
        else:
            arr = x.a
            for ax in range(x.ndim):
                lo = _objarr(arr.shape[:ax] + (pw[ax][0],) + arr.shape[ax + 1:])
                hi = _objarr(arr.shape[:ax] + (pw[ax][1],) + arr.shape[ax + 1:])
                lo.fill(cast(cvs[ax][0], x._dt))
                hi.fill(cast(cvs[ax][1], x._dt))
                arr = np.concatenate((lo, arr, hi), ax)
            return SymArray(arr, x._dt)
        out[tuple(slice(a, a + s) for s, (a, b) in zip(x.shape, pw))] = x.a
        return SymArray(out, x._dt)
    if mode in ("edge", "wrap", "reflect", "symmetric", "empty"):
        # index based: pad an index array with the real numpy and gather
        idx = np.arange(x.size).reshape(x.shape)
        if mode == "empty":
            return pad(x, pad_width, "constant", constant_values=math.nan if x._dt.kind in "fc" else 0)
        if mode in ("reflect",) and kw.get("reflect_type", "even") != "even" or kw.get("reflect_type", "even") == "odd":
            raise Unsupported("odd reflection")
        pi = np.pad(idx, pw, mode=mode, **kw)
        return SymArray(x.a.reshape(-1)[pi.reshape(-1)].reshape(pi.shape), x._dt)
    if mode in ("median", "mean", "maximum", "minimum"):
        # numpy applies the statistic axis after axis on the padded working array
        arr = x
        sl = kw.get("stat_length")
        if sl is not None:
            raise Unsupported("stat_length")
        for ax in range(x.ndim):
            a, b = builtins.int(pw[ax][0]), builtins.int(pw[ax][1])
            if not a and not b:
                continue
            st = {"median": median, "mean": mean, "maximum": amax, "minimum": amin}[mode](arr, axis=ax)
            st = asarray(st)
            if x._dt.kind in "iu" and mode in ("median", "mean"):
                st = around(st)
            st = expand_dims(st.astype(x._dt) if st._dt != x._dt else st, ax)
            parts = []
            if a:
                parts.append(repeat(st, a, axis=ax))
            parts.append(arr)
            if b:
                parts.append(repeat(st, b, axis=ax))
            arr = concatenate(parts, axis=ax)
        return arr.copy() if arr is x else arr
    if mode == "linear_ramp":
        raise Unsupported("linear_ramp")
    raise ValueError("mode '%s' is not supported" % mode)


def dot(a, b, **k):
    a, b = asarray(a), asarray(b)
    dt = np.result_type(a._dt, b._dt)
    r = np.dot(_castarr(a.a, a._dt, dt), _castarr(b.a, b._dt, dt))
    return from_objects(r, dt) if isinstance(r, np.ndarray) else out_scalar(elem(r, dt), dt)


def matmul(a, b, **k):
    a, b = asarray(a), asarray(b)
    dt = np.result_type(a._dt, b._dt)
    r = np.matmul(_castarr(a.a, a._dt, dt), _castarr(b.a, b._dt, dt))
    return from_objects(r, dt) if isinstance(r, np.ndarray) else out_scalar(elem(r, dt), dt)


def inner(a, b):
    return dot(a, asarray(b).T)


def vdot(a, b):
    return dot(conjugate(asarray(a).ravel()), asarray(b).ravel())


def outer(a, b):
    return multiply.outer(asarray(a).ravel(), asarray(b).ravel())


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    dt = np.result_type(a._dt, b._dt)
    r = np.tensordot(_castarr(a.a, a._dt, dt), _castarr(b.a, b._dt, dt), axes)
    return from_objects(np.asarray(r, dtype=object), dt) if isinstance(r, np.ndarray) else elem(r, dt)


def einsum(spec, *ops, **k):
    ops = [asarray(o) for o in ops]
    dt = np.result_type(*[o._dt for o in ops])
    r = np.einsum(spec, *[_castarr(o.a, o._dt, dt) for o in ops])
    r = np.asarray(r, dtype=object)
    if r.ndim == 0:
        return out_scalar(elem(r[()], dt), dt)
    return from_objects(r, dt)


def vectorize(f, **k):
    def g(*args):
        bs = np.broadcast_arrays(*[asarray(a).a for a in args])
        out = _objarr(bs[0].shape)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[b[i] for b in bs])
        return array(out.tolist()) if out.ndim else out[()]

    return g


def apply_along_axis(f, axis, x, *a, **k):
    x = asarray(x)
    mv = moveaxis(x, axis, -1)
    rows = [f(mv[i], *a, **k) for i in np.ndindex(*mv.shape[:-1])]
    r = array(rows)
    r = r.reshape(mv.shape[:-1] + r.shape[1:])
    return moveaxis(r, -1, axis) if r.ndim == x.ndim else r


def nan_to_num(x, copy=True, nan=0.0, **k):
    x = asarray(x)
    return _emap1(lambda v: lift(nan) if _isnan(v) else v, x, x._dt)


def put_along_axis(*a, **k):
    raise Unsupported("put_along_axis")


def copyto(dst, src, where=True, casting=None):
    if where is True:
        dst[...] = src
    else:
        w = asarray(where)
        s = asarray(src) + zeros(dst.shape, asarray(src)._dt)
        dst[...] = globals()["where"](w, s, dst)


def putmask(a, mask, values):
    copyto(a, values, where=mask)


def polyval(p, x):
    r = zeros_like(asarray(x))
    for c in p:
        r = r * x + c
    return r


def require(x, *a, **k):
    return asarray(x)


def trapz(y, x=None, dx=1.0, axis=-1):
    raise Unsupported("trapz")


def cross(*a, **k):
    raise Unsupported("cross")


def result_type(*xs):
    return np.result_type(*[x._dt if type(x) is SymArray else (scalar_dtype(x) if is_scalar(x) else to_dtype(x)) for x in xs])


def can_cast(a, b, casting="safe"):
    return np.can_cast(a._dt if type(a) is SymArray else a, to_dtype(b), casting)


def shares_memory(a, b, **k):
    return np.shares_memory(a.a, b.a)


may_share_memory = shares_memory


# ------------------------------------------------------------------------------------------
# fft
# ------------------------------------------------------------------------------------------
def _dft_axis(a, axis, sign, n=None):
    """a: object ndarray."""
    a = np.moveaxis(a, axis, -1)
    if n is not None and n != a.shape[-1]:
        if n < 1:
            raise ValueError("Invalid number of FFT data points (%d) specified." % n)
        if n < a.shape[-1]:
            a = a[..., :n]
        else:
            z = _objarr(a.shape[:-1] + (n - a.shape[-1],))
            z.fill(SNum({}, "c"))
            a = np.concatenate((a, z), -1)
    L = a.shape[-1]
    if L == 0:
        raise ValueError("Invalid number of FFT data points (0) specified.")
    out = _objarr(a.shape)
    roots = [N.Cyc.root(sign * k, L) for k in range(L)]
    for i in np.ndindex(*a.shape[:-1]):
        row = [lift(x).with_ty("c") for x in a[i]]
        nanrow = builtins.any(x.t is None for x in row)
        for k in range(L):
            if nanrow:
                out[i + (k,)] = SNum(None, "c")
                continue
            acc = {}
            for j, x in enumerate(row):
                w = roots[(j * k) % L]
                if type(w) is builtins.int and w == 1:
                    for m, c in x.t.items():
                        v = acc.get(m)
                        acc[m] = c if v is None else v + c
                else:
                    for m, c in x.t.items():
                        v = acc.get(m)
                        c = c * w
                        acc[m] = c if v is None else v + c
            out[i + (k,)] = SNum({m: N._norm(c) for m, c in acc.items() if c}, "c")
    return np.moveaxis(out, -1, axis)


def _fft_multi(x, s, axes, sign, norm, default_axes):
    x = asarray(x)
    if axes is None:
        axes = default_axes(x.ndim) if s is None else tuple(range(-len(s), 0))
    elif is_scalar(axes):
        raise TypeError("'int' object is not iterable")
    axes = [_int(ax) for ax in axes]
    if s is None:
        s = [None] * len(axes)
    if len(s) != len(axes):
        raise ValueError("Shape and axes have different lengths.")
    for ax in axes:
        if not -x.ndim <= ax < x.ndim:
            raise np.AxisError(ax, x.ndim)
    a = x.a
    cnt = 1
    for ax, n in zip(axes, s):
        a = _dft_axis(a, ax, sign, None if n is None else _int(n))
        cnt *= a.shape[ax]
    return SymArray(a, C128), cnt


def _scale_fft(r, cnt, sign, norm):
    if norm in (None, "backward"):
        f = Fraction(1) if sign < 0 else Fraction(1, cnt)
        return r if f == 1 else SymArray(_scaled(r.a, lift(f)), C128)
    if norm == "forward":
        f = Fraction(1, cnt) if sign < 0 else Fraction(1)
        return r if f == 1 else SymArray(_scaled(r.a, lift(f)), C128)
    if norm == "ortho":
        return SymArray(_scaled(r.a, 1 / N.sqrt(lift(cnt))), C128)
    raise ValueError("Invalid norm value %r" % norm)


def _scaled(a, f):
    out = _objarr(a.shape)
    for i in np.ndindex(*a.shape):
        out[i] = (a[i] * f).with_ty("c")
    return out


def _mkfft(sign, default_axes):
    def f(a, s=None, axes=None, norm=None, **k):
        if axes is None and default_axes == 2:
            axes = (-2, -1)
        r, cnt = _fft_multi(a, s, axes, sign, norm, lambda nd: tuple(range(nd)))
        return _scale_fft(r, cnt, sign, norm)

    return f


def _mkfft1(sign):
    def f(a, n=None, axis=-1, norm=None, **k):
        r, cnt = _fft_multi(a, None if n is None else (n,), (axis,), sign, norm, None)
        return _scale_fft(r, cnt, sign, norm)

    return f


def fftfreq(n, d=1.0, **k):
    n = _int(n)
    ints = np.fft.fftfreq(n, 1.0 / n)
    step = 1 / (lift(d) * n)
    out = _objarr((n,))
    for i, v in enumerate(ints):
        out[i] = elem(step * builtins.int(builtins.round(v)), F64)
    return SymArray(out, F64)


def rfftfreq(n, d=1.0, **k):
    n = _int(n)
    step = 1 / (lift(d) * n)
    return array([step * i for i in range(n // 2 + 1)])


def _rfft(a, n=None, axis=-1, norm=None):
    a = asarray(a)
    r = _mkfft1(-1)(a.real if a._dt.kind == "c" else a, n, axis, norm)
    L = r.shape[axis]
    sl = [slice(None)] * r.ndim
    sl[axis] = slice(0, L // 2 + 1)
    return r[tuple(sl)]


def _rfftn(a, s=None, axes=None, norm=None):
    a = asarray(a)
    if axes is None:
        axes = tuple(range(a.ndim)) if s is None else tuple(range(-len(s), 0))
    r = _mkfft(-1, None)(a, s, axes, norm)
    ax = axes[-1]
    sl = [slice(None)] * r.ndim
    sl[ax] = slice(0, r.shape[ax] // 2 + 1)
    return r[tuple(sl)]


def _irfftn(a, s=None, axes=None, norm=None):
    """Real inverse of a half spectrum: uses only the non-redundant half, like pocketfft."""
    a = asarray(a)
    if axes is None:
        axes = tuple(range(a.ndim)) if s is None else tuple(range(-len(s), 0))
    axes = [_int(x) % a.ndim for x in axes]
    last = axes[-1]
    n = _int(s[-1]) if s is not None else 2 * (a.shape[last] - 1)
    r = a
    if len(axes) > 1:
        r = _mkfft(1, None)(r, None if s is None else s[:-1], axes[:-1], norm)
    m = np.moveaxis(r.a, last, -1)
    need = n // 2 + 1
    full = _objarr(m.shape[:-1] + (n,))
    for i in np.ndindex(*m.shape[:-1]):
        row = [m[i + (k,)] if k < m.shape[-1] else SNum({}, "c") for k in range(need)]
        row[0] = N.real(row[0]).with_ty("c")
        if n % 2 == 0:
            row[n // 2] = N.real(row[n // 2]).with_ty("c")
        for k in range(n):
            full[i + (k,)] = row[k] if k < need else N.conj(row[n - k])
    r = SymArray(np.moveaxis(full, -1, last), C128)
    return _mkfft1(1)(r, None, last, norm).real


fft = types.ModuleType("numpy.fft")
fft.fftn = _mkfft(-1, None)
fft.ifftn = _mkfft(1, None)
fft.fft2 = _mkfft(-1, 2)
fft.ifft2 = _mkfft(1, 2)
fft.fft = _mkfft1(-1)
fft.ifft = _mkfft1(1)
fft.rfft = _rfft
fft.rfftn = _rfftn
fft.rfft2 = lambda a, s=None, axes=(-2, -1), norm=None: _rfftn(a, s, axes, norm)
fft.irfftn = _irfftn
fft.irfft2 = lambda a, s=None, axes=(-2, -1), norm=None: _irfftn(a, s, axes, norm)
fft.irfft = lambda a, n=None, axis=-1, norm=None: _irfftn(a, None if n is None else (n,), (axis,), norm)
fft.fftfreq = fftfreq
fft.rfftfreq = rfftfreq


def _fftshift(x, axes=None):
    x = asarray(x)
    if axes is None:
        axes = tuple(range(x.ndim))
        sh = [d // 2 for d in x.shape]
    elif is_scalar(axes):
        axes = _int(axes)
        sh = x.shape[axes] // 2
    else:
        axes = tuple(_int(a) for a in axes)
        sh = [x.shape[a] // 2 for a in axes]
    return SymArray(np.roll(x.a, sh, axes), x._dt)


def _ifftshift(x, axes=None):
    x = asarray(x)
    if axes is None:
        axes = tuple(range(x.ndim))
        sh = [-(d // 2) for d in x.shape]
    elif is_scalar(axes):
        axes = _int(axes)
        sh = -(x.shape[axes] // 2)
    else:
        axes = tuple(_int(a) for a in axes)
        sh = [-(x.shape[a] // 2) for a in axes]
    return SymArray(np.roll(x.a, sh, axes), x._dt)


fft.fftshift = _fftshift
fft.ifftshift = _ifftshift

# ------------------------------------------------------------------------------------------
# linalg
# ------------------------------------------------------------------------------------------
linalg = types.ModuleType("numpy.linalg")


def _norm_fn(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm of order %r" % (ord,))
    if ord == 2 and axis is None and x.ndim != 1:
        raise Unsupported("matrix 2-norm")
    if x._dt.kind == "c":
        sq = x.real ** 2 + x.imag ** 2
    else:
        sq = x.astype(float) ** 2
    return sqrt(sum(sq, axis, keepdims=keepdims))


def const_float_array(x):
    """Concrete floats of an array without symbolic content, else None."""
    x = asarray(x)
    out = np.empty(x.shape, float)
    for i in np.ndindex(*x.shape):
        v = x.a[i]
        if type(v) is SNum:
            if v.t is None or not v.is_const():
                return None
            v = v.numeric().real
        elif type(v) is SBool:
            return None
        out[i] = v
    return out


def _lstsq(a, b, rcond="warn"):
    a, b = asarray(a), asarray(b)
    A = const_float_array(a)
    if A is None:
        raise Unsupported("least squares with a symbolic matrix")
    if A.ndim != 2:
        raise np.linalg.LinAlgError("%d-dimensional array given. Array must be two-dimensional" % A.ndim)
    if A.shape[0] != b.shape[0]:
        raise np.linalg.LinAlgError("Incompatible dimensions")
    rc = rcond
    if rc is None or rc == "warn":
        rc = np.finfo(float).eps * builtins.max(A.shape)
    P = np.linalg.pinv(A, rcond=rc)
    rank = np.int64(np.linalg.matrix_rank(A))
    s = np.linalg.svd(A, compute_uv=False)
    x = dot(asarray(P), b)
    N.note("least squares through the pseudo-inverse in floating point")
    return x, zeros(0), rank, asarray(s)


linalg.norm = _norm_fn
linalg.lstsq = _lstsq
linalg.LinAlgError = np.linalg.LinAlgError


def _pinv(a, rcond=1e-15, **k):
    A = const_float_array(a)
    if A is None:
        raise Unsupported("pinv of a symbolic matrix")
    return asarray(np.linalg.pinv(A, rcond))


def _solve(a, b):
    A = const_float_array(a)
    if A is None:
        raise Unsupported("solve with a symbolic matrix")
    return dot(asarray(np.linalg.inv(A)), b)


linalg.pinv = _pinv
linalg.solve = _solve
linalg.inv = lambda a: _pinv(a)

# ------------------------------------------------------------------------------------------
# type-like builtins handed to the code under test
# ------------------------------------------------------------------------------------------


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class SInt(metaclass=_TypeMeta):
    _real = builtins.int
    dtype = np.dtype(builtins.int)

    def __new__(cls, x=0, *a):
        if a:
            return builtins.int(x, *a)
        if type(x) is SNum:
            r = N.trunc(x)
            q = r.rational()
            return q if q is not None else r
        if type(x) is SBool:
            return N.indicator(x)
        if type(x) is SymArray and x.size == 1:
            return SInt(x._one())
        return builtins.int(x)

    from_bytes = builtins.int.from_bytes


class SFloat(metaclass=_TypeMeta):
    _real = builtins.float
    dtype = np.dtype(builtins.float)

    def __new__(cls, x=0.0):
        if type(x) is SNum:
            if x.ty == "c":
                raise TypeError("can't convert complex to float")
            return x.with_ty("f")
        if type(x) is SBool:
            return N.indicator(x).with_ty("f")
        if type(x) is SymArray and x.size == 1:
            return SFloat(x._one())
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class SComplex(metaclass=_TypeMeta):
    _real = builtins.complex
    dtype = np.dtype(builtins.complex)

    def __new__(cls, re=0.0, im=0.0):
        if type(re) is SNum or type(im) is SNum:
            return (lift(re) + lift(im) * N.IMAG).with_ty("c")
        return builtins.complex(re, im)


# ------------------------------------------------------------------------------------------
# module objects
# ------------------------------------------------------------------------------------------
class MaskedSym(SymArray):
    """A masked array, as far as drawing it needs: the data and its mask."""

    mask = None


def _masked(data, mask):
    d = asarray(data)
    out = MaskedSym(d.a.copy(), d._dt)
    m = asarray(mask)
    full = np.empty(d.shape, object)
    full[...] = m.a if m.a.ndim else m.a.item()
    out.mask = SymArray(full, np.dtype(bool))
    return out


class _MaskedShim:
    masked = np.ma.masked
    nomask = False

    @staticmethod
    def array(data, dtype=None, copy=False, order=None, mask=False, **k):
        return _masked(data, mask)

    masked_array = array
    MaskedArray = array

    @staticmethod
    def masked_where(condition, a, copy=True):
        return _masked(a, condition)

    @staticmethod
    def masked_equal(x, value, copy=True):
        return _masked(x, asarray(x) == value)


class _NP(types.ModuleType):
    """numpy as seen by the code under test."""

    def __getattr__(self, name):
        if name in _EXPLICIT:
            return _EXPLICIT[name]
        g = globals()
        if name == "any":
            return any_
        if name == "all":
            return all_
        if name == "random":
            raise Unsupported("numpy.random")
        if name in g and not name.startswith("_") and name not in _HIDE:
            return g[name]
        r = getattr(np, name)
        if isinstance(r, type) or not callable(r):
            return r
        if name in _PASS:
            return r

        def fallback(*a, **k):
            if _concrete(a) and _concrete(list(k.values())):
                return r(*a, **k)
            raise Unsupported("numpy.%s is not modelled" % name)

        fallback.__name__ = name
        return fallback


_HIDE = {"math", "operator", "types", "builtins", "np", "N", "lift", "Fraction", "SNum", "SBool", "Unsupported"}
_PASS = {"errstate", "finfo", "iinfo", "issubdtype", "seterr", "geterr", "set_printoptions", "dtype", "broadcast_shapes", "printoptions"}
_EXPLICIT = {"ma": _MaskedShim, "pi": math.pi, "e": math.e, "newaxis": None, "nan": math.nan, "inf": math.inf,
             "NaN": math.nan}


def _issub(a, b):
    if isinstance(a, SymArray):
        a = a._dt
    if issubclass(type(a), _TypeMeta):
        a = a._real
    if issubclass(type(b), _TypeMeta):
        b = b._real
    return np.issubdtype(a, b)


_EXPLICIT["issubdtype"] = _issub
_EXPLICIT["finfo"] = lambda d: np.finfo(d._real if issubclass(type(d), _TypeMeta) else (d.dtype if type(d) in (SymArray, SNum) else d))
_EXPLICIT["iinfo"] = lambda d: np.iinfo(d._real if issubclass(type(d), _TypeMeta) else d)
_EXPLICIT["dtype"] = to_dtype


def _concrete(x):
    if type(x) in (SymArray, SNum, SBool, BinCount):
        return False
    if isinstance(x, (list, tuple)):
        return builtins.all(_concrete(v) for v in x)
    return True


class _ScalarMeta(_TypeMeta):
    def __call__(cls, x=0, *a, **k):
        if type(x) in (SNum, SBool):
            return cast(x, np.dtype(cls._real))
        if isinstance(x, (SymArray, list, tuple)):
            r = asarray(x).astype(cls._real)
            return r if r.ndim else r._one()
        return cls._real(x, *a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _scalar_ctor(t):
    return _ScalarMeta(t.__name__, (), {"_real": t})


for _n in ("float64 float32 float16 complex128 complex64 int64 int32 int16 int8 uint64 uint32 uint16 uint8 bool_ intp "
           "double cdouble single longdouble float_ complex_ int_ uint").split():
    if hasattr(np, _n) and _n != "longdouble":
        _EXPLICIT[_n] = _scalar_ctor(getattr(np, _n))


NP = _NP("numpy")
NP.fft = fft
NP.linalg = linalg
NP.ndarray = SymArray
NP.__version__ = np.__version__


