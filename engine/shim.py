"""numpy / math / scipy stand-ins for code executed on symbolic values.

Arrays are real numpy arrays of dtype object.  Everything numpy does natively on
object arrays (indexing, views, broadcasting, +, -, *, /, @, cross, dot, ...)
is left to numpy; the functions below replace the ones that would force a
conversion to float64.
"""
import math as _math
import types
from fractions import Fraction

import numpy as _np

from . import sym
from .sym import EngineLimit, Sym, SymBool

FLOATS = (float, _np.float64, _np.float32, "float", "float64", "d", "f8", _np.dtype("float64"))


def is_float_dtype(d):
    if d is None:
        return False
    if getattr(d, "_is_exact_float", False):
        return True
    try:
        return _np.dtype(d).kind == "f"
    except TypeError:
        return False


def exact(a):
    """Float arrays become object arrays of exact rationals."""
    if isinstance(a, _np.ndarray) and a.dtype.kind == "f":
        out = _np.empty(a.shape, dtype=object)
        flat = out.reshape(-1)
        for i, x in enumerate(a.reshape(-1).tolist()):
            flat[i] = Fraction(repr(x)) if _math.isfinite(x) else x
        return out.reshape(a.shape)
    return a


def _ew(f):
    def g(x, *args, **kw):
        kw.pop("dtype", None)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, _np.ndarray):
            out = _np.empty(x.shape, dtype=object)
            of = out.reshape(-1)
            for i, v in enumerate(x.reshape(-1)):
                of[i] = f(v)
            return out if out.shape else out.item()
        return f(x)

    return g


def _ew2(f):
    def g(x, y, *args, **kw):
        x = x if isinstance(x, _np.ndarray) else array(x)
        y = y if isinstance(y, _np.ndarray) else array(y)
        bx, by = _np.broadcast_arrays(x, y)
        out = _np.empty(bx.shape, dtype=object)
        of = out.reshape(-1)
        for i, (u, v) in enumerate(zip(bx.reshape(-1), by.reshape(-1))):
            of[i] = f(u, v)
        return out if out.shape else out.item()

    return g


def _num(x):
    """python/numpy scalar -> exact number, leaving inf/nan and Sym alone."""
    if isinstance(x, (Sym, Fraction)):
        return x
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        return Fraction(repr(x)) if _math.isfinite(x) else x
    if isinstance(x, _np.integer):
        return int(x)
    return x


def array(x, dtype=None, copy=True, **kw):
    if dtype is not None and not is_float_dtype(dtype):
        return _np.array(x, dtype=dtype, **kw)
    if isinstance(x, Sym):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    a = _np.array(x, dtype=object if _has_sym(x) else None, **kw)
    if is_float_dtype(dtype) and a.dtype.kind in "iub":
        a = a.astype(object)
        a2 = a.reshape(-1)
        for i in range(a2.size):
            a2[i] = Fraction(int(a2[i]))
    return exact(a)


def _has_sym(x):
    if isinstance(x, (Sym, SymBool, Fraction)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def asarray(x, dtype=None, **kw):
    if isinstance(x, _np.ndarray) and (dtype is None or is_float_dtype(dtype)):
        return exact(x)
    return array(x, dtype=dtype)


def _filled(v):
    def g(shape, dtype=None, order="C", **kw):
        if isinstance(shape, Sym):
            shape = shape.__index__()
        if isinstance(shape, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if dtype is not None and not is_float_dtype(dtype):
            if v == 0:
                return _np.zeros(shape, dtype=dtype)
            return _np.ones(shape, dtype=dtype)
        a = _np.empty(shape, dtype=object)
        a[...] = Fraction(v)
        return a

    return g


zeros = _filled(0)
ones = _filled(1)


def empty(shape, dtype=None, **kw):
    if dtype is not None and not is_float_dtype(dtype):
        return _np.empty(shape, dtype=dtype)
    return zeros(shape)


def full(shape, v, dtype=None, **kw):
    a = _np.empty(shape, dtype=object if dtype is None or is_float_dtype(dtype) else dtype)
    a[...] = _num(v)
    return a


def _like(v):
    def g(a, dtype=None, **kw):
        a = _np.asarray(a)
        if dtype is None and a.dtype.kind in "iub":
            return _np.full(a.shape, v, dtype=a.dtype)
        return full(a.shape, Fraction(v)) if dtype is None or is_float_dtype(dtype) else _np.full(a.shape, v, dtype=dtype)

    return g


def eye(n, *a, **k):
    return array(_np.eye(n, *a).tolist(), dtype=float)


def linspace(start, stop, num=50, endpoint=True, retstep=False, **kw):
    start, stop = _num(start), _num(stop)
    num = int(num)
    div = num - 1 if endpoint else num
    out = _np.empty(num, dtype=object)
    if isinstance(start, int):
        start = Fraction(start)
    for i in range(num):
        out[i] = start if i == 0 else start + (stop - start) * Fraction(i, div)
    return (out, (stop - start) / div) if retstep else out


def arange(*a, **k):
    if any(isinstance(x, (Sym, Fraction, float)) for x in a):
        a = [_num(x) for x in a]
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        out = []
        x = start
        while bool(x < stop if bool(step > 0) else x > stop):
            out.append(x)
            x = x + step
            if len(out) > 1000:
                raise EngineLimit("arange too long")
        return array(out)
    return _np.arange(*a, **k)


sqrt = _ew(lambda x: sym.sqrt_(_num(x)))
sin = _ew(lambda x: sym.sin_(_num(x)))
cos = _ew(lambda x: sym.cos_(_num(x)))
tan = _ew(lambda x: sym.tan_(_num(x)))
arctan = _ew(lambda x: sym.atan_(_num(x)))
arctan2 = _ew2(lambda y, x: sym.atan2_(_num(y), _num(x)))
radians = _ew(lambda x: _num(x) * sym.PI / 180 if isinstance(x, Sym) or x else Fraction(0))
degrees = _ew(lambda x: _num(x) * 180 / sym.PI if isinstance(x, Sym) or x else Fraction(0))
absolute = _ew(lambda x: abs(_num(x)))
floor = _ew(lambda x: sym.floor_(_num(x)))
ceil = _ew(lambda x: sym.ceil_(_num(x)))


def round_(x, decimals=0, **kw):
    return _ew(lambda v: sym.round_(_num(v), decimals))(x)


def power(x, e):
    return _ew(lambda v: _pow(_num(v), e))(x)


def _pow(v, e):
    e = Fraction(sym.rat(e))
    if e == Fraction(1, 2):
        return sym.sqrt_(v)
    if e.denominator == 1:
        return (Fraction(v) if isinstance(v, int) else v) ** e.numerator
    if isinstance(v, Sym):
        return v ** e
    return Fraction(repr(float(v) ** float(e)))


sign = _ew(lambda x: 1 if bool(x > 0) else (-1 if bool(x < 0) else 0))


def _isfin(x):
    return True if isinstance(x, (Sym, Fraction, int)) else _math.isfinite(float(x))


def _boolarr(f):
    def g(x, **kw):
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, _np.ndarray):
            return _np.array([f(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
        return f(x)

    return g


isfinite = _boolarr(_isfin)
isnan = _boolarr(lambda x: False if isinstance(x, (Sym, Fraction, int)) or x is None else float(x) != float(x))
isinf = _boolarr(lambda x: False if isinstance(x, (Sym, Fraction, int)) else _math.isinf(float(x)))


def _truth(x):
    return bool(x)


def any_(a, axis=None, **kw):
    a = _np.asarray(a)
    if a.dtype != object:
        return _np.any(a, axis=axis, **kw)
    b = _np.array([_truth(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape) if axis is not None else None
    if axis is None:
        for v in a.reshape(-1):
            if _truth(v):
                return True
        return False
    return _np.any(b, axis=axis, **kw)


def all_(a, axis=None, **kw):
    a = _np.asarray(a)
    if a.dtype != object:
        return _np.all(a, axis=axis, **kw)
    if axis is None:
        for v in a.reshape(-1):
            if not _truth(v):
                return False
        return True
    b = _np.array([_truth(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
    return _np.all(b, axis=axis, **kw)


def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    f = _ew2(lambda x, y: bool(abs(x - y) <= _num(atol) + _num(rtol) * abs(y)))
    r = f(a, b)
    return r.astype(bool) if isinstance(r, _np.ndarray) else r


def allclose(a, b, **kw):
    return bool(_np.all(isclose(a, b, **kw)))


def where(c, *xy):
    if isinstance(c, SymBool):
        c = bool(c)
    c = _np.asarray(c)
    if c.dtype == object:
        c = _np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    if not xy:
        return _np.where(c)
    return _np.where(c, asarray(xy[0]), asarray(xy[1]))


def clip(a, lo, hi, **kw):
    def f(v):
        if lo is not None and bool(v < lo):
            return lo
        if hi is not None and bool(v > hi):
            return hi
        return v

    return _ew(f)(a)


def maximum(a, b, **kw):
    return _ew2(lambda x, y: x if bool(x >= y) else y)(a, b)


def amax(a, axis=None, **kw):
    arr = _np.asarray(a)
    if sym.MERGE and axis is None and arr.dtype == object and any(isinstance(x, Sym) for x in arr.reshape(-1)):
        return sym.max_(list(arr.reshape(-1)))
    return _np.max(a, axis=axis, **kw)


def minimum(a, b, **kw):
    return _ew2(lambda x, y: x if bool(x <= y) else y)(a, b)


def hypot(a, b):
    return sqrt(asarray(a) * a + asarray(b) * b)


def var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    r = mean((a - mean(a, axis=axis, keepdims=True)) ** 2, axis=axis, keepdims=keepdims)
    return r if not ddof else r * Fraction(n, n - ddof)


def std(a, axis=None, ddof=0, keepdims=False, **kw):
    return sqrt(var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def mean(a, axis=None, keepdims=False, **kw):
    a = asarray(a)
    s = _np.sum(a, axis=axis, keepdims=keepdims)
    n = a.size if axis is None else int(_np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    if isinstance(s, _np.ndarray) or isinstance(s, Sym):
        return s * Fraction(1, n)
    return Fraction(sym.rat(s)) / n


def average(a, axis=None, weights=None, **kw):
    if weights is not None:
        a, w = asarray(a), asarray(weights)
        if w.ndim == 1 and a.ndim > 1 and axis is not None:
            w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
        return _np.sum(a * w, axis=axis) / _np.sum(w)
    return mean(a, axis=axis)


class _Binary:
    """An elementwise function of two arguments that can also reduce, as numpy's ufuncs can."""

    def __init__(self, f):
        self.f = f

    def __call__(self, a, b, out=None, **kw):
        r = self.f(a, b)
        if out is not None:
            out[...] = r
            return out
        return r

    def reduce(self, a, axis=0, **kw):
        a = asarray(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        parts = _np.moveaxis(a, axis, 0)
        r = parts[0]
        for p in parts[1:]:
            r = self.f(r, p)
        return r

    def accumulate(self, a, **kw):
        a = asarray(a)
        out = [a[0]]
        for v in a[1:]:
            out.append(self.f(out[-1], v))
        return array(out)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self.f(a.reshape(a.shape + (1,) * b.ndim), b)


copysign = _ew2(lambda x, y: abs(_num(x)) if bool(_num(y) >= 0) else -abs(_num(x)))
heaviside = _ew2(lambda x, h: h if bool(x == 0) else (Fraction(1) if bool(x > 0) else Fraction(0)))
rint = _ew(lambda x: sym.round_(_num(x), 0))


def gradient(f, *vary, axis=None, **kw):
    f = asarray(f)
    if f.ndim != 1 or len(vary) > 1 or (vary and _np.ndim(vary[0]) != 0) or kw.get("edge_order", 1) != 1:
        raise EngineLimit("gradient")
    h = _num(vary[0]) if vary else Fraction(1)
    n = len(f)
    return array([(f[min(i + 1, n - 1)] - f[max(i - 1, 0)]) / (h * (min(i + 1, n - 1) - max(i - 1, 0))) for i in range(n)])


class _FloatMeta(type(_np.float64)):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.float64, Fraction, Sym))


class float64(metaclass=_FloatMeta):
    """numpy.float64: the identity on exact and symbolic numbers; as a dtype, object."""

    _is_exact_float = True

    def __new__(cls, x=0):
        if isinstance(x, (Sym, Fraction)):
            return x
        if isinstance(x, _np.ndarray):
            return exact(x) if x.dtype.kind == "f" else x
        return Fraction(x) if isinstance(x, int) else _num(float(x))


def fromstring(string, dtype=float, count=-1, sep="", **kw):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return exact(_np.fromstring(string, dtype=dtype, count=count, sep=sep))


def loadtxt(*a, **kw):
    return exact(_np.loadtxt(*a, **kw))


def genfromtxt(*a, **kw):
    return exact(_np.genfromtxt(*a, **kw))


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(asarray(xp)), list(asarray(fp))

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        for i in range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                if xp[i + 1] is xp[i]:
                    return fp[i]
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        if bool(v <= xp[-1]):
            return fp[-1]
        return fp[-1] if right is None else right

    return _ew(one)(x)


def diff(a, n=1, axis=-1, **kw):
    return _np.diff(asarray(a), n=n, axis=axis)


def nansum(a, **kw):
    return _np.sum(asarray(a), **kw)


def einsum(spec, *ops, **kw):
    ops = [_np.asarray(o) for o in ops]
    ops = [o if o.dtype == object else o.astype(object) for o in ops]
    try:
        return _np.einsum(spec, *ops)
    except TypeError:
        raise EngineLimit("einsum %s" % spec)


def cross(a, b, axis=-1, **kw):
    a, b = asarray(a), asarray(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3 or axis not in (-1, a.ndim - 1):
        return _np.cross(a, b, axis=axis, **kw)
    x = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    y = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    z = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return _np.stack([array(x), array(y), array(z)], axis=-1)


def dot(a, b, *k):
    return _np.dot(asarray(a), asarray(b))


def trapz(y, x=None, dx=1.0, **kw):
    y = asarray(y)
    x = asarray(x)
    return _np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1])) / 2


# ------------------------------------------------------------------- linalg


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2):
        raise EngineLimit("norm ord")
    sq = x * x
    s = _np.sum(sq, axis=axis, keepdims=keepdims)
    return sqrt(s)


def solve(A, b):
    A, b = asarray(A), asarray(b)
    if b.ndim == 2:
        cols = [solve(A, b[:, j]) for j in range(b.shape[1])]
        return _np.stack(cols, axis=1)
    x = sym.solve_system(A.tolist(), b.tolist())
    out = _np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        out[i] = v
    return out


def inv(A):
    A = asarray(A)
    return solve(A, eye(A.shape[0]))


def lstsq(A, b, rcond=None):
    return solve(A, b), None, None, None


def det(A):
    A = asarray(A)
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    s = 0
    for j in range(n):
        s = s + (-1) ** j * A[0, j] * det(_np.delete(_np.delete(A, 0, 0), j, 1))
    return s


class _Mod(types.ModuleType):
    def __init__(self, name, base, over):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_base"], n)


def finfo(d):
    class F:
        eps = Fraction(repr(float(_np.finfo(float).eps)))
        tiny = smallest_normal = Fraction(repr(float(_np.finfo(float).tiny)))
        max = Fraction(repr(float(_np.finfo(float).max)))
        min = -max

    return F


linalg = _Mod("numpy.linalg", _np.linalg, dict(norm=norm, solve=solve, inv=inv, lstsq=lstsq, det=det))

_over = dict(
    array=array, asarray=asarray, asfarray=asarray, ascontiguousarray=asarray, zeros=zeros, ones=ones, empty=empty, full=full,
    zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0), eye=eye, identity=eye,
    linspace=linspace, arange=arange, sqrt=sqrt, sin=sin, cos=cos, tan=tan, arctan=arctan,
    arctan2=arctan2, radians=radians, deg2rad=radians, degrees=degrees, rad2deg=degrees,
    abs=absolute, absolute=absolute, fabs=absolute, floor=floor, ceil=ceil, round=round_,
    around=round_, power=power, float_power=power, sign=sign, isfinite=isfinite, isnan=isnan,
    isinf=isinf, any=any_, all=all_, array_equal=array_equal, isclose=isclose, allclose=allclose,
    where=where, clip=clip, maximum=_Binary(maximum), minimum=_Binary(minimum), max=amax, amax=amax, fmax=_Binary(maximum), fmin=_Binary(minimum),
    hypot=_Binary(hypot), std=std, var=var, copysign=copysign, heaviside=heaviside, rint=rint, gradient=gradient, isscalar=lambda x: isinstance(x, (Sym, Fraction)) or _np.isscalar(x),
    float64=float64, float32=_np.float32, double=float64, mean=mean, average=average, interp=interp, fromstring=fromstring, loadtxt=loadtxt, genfromtxt=genfromtxt, einsum=einsum, cross=cross, dot=dot,
    linalg=linalg, diff=diff, nansum=nansum, trapz=trapz, trapezoid=trapz, pi=sym.PI, finfo=finfo,
)
np = _Mod("numpy", _np, _over)


# --------------------------------------------------------------------- math


def _m1(f):
    return lambda x: f(_num(x))


math = _Mod("math", _math, dict(
    sqrt=_m1(sym.sqrt_), sin=_m1(sym.sin_), cos=_m1(sym.cos_), tan=_m1(sym.tan_), atan=_m1(sym.atan_),
    atan2=lambda y, x: sym.atan2_(_num(y), _num(x)), pi=sym.PI, fabs=_m1(abs),
    floor=lambda x: sym.as_int(sym.floor_(_num(x))), ceil=lambda x: sym.as_int(sym.ceil_(_num(x))), radians=radians, degrees=degrees,
    hypot=lambda *a: sym.sqrt_(sum(_num(x) * _num(x) for x in a)),
    isnan=isnan, isinf=isinf, isfinite=isfinite,
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(isclose(a, b, rtol=rel_tol, atol=abs_tol)),
    pow=lambda a, b: _pow(_num(a), b),
    fsum=lambda xs: sum(_num(x) for x in xs), prod=lambda xs, start=1: _np.prod([start] + [_num(x) for x in xs]),
    dist=lambda p, q: sym.sqrt_(sum((_num(a) - _num(b)) ** 2 for a, b in zip(p, q))),
    copysign=lambda x, y: abs(_num(x)) if bool(_num(y) >= 0) else -abs(_num(x)),
))


# -------------------------------------------------------------------- scipy


class _interp1d:
    def __init__(self, x, y, copy=True, fill_value=None, kind="linear", bounds_error=None, assume_sorted=False, **kw):
        if kind != "linear":
            raise EngineLimit("interp1d kind")
        self.x, self.y = list(asarray(x)), list(asarray(y))
        self.extrapolate = fill_value == "extrapolate" if isinstance(fill_value, str) else False

    def __call__(self, v):
        x, y = self.x, self.y

        def one(t):
            if not self.extrapolate and (bool(t < x[0]) or bool(t > x[-1])):
                raise ValueError("A value in x_new is outside the interpolation range.")
            n = len(x)
            i = 0
            while i < n - 2 and bool(t > x[i + 1]):
                i += 1
            return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])

        r = _ew(one)(v)
        return r


class _Pchip:
    """scipy's PCHIP: itself on concrete data, else any function of the knots and the point that interpolates the knots."""

    def __init__(self, x, y, **kw):
        self.x, self.y = [_num(v) for v in list(asarray(x))], [_num(v) for v in list(asarray(y))]
        self.f = None
        if not any(isinstance(v, Sym) for v in self.x + self.y):
            self.f = _pchip(self.x, self.y)

    def __call__(self, v):
        def one(t):
            t = _num(t)
            if self.f is not None and not isinstance(t, Sym):
                return exact(_np.asarray(float(self.f(float(t)))))[()]
            for a, b in zip(self.x, self.y):
                if a is t or not sym.topoly(a - t):
                    return b
            xs, ys, tp = [sym.topoly(a) for a in self.x], [sym.topoly(a) for a in self.y], sym.topoly(t)

            def ev(val, i):
                return float(_pchip([sym.peval(p, val) for p in xs], [sym.peval(p, val) for p in ys])(sym.peval(tp, val)))

            if sym.CTX is not None:
                sym.CTX.note_assumption("scipy's PCHIP interpolant is any function of its knots and argument that passes through the knots")
            key = (tuple(sym.pkey(p) for p in xs), tuple(sym.pkey(p) for p in ys), sym.pkey(tp))
            return sym.stub_value("pchip", key, 1, ev)[0]

        return _ew(one)(v)


def _pchip(x, y):
    from scipy.interpolate import PchipInterpolator

    return PchipInterpolator(_np.array([float(v) for v in x]), _np.array([float(v) for v in y]))


def sawtooth(t, width=1):
    """scipy.signal.sawtooth(t, 0.5): the triangle wave."""
    if Fraction(sym.rat(width)) != Fraction(1, 2):
        raise EngineLimit("sawtooth width")
    return _ew(lambda v: _tri(_num(v)))(t)


def _tri(v):
    p = sym.sval(v)
    pim = ((sym.pi_atom().id, 1),)
    q = Fraction(p.get(pim, 0))
    rest = {m: c for m, c in p.items() if m != pim}
    if not rest:
        f = (q % 2) / 2  # phase in [0, 1)
        return 4 * f - 1 if f < Fraction(1, 2) else 3 - 4 * f
    shifted = dict(rest)
    r = q % 2
    if r >= 1:
        # half a period later the triangle wave has the opposite sign
        return -_tri(sym.S(sym.padd(rest, {pim: r - 1} if r != 1 else {})))
    if r:
        shifted[pim] = r

    def ev(val, i):
        f = (sym.peval(shifted, val) / (2 * _math.pi)) % 1.0
        return 4 * f - 1 if f < 0.5 else 3 - 4 * f

    if sym.CTX is not None:
        sym.CTX.note_assumption("scipy.signal.sawtooth(x, 0.5) is any function with values in [-1, 1] and antiperiod pi, exact at rational multiples of pi")
    return sym.stub_value("tri", sym.pkey(shifted), 1, ev, lo=-1, hi=1)[0]


class Stub:
    """Inert stand-in for plotting / GUI / progress-bar libraries."""

    def __init__(self, name="stub"):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Stub(self._n + "." + n)

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        return Stub(self._n + "()")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return Stub()

    def __setitem__(self, k, v):
        pass


class StubModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        s = Stub(self.__name__ + "." + n)
        setattr(self, n, s)
        return s


def tqdm(iterable=None, *a, **k):
    class Bar(Stub):
        def __iter__(self):
            return iter(iterable if iterable is not None else ())

    return Bar("tqdm")


def make_modules():
    m = {"numpy": np, "numpy.linalg": linalg, "math": math}
    sci = StubModule("scipy")
    it = StubModule("scipy.interpolate")
    it.interp1d = _interp1d
    it.PchipInterpolator = _Pchip
    sg = StubModule("scipy.signal")
    sg.sawtooth = sawtooth
    op = StubModule("scipy.optimize")
    sci.interpolate, sci.signal, sci.optimize = it, sg, op
    m.update({"scipy": sci, "scipy.interpolate": it, "scipy.signal": sg, "scipy.optimize": op})
    nb = StubModule("numba")

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f

    nb.njit = nb.jit = nb.vectorize = nb.guvectorize = njit
    nb.prange = range
    m["numba"] = nb
    tq = StubModule("tqdm")
    tq.tqdm = tqdm
    tq.trange = lambda n, *a, **k: range(n)
    m["tqdm"] = tq
    mp = StubModule("matplotlib")
    pp = StubModule("matplotlib.pyplot")
    mp.pyplot = pp
    m["matplotlib"] = mp
    m["matplotlib.pyplot"] = pp
    for n in ("pyvista", "webp", "PIL", "PySide6", "vtk"):
        m[n] = StubModule(n)
    return m
