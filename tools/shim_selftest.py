"""Compare the engine's numpy/math stand-ins with the real ones on many expressions a rewrite of the code might use.

Each expression is evaluated three times: by numpy on floats, by the stand-in on exact rationals, and by the stand-in on
symbolic values.  Run: python3-vt tools/shim_selftest.py [substring]
"""
import os
import sys
from fractions import Fraction

import numpy as rnp

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import core, shim, sym  # noqa: E402

EXPRS = """
np.matmul(A, M)
np.inner(v, w)
np.outer(v, w)
np.vdot(v, w)
np.tensordot(A, M, axes=1)
np.tensordot(T, v, axes=([2], [0]))
np.stack([v, w])
np.stack((v, w), axis=-1)
np.vstack([v, w])
np.hstack([v, w])
np.column_stack((v, w))
np.concatenate([v, w])
np.concatenate([v, [1.0]])
np.append(v, 2.5)
np.append(A, B, axis=0)
np.insert(v, 0, 1.5)
np.sum(A)
np.sum(A, axis=0)
np.sum(T, axis=(0, 1))
A.sum(axis=1)
A.sum()
sum(v)
np.prod(v)
np.cumsum(v)
np.cumsum([1.5, 2.5])
np.full_like(v, 2.5)
np.full((2, 2), 0.5)
np.square(v)
np.var(v)
np.std(v)
np.std(A, axis=0)
np.std(A, axis=1, keepdims=True)
np.mean(A, axis=1)
np.mean(A, axis=0, keepdims=True)
A.mean()
A.mean(axis=0)
v.std()
v.var()
np.average(v)
np.average(v, weights=w)
np.average(A, axis=0)
np.average(A, axis=0, weights=[1.0, 3.0])
np.min(v)
np.max(A, axis=0)
v.max()
v.min()
np.ptp(v)
np.argmax(v)
np.argmin(v)
v.argmax()
np.amax(A)
np.amin(A)
np.sort(v)
np.argsort(v)
np.nanmax(v)
np.nanmin(v)
np.nanmean(v)
np.nansum(v)
np.meshgrid(v, w)[0]
np.deg2rad(v)
np.rad2deg(v)
np.radians(v)
np.degrees(v)
np.copy(A)
A.copy()
np.where(v > 0, v, w)
np.where(v > w, 1.0, 0.0)
np.where(v > 0)[0]
np.einsum('ij,jk->ik', A, M)
np.einsum('ij,ij->i', A, B)
np.einsum('ij,ij->i', A, B, optimize=True)
np.einsum('ijk,k->ij', T, v)
np.einsum('ijk,ijk->ij', T, T)
np.einsum('i,i->', v, w)
np.fmax(v, w)
np.fmin(v, 0.0)
np.maximum(v, 0.0)
np.add(v, w)
np.subtract(v, w)
np.multiply(v, w)
np.divide(v, w)
np.true_divide(v, w)
np.negative(v)
np.reciprocal(w)
np.add.reduce(A, axis=0)
np.multiply.outer(v, w)
np.dot(A, M)
A @ M
M @ v
v.dot(w)
A.dot(v)
np.cross(v, w)
np.cross(A, B)
np.cross(T, v)
np.cross(A, B, axis=1)
np.cross(A, B, axisa=1)
np.cross(A.T, B.T, axis=0)
np.linalg.norm(v)
np.linalg.norm(A, axis=1)
np.linalg.norm(A, axis=-1, keepdims=True)
np.linalg.norm(T, axis=2)
np.linalg.norm(v - w, 2)
np.linalg.norm(v, ord=2)
np.sqrt(np.sum(v ** 2))
np.sqrt(v @ v)
np.sqrt(np.dot(v, v))
np.sqrt((v ** 2).sum())
np.sqrt(v * v)
(v ** 2).sum() ** 0.5
v ** 2
v ** 3
v ** -1
np.power(v, 2)
np.hypot(v[0], v[1])
math.hypot(v[0], v[1])
math.sqrt(v[0] ** 2 + v[1] ** 2)
math.dist(v, w)
math.fsum(v)
math.prod(v)
math.copysign(1.0, v[0])
math.fabs(v[1])
np.abs(v)
abs(v[0])
np.sign(v)
np.copysign(1.0, v)
np.heaviside(v, 0.5)
np.clip(v, -1.0, 1.0)
v.clip(-1.0, 1.0)
np.transpose(A)
A.T
np.swapaxes(T, 0, 1)
np.moveaxis(T, -1, 0)
np.reshape(A, (3, 2))
A.reshape(-1)
A.ravel()
A.flatten()
np.ravel(A)
np.squeeze(A[:1])
np.expand_dims(v, 0)
v[np.newaxis, :]
np.repeat(v, 2)
np.repeat(A, 2, axis=0)
np.tile(v, 2)
np.tile(v, (2, 1))
np.flip(v)
np.flip(A, axis=1)
np.fliplr(A)
np.flipud(A)
np.roll(v, 1)
np.diff(v)
np.diff(A, axis=0)
np.gradient(v)
np.trace(M)
np.diag(M)
np.diag(v)
np.eye(3)
np.identity(3)
np.zeros(3)
np.zeros((2, 3)) + A
np.ones((2, 2)) * 3
np.zeros_like(A) + A
np.ones_like(A) * 2
np.empty_like(A).shape
np.linspace(0, 1, 5)
np.linspace(0.0, 1.0, num=5, endpoint=False)
np.linspace(v, w, 3)
np.arange(0, 1, 0.25)
np.arange(5)
np.array([1, 2, 3]) / 2
np.array([1, 2, 3]) * 0.5
np.array([1, 2], dtype=float) / 3
np.asarray([v, w])
np.array([v, w, [0, 0, 1]])
np.vstack((v, w, np.zeros(3)))
np.array([v[0], 0, 1.5])
np.atleast_2d(v)
np.atleast_1d(v[0])
np.hstack((v, 1))
np.r_[v, w]
np.c_[v, w]
np.split(np.arange(6), 2)[0]
np.array_split(A, 2)[0]
np.unravel_index(3, (2, 3))
np.delete(v, 1)
np.isclose(v, v)
np.allclose(v, v)
np.allclose(v, w)
np.array_equal(v, v)
np.array_equal(v, w)
np.any(v > 0)
np.all(v > -100)
(v > 0).any()
(v > -100).all()
np.count_nonzero(v > 0)
np.logical_and(v > 0, w > 0)
np.logical_or(v > 0, w > 0)
np.logical_not(v > 0)
np.less(v, w)
np.greater(v, w)
np.greater_equal(v, w)
np.equal(v, v)
np.isfinite(v)
np.isnan(v)
np.isinf(v)
np.round(v[0], 2)
round(v[0], 2)
np.floor(v)
np.ceil(v)
np.rint(v)
np.trunc(v)
np.mod(v[0], 1.0)
np.linalg.solve(M, v)
np.linalg.solve(M, A.T)
np.linalg.inv(M)
np.linalg.inv(M) @ v
np.linalg.det(M)
np.sin(v)
np.cos(v[0])
np.tan(v[0])
np.exp(0.0)
np.arctan2(v[0], w[0])
np.arctan(v[0])
math.sin(v[0])
math.cos(v[0])
math.radians(v[0])
math.degrees(v[0])
np.sin(np.deg2rad(30.0)) * v
np.pi * v
math.pi * v[0]
np.float64(2.0) * v
np.float64(v[0])
float(v[0])
int(2.0)
v.tolist()
list(v)
v.astype(float)
A.astype(np.float64)
np.array(v, dtype=np.float64)
np.asarray(v, dtype=float)
np.ascontiguousarray(A)
np.fromiter((x for x in v), dtype=float)
np.fromiter([x * 2 for x in v], dtype=float, count=3)
np.array(list(map(lambda x: x * 2, v)))
np.nan_to_num(v)
np.broadcast_to(v, (2, 3))
np.broadcast_arrays(v, A)[0]
np.apply_along_axis(lambda r: r * 2, 1, A)
np.trapezoid(v, w)
np.sum(v[None, :] * A, axis=-1)
np.sum([v, w], axis=0)
sum([v, w])
sum((v, w), np.zeros(3))
max(v)
min(v)
max(v[0], v[1])
sorted(v)
np.add(v, w, out=np.zeros(3))
np.multiply(v, 2.0)
np.vectorize(lambda x: x * 2.0)(v)
np.interp(0.5, [0.0, 1.0], [2.0, 4.0])
np.select([v > 0, v <= 0], [v, -v])
np.take(v, [0, 2])
np.ix_([0, 1], [0, 1])[0]
np.tril(M)
np.triu(M)
np.kron(v, w)
np.nonzero(v)[0]
np.unique(np.array([1, 2, 2]))
np.mean([v[0], v[1]])
np.median(np.array([1.0, 2.0, 5.0]))
np.max([v[0], v[1]])
np.max(np.abs(v))
np.maximum.reduce(v)
np.min([v[0], w[0]])
np.ndarray.flatten(A)
np.size(A)
np.shape(A)
A.shape
np.ndim(A)
A.size
len(A)
-v
+v
v / 2
v // 1
1 / w
2 - v
v += w
A[0] @ B[0]
(A * B).sum(axis=1)
np.sum(A * B, axis=1, keepdims=True)
A[:, 0] * B[:, 1] - A[:, 1] * B[:, 0]
A / np.linalg.norm(A, axis=1)[:, None]
v / np.linalg.norm(v)
np.linalg.multi_dot([M, M, v])
np.linalg.matrix_power(M, 2)
np.divide(v, w, out=np.zeros_like(v), where=w != 0)
np.errstate(divide='ignore')
np.finfo(float).eps * v
np.sum(np.fromiter((x for x in v), float))
np.linalg.norm(v) ** 2
np.vstack([np.hstack([M, v[:, None]]), [0, 0, 0, 1]])
np.array([[1, 0, 0], [0, np.cos(v[0]), -np.sin(v[0])], [0, np.sin(v[0]), np.cos(v[0])]])
np.block([[M, M], [M, M]])
np.lib.stride_tricks.sliding_window_view(v, 2)
np.ndindex(2, 2)
list(np.ndenumerate(v))[0][1]
np.empty((2, 0)).shape
np.array([]).size
np.empty((0, 3)).shape
np.vstack((np.empty((0, 3)), v))
np.concatenate((np.array([]), v))
np.array([0.0, 0.0]) + v[:2]
np.linspace(0, np.pi, 4)
np.cos(np.linspace(0, np.pi, 3))
0.5 * (1 - np.cos(np.linspace(0, np.pi, 3)))
np.array([True, False]).any()
np.bitwise_or(np.array([True]), np.array([False]))
np.linalg.lstsq(M, v, rcond=None)[0]
np.isscalar(v[0])
np.sum(v, dtype=float)
np.hypot.reduce([3.0, 4.0])
np.dstack((v, w))
np.array([x for x in v if x > 0])
v[v > 0]
np.extract(v > 0, v)
np.piecewise
np.cbrt
np.float_power(v, 2)
np.sinh
pow(v[0], 2)
divmod(7, 2)
np.remainder(v[0], 1)
math.fmod(7.5, 2)
math.floor(v[0])
math.ceil(v[0])
math.isclose(v[0], v[0])
math.inf
np.inf
isinstance(v[0], float)
isinstance(v[0], (int, float))
isinstance(v, np.ndarray)
isinstance(np.float64(1), np.floating)
isinstance(v[0], np.floating)
operator.add(v[0], w[0])
operator.mul(v[0], w[0])
operator.truediv(v[0], w[0])
functools.reduce(operator.add, v)
functools.reduce(np.add, [v, w])
statistics.mean([1.0, 2.0])
itertools.accumulate
list(itertools.accumulate([1.0, 2.0]))
v.item(0)
v[0].item()
A.tolist()
v.prod()
v.cumsum()
A.trace()
v.round(2)
A.transpose()
A.swapaxes(0, 1)
A.squeeze()
v.repeat(2)
v.take([0])
v.any()
v.all()
A.max(axis=0)
A.min(axis=1)
A.nonzero()[0]
v.fill
np.sum(x * y for x, y in zip(v, w))
sum(x * y for x, y in zip(v, w))
""".strip().splitlines()


def env(np, math, conv):
    import functools
    import itertools
    import operator
    import statistics

    def a(x):
        return conv(rnp.array(x))
    g = dict(np=np, math=math, functools=functools, itertools=itertools, operator=operator, statistics=statistics,
             v=a([1.25, -2.5, 0.75]), w=a([0.5, 1.5, -2.25]), A=a([[1.0, 2.5, -3.0], [4.0, -0.5, 6.25]]),
             B=a([[0.5, 1.5, 2.0], [-1.0, 2.0, 0.25]]), M=a([[2.0, 0.5, 0.25], [0.0, 1.5, -1.0], [1.0, 0.25, 3.0]]),
             T=a([[[1.0, 2.0, 3.0], [0.5, -1.0, 2.0]], [[4.0, 1.0, -1.0], [0.25, 3.0, 1.5]]]))
    return g


def val(x):
    if isinstance(x, (list, tuple)):
        return [val(y) for y in x]
    if isinstance(x, rnp.ndarray):
        return [val(y) for y in x]if x.ndim else val(x.item())
    if isinstance(x, (Fraction, int, float, rnp.number)) and not isinstance(x, (bool, rnp.bool_)):
        return float(x)
    if isinstance(x, sym.Sym):
        return ("sym", x)
    if isinstance(x, sym.SymBool):
        return bool(x)
    if isinstance(x, (bool, rnp.bool_)):
        return bool(x)
    return None


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or a is None:
        return True if b is None and a is None else a == b
    if isinstance(b, tuple):
        return True
    if isinstance(a, float):
        return isinstance(b, (float, bool)) and abs(a - b) <= 1e-9 * (1 + abs(a)) or a == b
    return a == b


def run(e, g):
    import warnings
    warnings.simplefilter("ignore")
    if e == "v += w":
        g = dict(g)
        exec(e, g)
        return g["v"]
    return eval(e, g)


def main():
    import math
    pick = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = 0
    for e in EXPRS:
        if pick not in e:
            continue
        try:
            r = val(run(e, env(rnp, math, lambda x: x)))
        except Exception as ex:
            print("REAL FAILS", e, repr(ex)[:80])
            continue
        g = env(shim.np, shim.math, shim.exact)
        from engine import loader
        g.update(float=loader._Float, max=loader._max, min=getattr(loader, "_min", min), round=loader._round, isinstance=isinstance)
        try:
            s = val(run(e, g))
            if not same(r, s):
                bad += 1
                print("EXACT DIFFERS", e, str(r)[:90], str(s)[:90])
        except Exception as ex:
            bad += 1
            print("EXACT FAILS", e, type(ex).__name__, str(ex)[:90])
        out = []

        def h():
            k = [0]

            def conv(x):
                o = rnp.empty(x.shape, dtype=object)
                f = o.reshape(-1)
                for i, y in enumerate(x.reshape(-1).tolist()):
                    k[0] += 1
                    q = Fraction(repr(y))
                    f[i] = sym.Sym(sym.patom(sym.T.input("x%d" % k[0], q - Fraction(1, 100), q + Fraction(1, 100))))
                return o
            g2 = dict(g)
            g2.update({n: x for n, x in env(shim.np, shim.math, conv).items() if n in "vwABMT"})
            out.append(run(e, g2))
        try:
            symbolic(h)
            if not out:
                raise RuntimeError("no path")
            s = val(out[0])
            if not same(r, s) and "sym" not in str(s):
                if not close(r, s):
                    bad += 1
                    print("SYM DIFFERS", e, str(r)[:90], str(s)[:90])
        except Exception as ex:
            bad += 1
            print("SYM FAILS", e, type(ex).__name__, str(ex)[:90])
    print("bad", bad, "of", len(EXPRS))


def close(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) < 0.2
    return same(a, b)


def symbolic(h):
    """Run h along one feasible path."""
    import time

    sym.reset_table()
    core.smt._defcache.clear()
    sym.set_ctx(core.Ctx([], {"decisions": 0}, time.time() + 20))
    h()


if __name__ == "__main__":
    main()
