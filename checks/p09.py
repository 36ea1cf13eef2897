"""Spacing, interpolation, rotation and reflection primitives."""
from common import *
from engine.parts import Part


def spacing(env):
    f = env.module("functions")
    lo, hi = env.real("lo", -5, 5), env.real("hi", -5, 5)
    n = env.int_("n", 2, 6)
    end = env.flag("endpoint")
    got = f.cosspace(lo, hi, n_points=n, endpoint=end)
    env.true("count", tuple(got.shape) == (n,))
    m = n - 1 if end else n
    env.eq("points", got, [(lo + hi) / 2 - (hi - lo) / 2 * env.np.cos(env.pi * k / m) for k in range(n)])
    env.eq("first", got[0], lo)
    if end:
        env.eq("last", got[-1], hi)


def default_spacing(env):
    f = env.module("functions")
    lo, hi = env.real("lo", -5, 5), env.real("hi", -5, 5)
    got = f.cosspace(lo, hi)
    env.true("count", tuple(got.shape) == (50,))
    env.eq("ends", [got[0], got[-1]], [lo, hi])


def rotation(env, given):
    f, np = env.module("functions"), env.np
    th = env.real("theta", -7, 7)
    v = env.pt("v")
    if given:
        a, b = env.real("a", -3, 3), env.real("b", -3, 3)
        u = [np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b)]
        R = f.angle_axis_rotation_matrix(th, env.array(u), True)
    else:
        w = env.vec("u", 3, env.const("0.1"), 4)
        w = env.array([w[0], -w[1], w[2]])
        L = norm(env, w)
        u = [x / L for x in w]
        R = f.angle_axis_rotation_matrix(th, w)
    s, c = np.sin(th), np.cos(th)
    env.eq("rotation", R @ v, add(mul(c, v), mul(s, cross(u, v)), mul((1 - c) * dot(u, v), u)))


def reflection(env):
    f, np = env.module("functions"), env.np
    a, b = env.real("a", -3, 3), env.real("b", -3, 3)
    n = [np.cos(a) * np.cos(b), np.sin(a) * np.cos(b), np.sin(b)]
    p, q = env.pt("p"), env.pt("q")
    r = f.reflect_point_across_plane(p, env.array(n), q)
    env.eq("mirror image", r, sub(p, mul(2 * dot(sub(p, q), n), n)))


def interpolation(env, m, n):
    f = env.module("functions")
    A, B = env.array([env.pt("a%d" % i) for i in range(m)]), env.array([env.pt("b%d" % i) for i in range(m)])
    s = [env.real("s%d" % j, -1, 2) for j in range(n)]
    got = f.interp_between_points(A, B, env.array(s))
    env.true("shape", tuple(got.shape) == (m, n, 3))
    for i in range(m):
        for j in range(n):
            env.eq("point %d %d" % (i, j), got[i, j], add(mul(1 - s[j], A[i]), mul(s[j], B[i])))


def products(env):
    f = env.module("functions")
    A, B = env.array([env.pt("a%d" % i) for i in range(3)]), env.array([env.pt("b%d" % i) for i in range(3)])
    env.eq("cross products", f.numba_1d_explicit_cross(A, B), [cross(A[i], B[i]) for i in range(3)])
    V = [env.pt(c) for c in ("fl", "fr", "bl", "br")]
    env.eq("centroid", f.numba_centroid_of_quadrilateral(*V), mul(env.const("0.25"), add(*V)))


M = ("functions",)
PARTS = [
    Part("spacing", spacing, "any ends, 2 to 6 points, with and without the end point", modules=M),
    Part("default spacing", default_spacing, "any ends, the default 50 points", modules=M),
    Part("rotation", rotation, "any angle, vector and axis", modules=M, params=dict(given=False)),
    Part("rotation, unit axis", rotation, "any angle, vector and unit axis", modules=M, params=dict(given=True)),
    Part("reflection", reflection, "any point and plane", modules=M),
    Part("interpolation", interpolation, "3 pairs of points, 2 fractions", modules=M, params=dict(m=3, n=2)),
    Part("products", products, "3 pairs of vectors, any quadrilateral", modules=M),
]
PARTS += [
    Part("two spacings", two(spacing, "lo", "hi", "n", "end"), "any ends, 2 to 6 points each, with and without the end point", modules=M),
    Part("two rotations", two(rotation, "theta", "a|b", "v"), "any angles, vectors and axes", modules=M, params=dict(given=False)),
    Part("two interpolations", two(interpolation, "a", "b", "s"), "2 pairs of points, 2 fractions each", modules=M, params=dict(m=2, n=2)),
]
