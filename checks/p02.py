"""Line vortex kernels against the Biot-Savart law with a viscous core."""
from fractions import Fraction

from engine.parts import Part


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def law(env, p, o, t, g, age, nu):
    """Gamma/4pi (r1 x r2) r0.(r1/|r1| - r2/|r2|) / (|r1 x r2|^2 + |r0|^2 rc^2), from o to t."""
    rt = env.math.sqrt
    r1, r2 = p - o, p - t
    r0 = t - o
    x = cross(r1, r2)
    rc2 = 4 * env.const("1.25643") * (nu + env.const("0.0001") * abs(g)) * age
    k = dot(r0, [a / rt(dot(r1, r1)) - b / rt(dot(r2, r2)) for a, b in zip(r1, r2)])
    den = dot(x, x) + dot(r0, r0) * rc2
    return [g * k * c / (4 * env.pi * den) for c in x]


def setup(env, n, m, with_age):
    P = env.array([env.pt("p%d" % i) for i in range(n)])
    O = env.array([env.pt("o%d" % i) for i in range(m)])
    T = env.array([env.pt("t%d" % i) for i in range(m)])
    G = env.array([env.real("g%d" % i, -9, 9) for i in range(m)])
    ages = env.array([env.real("age%d" % i, 0, 9) for i in range(m)]) if with_age else None
    nu = env.real("nu", 0, 1) if with_age else 0
    return P, O, T, G, ages, nu


def away(env, p, o, t):
    """Not within round-off of the line or the end points."""
    x = cross(p - o, p - t)
    tiny = env.const("1e-12")
    env.assume(dot(x, x) > tiny)
    env.assume(dot(p - o, p - o) > tiny)
    env.assume(dot(p - t, p - t) > tiny)


def calls(env, P, O, T, G, ages, nu, with_age):
    a = env.module("aerodynamics")
    kw = dict(ages=ages, nu=nu) if with_age else {}
    c = a.collapsed_velocities_from_line_vortices(points=P, origins=O, terminations=T, strengths=G, **kw)
    e = a.expanded_velocities_from_line_vortices(points=P, origins=O, terminations=T, strengths=G, **kw)
    return c, e


def regular(env, n, m, with_age):
    P, O, T, G, ages, nu = setup(env, n, m, with_age)
    for i in range(n):
        for j in range(m):
            away(env, P[i], O[j], T[j])
    c, e = calls(env, P, O, T, G, ages, nu, with_age)
    for i in range(n):
        s = [0, 0, 0]
        for j in range(m):
            w = law(env, P[i], O[j], T[j], G[j], ages[j] if with_age else 0, nu)
            env.eq("per-vortex %d,%d" % (i, j), e[i, j], w)
            s = [x + y for x, y in zip(s, w)]
        env.eq("summed %d" % i, c[i], s)


def singular(env):
    where = env.choice("where", ["origin", "termination", "on the segment", "on the extension", "degenerate filament"])
    o, d = env.pt("o"), env.pt("d")
    t = o + d
    s = env.real("s", -3, 3)
    if where == "origin":
        p = o + 0 * d
    elif where == "termination":
        p = t + 0 * d
    elif where == "degenerate filament":
        t = o + 0 * d
        p = env.pt("p")
    else:
        if where == "on the segment":
            env.assume(s > 0)
            env.assume(s < 1)
        else:
            env.assume(env.lor(s < 0, s > 1))
        p = o + s * d
    o2, t2 = env.pt("o2"), env.pt("t2")
    away(env, p, o2, t2)
    g, g2, age, age2, nu = env.real("g", -9, 9), env.real("g2", -9, 9), env.real("age", 0, 9), env.real("age2", 0, 9), env.real("nu", 0, 1)
    for order in (0, 1):
        O, T, G, A = [o, o2], [t, t2], [g, g2], [age, age2]
        if order:
            O, T, G, A = O[::-1], T[::-1], G[::-1], A[::-1]
        c, e = calls(env, env.array([p]), env.array(O), env.array(T), env.array(G), env.array(A), nu, True)
        w = law(env, p, o2, t2, g2, age2, nu)
        env.eq("zero at the singularity %d" % order, e[0, order], [0, 0, 0])
        env.eq("other filament %d" % order, e[0, 1 - order], w)
        env.eq("sum with the other filament %d" % order, c[0], w)


def near(env):
    """Points close to the filament or to its extension, but not within round-off: filaments along an axis."""
    k = env.int_("axis", 0, 2)
    L, at, h = env.real("L", env.const("0.1"), 4), env.real("at", -2, 3), env.real("h", env.const("0.00002"), env.const("0.01"))
    o = env.pt("o")
    d, off = [0, 0, 0], [0, 0, 0]
    d[k] = L
    off[k], off[(k + 1) % 3], off[(k + 2) % 3] = at * L, h * env.const("0.6"), -h * env.const("0.8")
    t, p = o + env.array(d), o + env.array(off)
    age, nu = env.real("age", 0, 9), env.real("nu", 0, 1)
    g = env.real("g", -9, 9)
    c, e = calls(env, env.array([p]), env.array([o]), env.array([t]), env.array([g]), env.array([age]), nu, True)
    w = law(env, p, o, t, g, age, nu)
    env.eq("per-vortex", e[0, 0], w)
    env.eq("summed", c[0], w)


M = ("aerodynamics",)
PARTS = [
    Part("1x1-core", regular, "1 point, 1 filament, coordinates in [-4,4], strength in [-9,9], age in [0,9], nu in [0,1]", modules=M, params=dict(n=1, m=1, with_age=True)),
    Part("1x1-no-core", regular, "1 point, 1 filament, ages and viscosity left at their defaults", modules=M, params=dict(n=1, m=1, with_age=False)),
    Part("2x2-core", regular, "2 points, 2 filaments", modules=M, params=dict(n=2, m=2, with_age=True)),
    Part("1x3-core", regular, "1 point, 3 filaments", modules=M, params=dict(n=1, m=3, with_age=True)),
    Part("3x1-core", regular, "3 points, 1 filament", modules=M, params=dict(n=3, m=1, with_age=True)),
    Part("3x2-no-core", regular, "3 points, 2 filaments", modules=M, params=dict(n=3, m=2, with_age=False), tiers=("thorough",)),
    Part("singular", singular, "end points, segment, its extension, zero-length filament; next to a regular filament, either order", modules=M),
    Part("near the line", near, "1 point between 2e-5 and 0.01 from the line of a filament along an axis of length 0.1 to 4", modules=M),
]
