"""Streamlines of the three solvers."""
from common import *
from engine.parts import Part


def follow(env, s, seeds, velocity, n, dt, rows=None):
    L = s.streamline_points
    env.true("number of points", tuple(L.shape) == (n + 1, len(seeds), 3))
    if tuple(L.shape) != (n + 1, len(seeds), 3):
        return
    for j, p in enumerate(seeds):
        for t in range((rows or n) + 1):
            env.eq("line %d point %d" % (j, t), L[t, j], p)
            if t < (rows or n):
                p = add(p, mul(dt, velocity(p)))


def setting(env, n):
    if n == "default":
        return "default", 25, env.const("0.02"), 4
    dt = env.real("ds", env.const("0.001"), env.const("0.1"))
    return (n, dt), n, dt, n


def seeds_of(env, refs):
    h = env.const("0.5")
    return [mul(h, add(r.bl, r.br)) for r in refs if r.te]


def horseshoe(env, shapes, n, **kw):
    keep, n, dt, rows = setting(env, n)
    K, planes, op, s = run_horseshoe(env, shapes, streamlines=keep, **kw)
    vs = horseshoes(env, planes, op)
    follow(env, s, seeds_of(env, [v[2] for v in vs]), lambda p: horseshoe_velocity(K, vs, op, p), n, dt, rows)


def ring(env, shapes, n, **kw):
    keep, n, dt, rows = setting(env, n)
    K, planes, op, s = run_ring(env, shapes, streamlines=keep, **kw)
    vs = rings(env, planes)
    follow(env, s, seeds_of(env, [v.r for v in vs]), lambda p: ring_velocity(env, K, vs, planes, op, p), n, dt, rows)


def unsteady(env, shapes, steps, n, **kw):
    keep, n, dt, rows = setting(env, n)
    u = Unsteady(env, shapes, steps, loads=False, streamlines=keep, **kw)
    follow(env, u.solver, seeds_of(env, [v.r for v in u.rings[-1]]), lambda p: u.velocity(steps - 1, p), n, dt, rows)


M = ("steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method", "unsteady_ring_vortex_lattice_method")
B = "any vertices within 0.4 of a unit grid, wind and step size"
F = "fixed vertices, any wind and step size"
PARTS = [
    Part("horseshoe", horseshoe, "airplane of wings 2x1 and 1x2, 2 points per line; " + B, modules=M, params=dict(shapes=[[(2, 1), (1, 2)]], n=2)),
    Part("horseshoe, two planes", horseshoe, "airplanes of one panel, 3 points per line; " + B, modules=M, params=dict(shapes=[[(1, 1)], [(1, 1)]], n=3)),
    Part("ring", ring, "airplane of wings 2x1 and 1x1, 2 points per line; " + B, modules=M, params=dict(shapes=[[(2, 1), (1, 1)]], n=2)),
    Part("ring, two planes", ring, "airplanes of 1x2 and 1x1 panels, 1 point per line; " + B, modules=M, params=dict(shapes=[[(1, 2)], [(1, 1)]], n=1)),
    Part("unsteady", unsteady, "wing of 2x1 panels, 2 steps, 2 points per line; " + B, modules=M, params=dict(shapes=[[(2, 1)]], steps=2, n=2)),
    Part("unsteady, two planes", unsteady, "airplanes of 1x2 and 1x1 panels, 3 steps, 1 point per line; " + B, modules=M,
         params=dict(shapes=[[(1, 2)], [(1, 1)]], steps=3, n=1)),
    Part("default, horseshoe", horseshoe, "one panel, the default 25 points per line (first 4 compared); " + B, modules=M, params=dict(shapes=[[(1, 1)]], n="default")),
    Part("default, ring", ring, "one panel, the default 25 points per line (first 4 compared); " + B, modules=M, params=dict(shapes=[[(1, 1)]], n="default")),
    Part("default, unsteady", unsteady, "one panel, 2 steps, the default 25 points per line (first 4 compared); " + B, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=2, n="default")),
    Part("horseshoe, fixed shape", horseshoe, "airplanes of wings 2x2 and 1x1 and of a wing 1x3, 4 points per line; " + F, modules=M, params=dict(shapes=[[(2, 2), (1, 1)], [(1, 3)]], n=4, fixed=True)),
    Part("ring, fixed shape", ring, "airplanes of wings 2x2 and 1x1 and of a wing 1x3, 4 points per line; " + F, modules=M, params=dict(shapes=[[(2, 2), (1, 1)], [(1, 3)]], n=4, fixed=True)),
    Part("unsteady, fixed shape", unsteady, "airplanes of wings 2x2 and 1x1, 4 steps, 3 points per line; " + F, modules=M, params=dict(shapes=[[(2, 2), (1, 1)]], steps=4, n=3, fixed=True)),
]
PARTS += [
    Part("horseshoe, two problems at once", two(horseshoe, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated airplanes of one panel, 2 points per line; " + B, modules=M, params=dict(shapes=[[(1, 1)]], n=2)),
    Part("ring, two problems at once", two(ring, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated airplanes of one panel, 2 points per line; " + B, modules=M, params=dict(shapes=[[(1, 1)]], n=2)),
]
