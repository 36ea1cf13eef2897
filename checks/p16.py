"""Steady ring solver: Kutta-Joukowski loads."""
from common import *
from engine.parts import Part


def harness(env, shapes, fixed=False):
    K, planes, op, s = run_ring(env, shapes, fixed=fixed)
    vs = rings(env, planes)
    for n, v in enumerate(vs):
        F, M = [0, 0, 0], [0, 0, 0]
        for g, (vec, c) in zip(leg_strengths(vs, v), (v.right, v.front, v.left)):
            f = mul(op._oracle["rho"] * g, cross(ring_velocity(env, K, vs, planes, op, c), vec))
            F = add(F, f)
            M = add(M, cross(sub(c, planes[v.k].ref), f))
        env.eq("force %d" % n, v.panel.near_field_force_geometry_axes, F)
        env.eq("moment %d" % n, v.panel.near_field_moment_geometry_axes, M)


M = ("steady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, any wind of any speed in [0.1, 100] and angles, any reference points"
F = "fixed unrelated vertices, any wind of any speed in [0.1, 100] and angles, any reference point"
PARTS = [
    Part("one wing", harness, "one airplane, one wing of 2x2 panels; " + B, modules=M, params=dict(shapes=[[(2, 2)]])),
    Part("two planes", harness, "two airplanes: wings 1x2 and 2x1, and a wing 1x1; " + B, modules=M, params=dict(shapes=[[(1, 2), (2, 1)], [(1, 1)]])),
    Part("row of three", harness, "one airplane, 1x3 panels; " + B, modules=M, params=dict(shapes=[[(1, 3)]])),
    Part("larger, fixed shape", harness, "one airplane, a wing of 3x3 panels and one of 2x1; " + F, modules=M, params=dict(shapes=[[(3, 3), (2, 1)]], fixed=True)),
    Part("three planes, fixed shape", harness, "three airplanes: wings 1x2, 2x1 and 1x1, wings 1x1 and 2x2, a wing 1x3; " + F, modules=M,
         params=dict(shapes=[[(1, 2), (2, 1), (1, 1)], [(1, 1), (2, 2)], [(1, 3)]], fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated problems of a wing of 1x2 panels; " + B, modules=M, params=dict(shapes=[[(1, 2)]])),
]
