"""Steady ring solver: no penetration, vortex placement and trailing horseshoes."""
from common import *
from engine.parts import Part


def harness(env, shapes, fixed=False):
    K, planes, op, s = run_ring(env, shapes, fixed=fixed)
    vs = rings(env, planes)
    for n, v in enumerate(vs):
        check_ring_vortex(env, n, v)
        env.eq("solver strength %d" % n, s.vortex_strengths[n], v.g)
        if v.r.te:
            h = v.panel.horseshoe_vortex
            far = mul(20 * planes[v.k].wings[v.w].span, op._oracle["d"])
            env.eq("trailing horseshoe %d" % n,
                   [[l.origin, l.termination] for l in (h.right_leg, h.finite_leg, h.left_leg)],
                   [[add(v.br, far), v.br], [v.br, v.bl], [v.bl, add(v.bl, far)]])
            env.eq("trailing horseshoe strength %d" % n, [h.right_leg.strength, h.finite_leg.strength, h.left_leg.strength], [v.g] * 3)
        env.eq("no penetration %d" % n, dot(ring_velocity(env, K, vs, planes, op, v.r.cp), v.r.unit_normal(env)), 0)


M = ("steady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, any wind of any speed in [0.1, 100] and angles, any reference point"
F = "fixed unrelated vertices, any wind of any speed in [0.1, 100] and angles, any reference point"
PARTS = [
    Part("one wing", harness, "one airplane, one wing of 2x2 panels; " + B, modules=M, params=dict(shapes=[[(2, 2)]])),
    Part("two planes", harness, "two airplanes: wings 1x2 and 2x1, and a wing 1x1; " + B, modules=M, params=dict(shapes=[[(1, 2), (2, 1)], [(1, 1)]])),
    Part("larger", harness, "one airplane, 3x3 panels; " + B, modules=M, params=dict(shapes=[[(3, 3)]]), tiers=("thorough",)),
    Part("larger, fixed shape", harness, "one airplane, a wing of 3x3 panels and one of 2x1; " + F, modules=M, params=dict(shapes=[[(3, 3), (2, 1)]], fixed=True)),
    Part("three planes, fixed shape", harness, "three airplanes: wings 1x2, 2x1 and 1x1, wings 1x1 and 2x2, a wing 1x3; " + F, modules=M,
         params=dict(shapes=[[(1, 2), (2, 1), (1, 1)], [(1, 1), (2, 2)], [(1, 3)]], fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated problems of a wing of 1x2 panels; " + B, modules=M, params=dict(shapes=[[(1, 2)]])),
]
