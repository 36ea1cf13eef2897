"""Steady horseshoe solver: no penetration and vortex placement."""
from common import *
from engine.parts import Part


def harness(env, shapes, fixed=False):
    K, planes, op, s = run_horseshoe(env, shapes, fixed=fixed)
    vs = horseshoes(env, planes, op)
    for n, (k, w, r, p, g, fr, fl, br, bl) in enumerate(vs):
        h = p.horseshoe_vortex
        env.eq("bound leg %d" % n, [h.finite_leg.origin, h.finite_leg.termination], [fr, fl])
        for leg, a, b in ((h.right_leg, br, fr), (h.left_leg, fl, bl)):
            env.eq("trailing leg %d" % n, [leg.origin, leg.termination], [a, b])
        env.eq("leg strengths %d" % n, [h.finite_leg.strength, h.right_leg.strength, h.left_leg.strength], [g, g, g])
        env.eq("solver strength %d" % n, s.vortex_strengths[n], g)
        env.eq("no penetration %d" % n, dot(horseshoe_velocity(K, vs, op, r.cp), r.unit_normal(env)), 0)


M = ("steady_horseshoe_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, any wind of any speed in [0.1, 100] and angles, any reference point"
F = "fixed unrelated vertices, any wind of any speed in [0.1, 100] and angles, any reference point"
PARTS = [
    Part("one wing", harness, "one airplane, one wing of 2x2 panels; " + B, modules=M, params=dict(shapes=[[(2, 2)]])),
    Part("two planes", harness, "two airplanes: wings 1x2 and 2x1, and a wing 1x1; " + B, modules=M, params=dict(shapes=[[(1, 2), (2, 1)], [(1, 1)]])),
    Part("larger", harness, "one airplane, 3x3 panels; " + B, modules=M, params=dict(shapes=[[(3, 3)]]), tiers=("thorough",)),
    Part("larger, fixed shape", harness, "one airplane, a wing of 3x3 panels and one of 2x1; " + F, modules=M, params=dict(shapes=[[(3, 3), (2, 1)]], fixed=True)),
    Part("three planes, fixed shape", harness, "three airplanes: wings 1x2, 2x1 and 1x1, wings 1x1 and 2x2, a wing 1x3; " + F, modules=M,
         params=dict(shapes=[[(1, 2), (2, 1), (1, 1)], [(1, 1), (2, 2)], [(1, 3)]], fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated problems of a wing of 1x2 panels; " + B, modules=M, params=dict(shapes=[[(1, 2)]])),
]
