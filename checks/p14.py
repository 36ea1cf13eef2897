"""Unsteady ring solver: no flow through the moving wings."""
from common import *
from engine.parts import Part


def harness(env, shapes, steps, prescribed=True, fixed=False, loads=False):
    u = Unsteady(env, shapes, steps, prescribed, loads=loads, fixed=fixed)
    for t in range(steps):
        for n, v in enumerate(u.rings[t]):
            check_ring_vortex(env, n, v, "step %d " % t)
            w = u.still(t, v.r.cp, u.rings[t - 1][n].r.cp)
            env.eq("step %d no penetration %d" % (t, n), dot(add(u.velocity(t, v.r.cp), w), v.r.unit_normal(env)), 0)


M = ("unsteady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, wind, density, viscosity independently at each step"
F = "fixed unrelated vertices, any wind, density, viscosity and reference points independently at each step"
PARTS = [
    Part("two steps", harness, "one wing of 2x2 panels, 2 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(2, 2)]], steps=2)),
    Part("three steps", harness, "two wings of 1x1 panel, 3 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)], [(1, 1)]], steps=3)),
    Part("loads at every step", harness, "one wing of 1x2 panels, 3 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 2)]], steps=3, loads=True)),
    Part("five steps, free wake, fixed shape", harness, "one wing of 1x1 panel, 5 steps, free wake; " + F, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=5, prescribed=False, fixed=True)),
    Part("larger, fixed shape", harness, "airplanes of wings 3x2 and 1x1, and of a wing 2x3, 3 steps, prescribed wake; " + F, modules=M,
         params=dict(shapes=[[(3, 2), (1, 1)], [(2, 3)]], steps=3, fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta", "nu", "dt"), "two unrelated problems of a wing of 1x1 panel, 2 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=2)),
]
