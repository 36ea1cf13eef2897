"""Unsteady ring solver: wake strengths and ages."""
from common import *
from engine.parts import Part


def harness(env, shapes, steps, prescribed=True, fixed=False, loads=False):
    u = Unsteady(env, shapes, steps, prescribed, loads=loads, fixed=fixed)
    s = u.solver
    for t in range(steps):
        wk = u.wake[t]
        env.true("step %d wake size" % t, len(s.wake_ring_vortex_strengths_list[t]) == len(wk) and len(s.wake_ring_vortex_ages_list[t]) == len(wk))
        for n, (k, w, i, j, fl, fr, bl, br, g, age) in enumerate(wk):
            env.eq("step %d wake strength %d" % (t, n), s.wake_ring_vortex_strengths_list[t][n], g)
            env.eq("step %d wake age %d" % (t, n), s.wake_ring_vortex_ages_list[t][n], age)
    t = steps - 1
    for n, (k, w, i, j, fl, fr, bl, br, g, age) in enumerate(u.wake[t]):
        rv = u.planes[t][k].wings[w].wake_ring_vortices[i, j]
        env.eq("final ring %d strength and age" % n, [rv.strength, rv.age], [g, age])
        env.eq("final ring %d leg strengths" % n, [l.strength for l in (rv.front_leg, rv.left_leg, rv.back_leg, rv.right_leg)], [g] * 4)
    x = [env.real("x%d" % c, -3, 3) for c in range(3)]
    env.eq("velocity at a point", s.calculate_solution_velocity(points=env.array([x]))[0], u.velocity(t, x))


M = ("unsteady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, wind and viscosity independently at each step"
F = "fixed unrelated vertices, any wind, density, viscosity and reference points independently at each step"
PARTS = [
    Part("four steps", harness, "one wing of 1x1 panel, 4 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=4)),
    Part("three steps, 2x2", harness, "one wing of 2x2 panels, 3 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(2, 2)]], steps=3)),
    Part("free wake", harness, "one wing of 1x1 panel, 3 steps, free wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=3, prescribed=False)),
    Part("two planes", harness, "two airplanes: wings 1x2 and 1x1, and a wing 1x1, 3 steps, prescribed wake; " + B, modules=M,
         params=dict(shapes=[[(1, 2), (1, 1)], [(1, 1)]], steps=3)),
    Part("loads at every step", harness, "two airplanes of one panel, 3 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)], [(1, 1)]], steps=3, loads=True)),
    Part("six steps, free wake, fixed shape", harness, "one wing of 1x1 panel, 6 steps, free wake; " + F, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=6, prescribed=False, fixed=True)),
    Part("larger, fixed shape", harness, "airplanes of wings 2x2 and 1x1, and of wings 1x1, 1x2 and 1x1, 5 steps, prescribed wake; " + F, modules=M,
         params=dict(shapes=[[(2, 2), (1, 1)], [(1, 1), (1, 2), (1, 1)]], steps=5, fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta", "nu", "dt"), "two unrelated problems of a wing of 1x1 panel, 2 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=2)),
]
