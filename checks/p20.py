"""Unsteady ring solver: where the wake lies."""
from common import *
from engine.parts import Part


def harness(env, shapes, steps, prescribed=True, fixed=False):
    u = Unsteady(env, shapes, steps, prescribed, loads=False, fixed=fixed)
    s = u.solver
    for t in range(1, steps):
        for k, pl in enumerate(u.planes[t]):
            for w, wing in enumerate(pl.wings):
                V, R = wing.wake_ring_vortex_vertices, u.rows[t][(k, w)]
                env.true("step %d wing %d.%d wake rows" % (t, k, w), V.shape == (t + 1, len(R[0]), 3))
                for i, row in enumerate(R):
                    for j, p in enumerate(row):
                        env.eq("step %d wing %d.%d wake vertex %d %d" % (t, k, w, i, j), V[i, j], p)
        env.true("step %d number of wake rings" % t, len(s.wake_ring_vortex_front_left_vertices_list[t]) == len(u.wake[t]))
        for n, (k, w, i, j, fl, fr, bl, br, g, age) in enumerate(u.wake[t]):
            env.eq("step %d ring %d vertices in use" % (t, n),
                   [getattr(s, "wake_ring_vortex_%s_vertices_list" % c)[t][n] for c in ("front_left", "front_right", "back_left", "back_right")],
                   [fl, fr, bl, br])
    t = steps - 1
    for n, (k, w, i, j, fl, fr, bl, br, g, age) in enumerate(u.wake[t]):
        rv = u.planes[t][k].wings[w].wake_ring_vortices[i, j]
        env.eq("final ring %d legs" % n, [[l.origin, l.termination] for l in (rv.front_leg, rv.left_leg, rv.back_leg, rv.right_leg)],
               [[fr, fl], [fl, bl], [bl, br], [br, fr]])


M = ("unsteady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, wind and viscosity independently at each step"
F = "fixed unrelated vertices, any wind, density, viscosity and reference points independently at each step"
PARTS = [
    Part("four steps", harness, "one wing of 1x1 panel, 4 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=4)),
    Part("free wake", harness, "one wing of 1x2 panels, 2 steps, free wake; " + B, modules=M, params=dict(shapes=[[(1, 2)]], steps=2, prescribed=False)),
    Part("free wake, three steps", harness, "one wing of 1x1 panel, 3 steps, free wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=3, prescribed=False)),
    Part("two planes", harness, "two airplanes: wings 1x2 and 2x1, and a wing 1x1, 3 steps, prescribed wake; " + B, modules=M,
         params=dict(shapes=[[(1, 2), (2, 1)], [(1, 1)]], steps=3)),
    Part("six steps, free wake, fixed shape", harness, "one wing of 1x1 panel, 6 steps, free wake; " + F, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=6, prescribed=False, fixed=True)),
    Part("larger, fixed shape", harness, "airplanes of wings 2x2 and 1x1, and of wings 1x1, 1x2 and 1x1, 5 steps, prescribed wake; " + F, modules=M,
         params=dict(shapes=[[(2, 2), (1, 1)], [(1, 1), (1, 2), (1, 1)]], steps=5, fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta", "nu", "dt"), "two unrelated problems of a wing of 1x1 panel, 2 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=2)),
]
