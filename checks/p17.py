"""Unsteady ring solver: loads."""
from common import *
from engine.parts import Part


def harness(env, shapes, steps, prescribed=True, first=0, period=None, **kw):
    if period:
        dt = env.const("0.25")
        kw.update(dt=dt, periods=[period * dt])
        if env.symbolic:
            # the cycle averages of the totals (P21 decides them) are too large as expressions
            f = env.module("functions")
            share = f.process_unsteady_solver_forces

            def without_totals(unsteady_solver, *a, **k):
                share(unsteady_solver, *a, **k)
                for p in unsteady_solver.current_airplanes:
                    for n in ("force", "moment"):
                        for a in ("total_near_field_%s_wind_axes" % n, "total_near_field_%s_coefficients_wind_axes" % n):
                            setattr(p, a, env.np.zeros(3))

            env.patch_everywhere(share, without_totals)
    u = Unsteady(env, shapes, steps, prescribed, **kw)
    for t in range(first, steps):
        vs, op = u.rings[t], u.ops[t]._oracle
        for n, v in enumerate(vs):
            was = u.rings[t - 1][n] if t else None
            ref = u.planes[t][v.k].ref
            F, M = [0, 0, 0], [0, 0, 0]
            for g, leg in zip(leg_strengths(vs, v), ("right", "front", "left")):
                vec, c = getattr(v, leg)
                vel = add(u.velocity(t, c), u.still(t, c, getattr(was, leg)[1] if t else None))
                f = mul(op["rho"] * g, cross(vel, vec))
                F, M = add(F, f), add(M, cross(sub(c, ref), f))
            dg = v.g - (was.g if t else 0)
            f = mul(op["rho"] * dg / u.dt, mul(v.r.area(env), v.r.unit_normal(env)))
            F, M = add(F, f), add(M, cross(sub(v.r.cp, ref), f))
            env.eq("step %d force %d" % (t, n), v.panel.near_field_force_geometry_axes, F)
            env.eq("step %d moment %d" % (t, n), v.panel.near_field_moment_geometry_axes, M)


M = ("unsteady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid, wind, density, viscosity and reference points independently at each step"
F = "fixed unrelated vertices, any wind, density, viscosity and reference points independently at each step"
PARTS = [
    Part("two steps", harness, "one wing of 2x2 panels, 2 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(2, 2)]], steps=2)),
    Part("three steps", harness, "one wing of 1x1 panel, 3 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=3)),
    Part("two planes", harness, "two airplanes: wings 1x2 and 1x1, and a wing 1x1, 2 steps, prescribed wake; " + B, modules=M,
         params=dict(shapes=[[(1, 2), (1, 1)], [(1, 1)]], steps=2)),
    Part("final results only", harness, "one wing of 1x1 panel, 3 steps, loads asked for at the last step only; " + B, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=3, first=2, only_final_results=True)),
    Part("last period only", harness, "one wing of 1x1 panel, 3 steps, a motion whose period is two steps, loads asked for in the last period only; " + B, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=3, first=1, only_final_results=True, period=2)),
    Part("five steps, free wake, fixed shape", harness, "one wing of 1x1 panel, 5 steps, free wake; " + F, modules=M,
         params=dict(shapes=[[(1, 1)]], steps=5, prescribed=False, fixed=True)),
    Part("larger, fixed shape", harness, "airplanes of wings 2x2 and 1x1, and of a wing 1x3, 3 steps, prescribed wake; " + F, modules=M,
         params=dict(shapes=[[(2, 2), (1, 1)], [(1, 3)]], steps=3, fixed=True)),
]
PARTS += [
    Part("two problems at once", two(harness, "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta", "nu", "dt"), "two unrelated problems of a wing of 1x1 panel, 2 steps, prescribed wake; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=2)),
]
