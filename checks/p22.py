"""Solvers run again, or after one another, on the same problem."""
from common import *
from engine.parts import Part

SOLVERS = dict(h=("steady_horseshoe_vortex_lattice_method", "SteadyHorseshoeVortexLatticeMethodSolver"),
               r=("steady_ring_vortex_lattice_method", "SteadyRingVortexLatticeMethodSolver"))


def steady_problem(env, shapes):
    planes = [Plane(env, k, s) for k, s in enumerate(shapes)]
    op = operating_point(env)
    return planes, env.ps.problems.SteadyProblem(airplanes=[p.airplane for p in planes], operating_point=op)


def legs(v, names):
    return [[l.origin, l.termination, l.strength] for l in [getattr(v, n) for n in names]]


def state(env, planes, which):
    out = {}
    for k, pl in enumerate(planes):
        for a in ("total_near_field_force_wind_axes", "total_near_field_force_coefficients_wind_axes",
                  "total_near_field_moment_wind_axes", "total_near_field_moment_coefficients_wind_axes"):
            out["airplane %d %s" % (k, a)] = getattr(pl.airplane, a)
        for w, wing in enumerate(pl.wings):
            for i in range(wing.panels.shape[0]):
                for j in range(wing.panels.shape[1]):
                    p, n = wing.panels[i, j], "panel %d.%d %d %d " % (k, w, i, j)
                    out[n + "force"] = p.near_field_force_geometry_axes
                    out[n + "moment"] = p.near_field_moment_geometry_axes
                    if which == "h":
                        out[n + "vortex"] = [p.horseshoe_vortex.strength, legs(p.horseshoe_vortex, ("right_leg", "finite_leg", "left_leg"))]
                    else:
                        out[n + "vortex"] = [p.ring_vortex.strength, legs(p.ring_vortex, ("right_leg", "front_leg", "left_leg", "back_leg"))]
                        if which == "r" and p.is_trailing_edge:
                            out[n + "trailing vortex"] = [p.horseshoe_vortex.strength, legs(p.horseshoe_vortex, ("right_leg", "finite_leg", "left_leg"))]
    return out


def compare(env, a, b):
    env.true("same results present", sorted(a) == sorted(b))
    for n in sorted(b):
        env.eq(n, a[n], b[n])


def steady(env, shapes, runs):
    Kernel(env)
    no_streamlines(env)
    planes, pb = steady_problem(env, shapes)
    fresh, pb2 = steady_problem(env, shapes)
    s = None
    for n, c in enumerate(runs):
        if c == "=":  # the same solver object again
            s.run()
            continue
        mod, cls = SOLVERS[c]
        s = getattr(env.module(mod), cls)(pb)
        s.run()
    last = [c for c in runs if c != "="][-1]
    mod, cls = SOLVERS[last]
    s2 = getattr(env.module(mod), cls)(pb2)
    s2.run()
    compare(env, state(env, planes, last), state(env, fresh, last))
    env.eq("streamline seeds", s.seed_points, s2.seed_points)
    x = [env.real("x%d" % c, -3, 3) for c in range(3)]
    env.eq("velocity at a point", s.calculate_solution_velocity(points=env.array([x])), s2.calculate_solution_velocity(points=env.array([x])))


def altered(env, shapes, which):
    """The operating point given other values between the runs, as a trim study does."""
    Kernel(env)
    no_streamlines(env)
    planes, pb = steady_problem(env, shapes)
    fresh, pb2 = steady_problem(env, shapes)
    mod, cls = SOLVERS[which]
    getattr(env.module(mod), cls)(pb).run()
    new = [env.real("new velocity", 1, 10), env.real("new alpha", -40, 40), env.real("new beta", -40, 40)]
    k = env.int_("changed", 0, 3)
    for o in (pb.operating_point, pb2.operating_point):
        for j, n in enumerate(("velocity", "alpha", "beta")):
            if k in (j, 3):
                setattr(o, n, new[j])
    pb3 = env.ps.problems.SteadyProblem(airplanes=[p.airplane for p in planes], operating_point=pb.operating_point)
    a, b = (getattr(env.module(mod), cls)(x) for x in (pb3, pb2))
    a.run()
    b.run()
    compare(env, state(env, planes, which), state(env, fresh, which))
    env.eq("streamline seeds", a.seed_points, b.seed_points)


KINDS = ["final_%snear_field_%s_wind_axes" % (m, k) for k in ("forces", "force_coefficients", "moments", "moment_coefficients") for m in ("", "mean_", "rms_")]


def other_problem(env, shapes, steps, periods=()):
    """Solving one problem leaves the results of another as they were."""
    no_load_bookkeeping(env, lambda p, a: env.array([env.real("l%d_%s" % (names[id(p)], a) + str(c), -5, 5) for c in range(3)]))
    dt = env.const("0.5")
    u, v = [Unsteady(env, shapes, steps, True, run=False, dt=dt, periods=[p * dt for p in periods]) for _ in range(2)]
    names = {}
    for z in (u, v):
        for t in range(steps):
            for k in range(len(shapes)):
                names[id(z.planes[t][k].airplane)] = len(names)
    u.solver.run(prescribed_wake=True, calculate_streamlines=False)
    before = {a: list(getattr(u.problem, a)) for a in KINDS}
    wake = [[r.strength, r.age, legs(r, ("right_leg", "front_leg", "left_leg", "back_leg"))] for pl in u.planes[-1] for w in pl.wings for r in w.wake_ring_vortices.ravel()]
    v.solver.run(prescribed_wake=True, calculate_streamlines=False)
    for a in KINDS:
        env.true(a + " entries", len(getattr(u.problem, a)) == len(before[a]) == len(getattr(v.problem, a)))
        env.eq(a, getattr(u.problem, a), before[a])
    after = [[r.strength, r.age, legs(r, ("right_leg", "front_leg", "left_leg", "back_leg"))] for pl in u.planes[-1] for w in pl.wings for r in w.wake_ring_vortices.ravel()]
    env.true("wake size", len(after) == len(wake))
    for k, (a, b) in enumerate(zip(after, wake)):
        env.eq("wake vortex %d" % k, a, b)


def steady_after_unsteady(env, shapes, steps, which):
    no_load_bookkeeping(env)
    u = Unsteady(env, shapes, steps, True, run=False, only_final_results=True)
    v = Unsteady(env, shapes, steps, True, run=False, only_final_results=True)
    u.solver.run(prescribed_wake=True, calculate_streamlines=False)
    mod, cls = SOLVERS[which]
    for t in range(steps):
        a, b = (getattr(env.module(mod), cls)(z.problem.steady_problems[t]) for z in (u, v))
        a.run()
        b.run()
        compare(env, state(env, u.planes[t], which), state(env, v.planes[t], which))


def unsteady(env, shapes, steps, prescribed, again, fixed=False):
    count = [0]

    def value(p, a):
        return env.array([env.real("%s_%s_%d" % (names[id(p)], a, c), -5, 5) for c in range(3)])

    names = {}
    no_load_bookkeeping(env, value)
    u = Unsteady(env, shapes, steps, prescribed, run=False, fixed=fixed)
    v = Unsteady(env, shapes, steps, prescribed, run=False, fixed=fixed)
    for z in (u, v):
        for t in range(steps):
            for k in range(len(shapes)):
                names[id(z.planes[t][k].airplane)] = "load%d_%d" % (t, k)
    s = u.solver
    if again == "after steady solvers":
        for which in "rh":
            mod, cls = SOLVERS[which]
            for t in range(steps):
                getattr(env.module(mod), cls)(u.problem.steady_problems[t]).run()
    elif again == "other wake":
        s.run(prescribed_wake=not prescribed, calculate_streamlines=False)
    else:
        s.run(prescribed_wake=prescribed, calculate_streamlines=False)
    if again == "new solver":
        s = type(s)(u.problem)
    s.run(prescribed_wake=prescribed, calculate_streamlines=False)
    s2 = v.solver
    s2.run(prescribed_wake=prescribed, calculate_streamlines=False)
    for t in range(steps):
        for k in range(len(shapes)):
            for w, (wa, wb) in enumerate(zip(u.planes[t][k].wings, v.planes[t][k].wings)):
                n = "step %d wing %d.%d " % (t, k, w)
                for i in range(wa.panels.shape[0]):
                    for j in range(wa.panels.shape[1]):
                        a, b = wa.panels[i, j].ring_vortex, wb.panels[i, j].ring_vortex
                        env.eq(n + "vortex %d %d" % (i, j), [a.strength, legs(a, ("right_leg", "front_leg", "left_leg", "back_leg"))],
                               [b.strength, legs(b, ("right_leg", "front_leg", "left_leg", "back_leg"))])
                if t:
                    env.true(n + "wake size", wa.wake_ring_vortices.shape == wb.wake_ring_vortices.shape)
                    for m, (a, b) in enumerate(zip(wa.wake_ring_vortices.ravel(), wb.wake_ring_vortices.ravel())):
                        env.eq(n + "wake vortex %d" % m, [a.strength, a.age, legs(a, ("right_leg", "front_leg", "left_leg", "back_leg"))],
                               [b.strength, b.age, legs(b, ("right_leg", "front_leg", "left_leg", "back_leg"))])
    for kind in ("forces", "force_coefficients", "moments", "moment_coefficients"):
        for m in ("", "mean_", "rms_"):
            a = "final_%snear_field_%s_wind_axes" % (m, kind)
            env.eq(a, getattr(u.problem, a), getattr(v.problem, a))
    env.eq("streamline seeds", s.seed_points, s2.seed_points)
    x = [env.real("x%d" % c, -3, 3) for c in range(3)]
    env.eq("velocity at a point", s.calculate_solution_velocity(points=env.array([x])), s2.calculate_solution_velocity(points=env.array([x])))


SM = ("steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method")
M = ("unsteady_ring_vortex_lattice_method",)
F = "fixed vertices, any wind and references; "
PARTS = [Part("steady " + n, steady, "airplane of wings 2x1 and 1x1; any vertices within 0.4 of a unit grid, wind, references; runs: " + n, modules=SM,
              params=dict(shapes=sh, runs=r))
         for n, r, sh in (("horseshoe twice", "h=", [[(2, 1), (1, 1)]]), ("horseshoe, new solver", "hh", [[(2, 1)]]), ("ring twice", "r=", [[(2, 1), (1, 1)]]),
                          ("ring, new solver", "rr", [[(2, 1)], [(1, 1)]]),
                          ("horseshoe then ring", "hr", [[(2, 1)]]), ("ring then horseshoe", "rh", [[(2, 1)]]), ("three runs", "r==", [[(1, 2)]]),
                          ("alternating", "rhr", [[(2, 1)]]))]
PARTS += [
    Part("altered operating point, horseshoe", altered, "wing 2x1, any vertices within 0.4 of a unit grid, any first and second wind, all or one of its values changed", modules=SM,
         params=dict(shapes=[[(2, 1)]], which="h")),
    Part("altered operating point, ring", altered, "wing 2x1, any vertices within 0.4 of a unit grid, any first and second wind, all or one of its values changed", modules=SM,
         params=dict(shapes=[[(2, 1)]], which="r")),
    Part("another unsteady problem", other_problem, "airplanes of one panel, 2 steps, prescribed wake, then the same solver on another problem", modules=M,
         params=dict(shapes=[[(1, 1)], [(1, 1)]], steps=2)),
    Part("another periodic problem", other_problem, "airplane of one panel, period of 2 of the 3 steps, prescribed wake, then the same solver on another problem", modules=M,
         params=dict(shapes=[[(1, 1)]], steps=3, periods=(2,))),
    Part("unsteady twice", unsteady, "one wing of 1x2 panels, 3 steps, prescribed wake, same solver run twice", modules=M,
         params=dict(shapes=[[(1, 2)]], steps=3, prescribed=True, again="same")),
    Part("unsteady, new solver", unsteady, "two airplanes of one panel, 2 steps, prescribed wake, second solver on the same problem", modules=M,
         params=dict(shapes=[[(1, 1)], [(1, 1)]], steps=2, prescribed=True, again="new solver")),
    Part("unsteady free wake twice", unsteady, "one panel, 3 steps, free wake, same solver run twice", modules=M,
         params=dict(shapes=[[(1, 1)]], steps=3, prescribed=False, again="same")),
    Part("unsteady after other wake", unsteady, "one panel, 3 steps, free wake first then prescribed", modules=M,
         params=dict(shapes=[[(1, 1)]], steps=3, prescribed=True, again="other wake")),
    Part("unsteady after steady solvers", unsteady, "wings 2x1 and 1x1, 2 steps, prescribed wake, after a ring and a horseshoe solution of each step", modules=M + SM,
         params=dict(shapes=[[(2, 1), (1, 1)]], steps=2, prescribed=True, again="after steady solvers")),
    Part("ring after unsteady", steady_after_unsteady, "wing 2x1, 2 steps, prescribed wake, then a ring solution of each step", modules=M + SM,
         params=dict(shapes=[[(2, 1)]], steps=2, which="r")),
    Part("horseshoe after unsteady", steady_after_unsteady, "wing 2x1, 2 steps, prescribed wake, then a horseshoe solution of each step", modules=M + SM,
         params=dict(shapes=[[(2, 1)]], steps=2, which="h")),
    Part("unsteady twice, fixed shape", unsteady, F + "wings 2x2 and 1x1, and a wing 1x2, 4 steps, prescribed wake, same solver run twice", modules=M,
         params=dict(shapes=[[(2, 2), (1, 1)], [(1, 2)]], steps=4, prescribed=True, again="same", fixed=True)),
    Part("unsteady free wake, fixed shape", unsteady, F + "one wing of 1x1 panel, 5 steps, free wake, after a prescribed wake", modules=M,
         params=dict(shapes=[[(1, 1)]], steps=5, prescribed=False, again="other wake", fixed=True)),
]
