"""Solving, showing, converging and trimming leave the definition alone."""
from common import *
from engine.parts import Part
from p22 import SOLVERS
from p31 import Optimisers
from p34 import Viewer, put_scalars

RESULTS = ("near_field", "total_", "streamline", "wake_ring", "_coefficient")  # filled in by an analysis


def plain(v):
    return isinstance(v, (bool, int, float, str)) or type(v).__name__ in ("Sym", "Fraction", "float64", "int64", "bool_")


def snap(x, results=False):
    """{path: values} of everything defined on x and the package's objects it holds."""
    out, seen = {}, {}

    def values(v):
        """v as nested lists of plain values, or None."""
        if plain(v):
            return v
        if hasattr(v, "shape") and hasattr(v, "tolist"):
            v = v.tolist()
        if isinstance(v, (list, tuple)):
            r = [values(y) for y in v]
            return None if any(y is None for y in r) else r
        return None

    def walk(v, path):
        if plain(v):
            out[path] = v
        elif isinstance(v, (list, tuple)) or hasattr(v, "shape"):
            if hasattr(v, "tolist"):
                v = v.tolist()
            if not isinstance(v, (list, tuple)):
                return walk(v, path) if plain(v) else None
            r = values(v)
            if r is not None:
                if len(r):
                    out[path] = r
            else:
                out[path + " length"] = len(v)
                for i, y in enumerate(v):
                    walk(y, "%s[%d]" % (path, i))
        elif type(v).__module__.startswith("pterasoftware") and not isinstance(v, type):
            if id(v) in seen:
                out[path] = "the object at " + seen[id(v)][0]
                return
            seen[id(v)] = (path, v)
            for n in sorted(vars(v)):
                if not n.startswith("_") and (results or not any(r in n for r in RESULTS)):
                    walk(vars(v)[n], path + "." + n)

    walk(x, "")
    return out


def unchanged(env, what, before, after):
    env.true(what + ": nothing lost", all(k in after for k in before))
    group = {}
    for k, v in before.items():
        if k not in after:
            continue
        if isinstance(v, str) or isinstance(after[k], str):
            env.true(what + k, v == after[k]) if v != after[k] else None
        else:
            group.setdefault(k.rsplit(".", 1)[0], []).append(k)
    for g, ks in sorted(group.items()):
        env.eq(what + g, [before[k] for k in ks], [after[k] for k in ks])


def steady(env, shapes, which):
    Kernel(env)
    no_streamlines(env)
    planes = [Plane(env, k, s) for k, s in enumerate(shapes)]
    pb = env.ps.problems.SteadyProblem(airplanes=[p.airplane for p in planes], operating_point=operating_point(env))
    was = snap(pb)
    mod, cls = SOLVERS[which]
    s = getattr(env.module(mod), cls)(pb)
    s.run()
    unchanged(env, "problem", was, snap(pb))


def unsteady(env, shapes, steps, prescribed=True, **kw):
    no_load_bookkeeping(env)
    u = Unsteady(env, shapes, steps, prescribed, run=False, **kw)
    was = snap(u.problem)
    u.solver.run(prescribed_wake=prescribed, calculate_streamlines=False)
    unchanged(env, "problem", was, snap(u.problem))


def shown_steady(env, which, shapes):
    Viewer(env)
    planes = [Plane(env, k, s).airplane for k, s in enumerate(shapes)]
    pb = env.ps.problems.SteadyProblem(airplanes=planes, operating_point=operating_point(env))
    mod, cls = SOLVERS[which]
    s = getattr(env.module(mod), cls)(pb)
    put_scalars(env, planes)
    s.streamline_points = env.array([[env.pt("s%d_%d" % (i, j)) for j in range(2)] for i in range(2)])
    for k, p in enumerate(planes):
        for a in ("force", "force_coefficients", "moment", "moment_coefficients"):
            setattr(p, "total_near_field_%s_wind_axes" % a, env.vec("%s%d" % (a, k), 3, -9, 9))
    was = snap(s, True)
    out = env.module("output")
    out.draw(s, scalar_type="lift", show_streamlines=True)
    unchanged(env, "drawn: ", was, snap(s, True))
    out.print_steady_results(s)
    unchanged(env, "printed: ", was, snap(s, True))


def shown_unsteady(env, shapes, steps):
    Viewer(env)
    count = [0]

    def value(p, a):
        count[0] += 1
        return env.vec("load%d" % count[0], 3, -5, 5)

    no_load_bookkeeping(env, value)
    u = Unsteady(env, shapes, steps, dt=env.const("0.5"))
    for t in range(steps):
        put_scalars(env, [p.airplane for p in u.planes[t]], "t%d_" % t)
    out = env.module("output")
    was = snap(u.solver, True)
    out.draw(u.solver, scalar_type="side force", show_wake_vortices=True)
    unchanged(env, "drawn: ", was, snap(u.solver, True))
    out.animate(u.solver, show_wake_vortices=True, save=False)
    unchanged(env, "animated: ", was, snap(u.solver, True))
    out.plot_results_versus_time(u.solver, show=False)
    unchanged(env, "plotted: ", was, snap(u.solver, True))
    out.print_unsteady_results(u.solver)
    unchanged(env, "printed: ", was, snap(u.solver, True))


def wing(env, k, w):
    g = env.ps.geometry
    af = simple_airfoil(env)
    t = "%d.%d" % (k, w)
    r = g.WingCrossSection(airfoil=af, chord=1, num_spanwise_panels=2, twist=env.real("tw" + t, -9, 9), spanwise_spacing="uniform")
    x = g.WingCrossSection(airfoil=af, y_le=2, x_le=env.real("x" + t, 0, 1), chord=1, num_spanwise_panels=1, spanwise_spacing="uniform",
                           control_surface_deflection=env.real("d" + t, -9, 9))
    return g.Wing(wing_cross_sections=[r, x], name="wing " + t, num_chordwise_panels=1, chordwise_spacing="uniform", x_le=env.real("wx" + t, -1, 1), symmetric=w == 1)


def steady_study(env, which):
    """Convergence studies' meshing and solving are P30's; here the given problem is what counts."""
    from p28 import STEADY, fake_solvers, flat_mesh

    flat_mesh(env)
    word = sorted(STEADY)[which]
    planes = [env.ps.geometry.Airplane(wings=[wing(env, k, w) for w in range(2 - k)], name="plane %d" % k, weight=env.real("W%d" % k, 0, 9), x_ref=env.real("xr%d" % k, -1, 1))
              for k in range(2)]
    pb = env.ps.problems.SteadyProblem(airplanes=planes, operating_point=operating_point(env))
    n = [0]

    def on_run(name, pb, k):
        n[0] += 1
        for p in pb.airplanes:
            p.total_near_field_force_coefficients_wind_axes = env.array([100 ** n[0], 0, 0])
            p.total_near_field_moment_coefficients_wind_axes = env.array([100 ** n[0], 0, 0])

    fake_solvers(env, STEADY, on_run)
    was = snap(pb)
    env.module("convergence").analyze_steady_convergence(ref_problem=pb, solver_type=word, panel_aspect_ratio_bounds=(2, 1), num_chordwise_panels_bounds=(1, 2), convergence_criteria=1)
    env.true("solves", n[0] == 4)
    unchanged(env, "given problem", was, snap(pb))


def unsteady_study(env, motion):
    from p28 import fake_solvers, flat_mesh
    from p29 import UNSTEADY

    flat_mesh(env)
    env.module("geometry").Wing.mean_aerodynamic_chord = property(lambda self: env.const(1))
    mv = env.ps.movement
    w = wing(env, 0, 0)
    base = env.ps.geometry.Airplane(wings=[w], name="plane", weight=env.real("W", 0, 9))
    kw = dict(sweeping_amplitude=env.real("A", 1, 9), sweeping_period=env.const("0.5")) if motion else {}
    ms = [mv.WingCrossSectionMovement(base_wing_cross_section=s, **(kw if i else {})) for i, s in enumerate(w.wing_cross_sections)]
    am = mv.AirplaneMovement(base_airplane=base, wing_movements=[mv.WingMovement(base_wing=w, wing_cross_sections_movements=ms)])
    op = env.ps.operating_point.OperatingPoint(density=env.real("rho", 1, 2), velocity=env.const(1), alpha=env.real("alpha", -9, 9))
    m = mv.Movement(airplane_movements=[am], operating_point_movement=mv.OperatingPointMovement(base_operating_point=op), num_steps=2, delta_time=1)
    pb = env.ps.problems.UnsteadyProblem(movement=m)
    n = [0]

    def on_run(name, pb, k):
        n[0] += 1
        v = env.array([100 ** n[0]] * 3)
        for kind in ("", "mean_", "rms_"):
            for c in ("force", "moment"):
                setattr(pb, "final_%snear_field_%s_coefficients_wind_axes" % (kind, c), [v])

    fake_solvers(env, UNSTEADY, on_run)
    was = snap(pb)
    env.module("convergence").analyze_unsteady_convergence(
        ref_problem=pb, prescribed_wake=True, free_wake=True, num_cycles_bounds=(1, 1), num_chords_bounds=(1, 1), panel_aspect_ratio_bounds=(2, 1),
        num_chordwise_panels_bounds=(1, 1), convergence_criteria=1)
    env.true("solves", n[0] >= 2)
    unchanged(env, "given problem", was, snap(pb))


def trim(env, unsteady):
    from p31 import limits
    from p32 import movement

    q = env.const
    Optimisers(env, {"local": 1, "global": 1})
    names, rs = ("v", "a", "b", "t"), [(1, 2), (-30, 30), (-30, 30), (-50, 50)]
    lims, base = [], []
    for nm, r in zip(names, rs):
        lo, hi = limits(env, nm, *r)
        x = env.real(nm + "0", *r)
        env.assume(x >= lo)
        env.assume(x <= hi)
        lims.append((lo, hi))
        base.append(x)
    rho, weight, s_ref = env.real("rho", q("0.1"), 3), env.real("weight", 0, 900), env.real("s_ref", q("0.1"), 40)
    n = [0]
    am, op = movement(env, base, weight, s_ref, rho, False)
    vary = ("velocity", "alpha", "beta", "external_thrust")

    def load():
        n[0] += 1
        return env.vec("F%d" % n[0], 3, -5, 5), env.vec("M%d" % n[0], 3, -5, 5)

    fixed = lambda x: {k: v for k, v in snap(x).items() if k.rsplit(".", 1)[-1] not in vary}
    if unsteady:
        def run(self, *a, **k):
            F, M = load()
            self.unsteady_problem.final_near_field_force_coefficients_wind_axes = [F]
            self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = [M]

        env.module("unsteady_ring_vortex_lattice_method").UnsteadyRingVortexLatticeMethodSolver.run = run
        was = [snap(am), fixed(op)]
        env.module("trim").analyze_unsteady_trim(airplane_movement=am, operating_point=op, velocity_bounds=lims[0], alpha_bounds=lims[1], beta_bounds=lims[2], objective_cut_off=q("0.01"))
        unchanged(env, "given movement", was[0], snap(am))
        unchanged(env, "given operating point", was[1], fixed(op))
    else:
        pb = env.ps.problems.SteadyProblem(airplanes=[am.base_airplane], operating_point=op)

        def run(self, *a, **k):
            F, M = load()
            am.base_airplane.total_near_field_force_coefficients_wind_axes = F
            am.base_airplane.total_near_field_moment_coefficients_wind_axes = M

        env.module("steady_horseshoe_vortex_lattice_method").SteadyHorseshoeVortexLatticeMethodSolver.run = run
        op.external_thrust = base[3]
        was = fixed(pb)
        env.module("trim").analyze_steady_trim(problem=pb, velocity_bounds=lims[0], alpha_bounds=lims[1], beta_bounds=lims[2], external_thrust_bounds=lims[3], objective_cut_off=q("0.01"))
        unchanged(env, "given problem", was, fixed(pb))


B = "any vertices within 0.4 of a unit grid, wind, references; "
SM = ("steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method")
UM = ("unsteady_ring_vortex_lattice_method",)
OM = ("output",) + SM + UM
CM = ("convergence", "geometry", "problems", "movement")
PARTS = [
    Part("horseshoe", steady, B + "airplanes of wings 2x1, 1x2 and of 1x1", modules=SM, params=dict(shapes=[[(2, 1), (1, 2)], [(1, 1)]], which="h")),
    Part("ring", steady, B + "airplanes of wings 2x1, 1x2 and of 1x1", modules=SM, params=dict(shapes=[[(2, 1), (1, 2)], [(1, 1)]], which="r")),
    Part("unsteady", unsteady, B + "airplanes of wings 1x2 and 1x1, 3 steps, prescribed wake", modules=UM, params=dict(shapes=[[(1, 2)], [(1, 1)]], steps=3)),
    Part("unsteady, free wake", unsteady, B + "one panel, 3 steps, free wake", modules=UM, params=dict(shapes=[[(1, 1)]], steps=3, prescribed=False)),
    Part("shown: horseshoe", shown_steady, B + "airplanes of wings 1x1, 1x2; any results", modules=OM, params=dict(which="h", shapes=[[(1, 1), (1, 2)]]), max_paths=2000),
    Part("shown: ring", shown_steady, B + "two airplanes of one panel; any results", modules=OM, params=dict(which="r", shapes=[[(1, 1)], [(1, 1)]]), max_paths=2000),
    Part("shown: unsteady", shown_unsteady, B + "one panel, 2 steps; any results", modules=OM, params=dict(shapes=[[(1, 1)]], steps=2), max_paths=2000),
    Part("steady convergence, horseshoe", steady_study, "any attributes, meshes (2, 1) x (1, 2)", modules=CM, params=dict(which=0)),
    Part("steady convergence, ring", steady_study, "any attributes, meshes (2, 1) x (1, 2)", modules=CM, params=dict(which=1)),
    Part("unsteady convergence, static", unsteady_study, "any attributes, aspect ratios 2 and 1, both wakes", modules=CM, params=dict(motion=False)),
    Part("unsteady convergence, moving", unsteady_study, "any attributes, aspect ratios 2 and 1, both wakes", modules=CM, params=dict(motion=True)),
    Part("steady trim", trim, "any condition, bounds, results; up to one query of each search", modules=("trim", "geometry", "problems"), params=dict(unsteady=False), merge=True),
    Part("unsteady trim", trim, "any condition, bounds, results; up to one query of each search", modules=("trim", "geometry", "problems"), params=dict(unsteady=True), merge=True),
]
