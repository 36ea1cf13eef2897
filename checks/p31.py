"""Steady trim."""
from common import *
from engine.parts import Part


class Optimisers:
    """Stand-ins for scipy's searches: each queries its function at any points within the bounds it is given."""

    def __init__(self, env, counts):
        self.env, self.counts, self.queries, self.calls = env, counts, [], []

        def search(kind):
            def run(*a, **k):
                fun = k.pop("fun" if kind == "local" else "func", None)
                a = list(a)
                fun = a.pop(0) if fun is None else fun
                x0 = k.get("x0", a[0] if kind == "local" and a else None)
                bounds = k.get("bounds", a[0] if kind == "global" and a else None)
                return self.search(kind, fun, x0, bounds)
            return run

        if env.symbolic:
            import types

            m = types.ModuleType("scipy.optimize")
            env.extra_modules = {"scipy.optimize": m}
        else:
            import scipy.optimize as m

            # the package is imported anew, so that it finds the stand-ins however it imports them
            env.extra_modules = {"verif_optimisers": m}
            old = m.minimize, m.dual_annealing
            env._restore.append(("attr", m, "minimize", old[0]))
            env._restore.append(("attr", m, "dual_annealing", old[1]))
        m.minimize, m.dual_annealing = search("local"), search("global")

    def search(self, kind, fun, x0, bounds):
        env = self.env
        bounds = [(b[0], b[1]) for b in bounds]
        self.calls.append((kind, list(x0), bounds))
        for i in range(env.int_("n_" + kind, 0, self.counts[kind])):
            x = []
            for j, (lo, hi) in enumerate(bounds):
                v = env.real("x_%s%d_%d" % (kind, i, j), -200, 200)
                env.assume(v >= lo)
                env.assume(v <= hi)
                x.append(v)
            self.queries.append([x, None])
            self.queries[-1][1] = fun(env.array(x))
        return None


def limits(env, name, lo, hi):
    a, b = env.real(name + "_lo", lo, hi), env.real(name + "_hi", lo, hi)
    env.assume(a <= b)
    return a, b


def objective(env, cond, thrust, weight, s_ref, F, M):
    v, rho = cond
    q = rho * v * v / 2 * s_ref
    net = [F[0] - thrust / q, F[1], F[2] - weight / q]
    return (norm(env, net) + norm(env, M)) / 2


def decide(env, got, conds, objs, cut, width, left):
    """The outcome against the evaluated conditions."""
    got = list(got)
    env.true("one value per variable", len(got) == width)
    nans = [not _sym(g) and g != g for g in got]
    if any(nans):
        env.true("nothing found: all values undefined", all(nans))
        for o in objs:
            env.true("nothing found: no evaluated condition is a trim condition", env.lnot(o < cut))
        return
    hit = []
    for c, o in zip(conds, objs):
        hit.append(env.land(*([o <= cut] + [a == b for a, b in zip(got, c)])))
    env.true("the returned condition was evaluated and is a trim condition", env.lor(*hit) if hit else False)
    env.eq("left at the returned condition", left, got)


def _sym(x):
    return type(x).__name__ == "Sym"


def nottie(env, objs, cut):
    if not env.symbolic:
        for o in objs:
            env.tie(abs(o - cut) < 1e-9)


def harness(env, local, glob):
    q = env.const
    opt = Optimisers(env, {"local": local, "global": glob})
    names = ("v", "a", "b", "t")
    ranges = [(q("0.5"), 90), (-30, 30), (-30, 30), (-50, 50)]
    lims = [limits(env, n, *r) for n, r in zip(names, ranges)]
    base = []
    for n, r, (lo, hi) in zip(names, ranges, lims):
        x = env.real(n + "0", *r)
        env.assume(x >= lo)
        env.assume(x <= hi)
        base.append(x)
    weight, s_ref, rho = env.real("weight", 0, 900), env.real("s_ref", q("0.1"), 40), env.real("rho", q("0.1"), 3)
    cut = env.real("cut", q("0.001"), 5)
    g = env.ps.geometry
    s = [g.WingCrossSection(airfoil=simple_airfoil(env), y_le=y, chord=1, num_spanwise_panels=1) for y in (0, 1)]
    plane = g.Airplane(wings=[g.Wing(wing_cross_sections=s, num_chordwise_panels=1)], weight=weight, s_ref=s_ref, c_ref=1, b_ref=1)
    op = env.ps.operating_point.OperatingPoint(density=rho, velocity=base[0], alpha=base[1], beta=base[2], external_thrust=base[3])
    pb = env.ps.problems.SteadyProblem(airplanes=[plane], operating_point=op)
    conds, objs = [], []

    def run(self, *a, **k):
        p = getattr(self, "steady_problem", pb)
        o = self.operating_point
        env.true("the given problem is solved", self.airplanes[0] is plane and p is pb)
        cond = [o.velocity, o.alpha, o.beta, o.external_thrust]
        i = len(conds)
        F, M = env.vec("F%d" % i, 3, -5, 5), env.vec("M%d" % i, 3, -5, 5)
        plane.total_near_field_force_coefficients_wind_axes = F
        plane.total_near_field_moment_coefficients_wind_axes = M
        conds.append(cond)
        env.eq("density", o.density, rho)
        objs.append(objective(env, (o.velocity, rho), o.external_thrust, weight, s_ref, F, M))
        nottie(env, objs[-1:], cut)

    env.module("steady_horseshoe_vortex_lattice_method").SteadyHorseshoeVortexLatticeMethodSolver.run = run
    got = env.module("trim").analyze_steady_trim(problem=pb, velocity_bounds=lims[0], alpha_bounds=lims[1], beta_bounds=lims[2],
                                                 external_thrust_bounds=lims[3], objective_cut_off=cut)
    env.true("one evaluation per query", len(conds) == len(opt.queries))
    for (x, y), c, o in zip(opt.queries, conds, objs):
        env.eq("the query is the condition evaluated", c, x)
        if y is not None:
            env.eq("objective", y, o)
    for kind, x0, bounds in opt.calls:
        env.eq("start of search", x0, base)
        env.eq("bounds of search", bounds, [list(l) for l in lims])
    decide(env, got, conds, objs, cut, 4, [op.velocity, op.alpha, op.beta, op.external_thrust])
    nan = any(not _sym(x) and x != x for x in got)
    env.true("local, then global search", [c[0] for c in opt.calls] in ([["local", "global"]] if nan else [["local"], ["local", "global"]]))


def bounds_harness(env, planes):
    opt = Optimisers(env, {"local": 0, "global": 0})
    names = ("v", "a", "b", "t")
    ranges = [(1, 90), (-30, 30), (-30, 30), (-50, 50)]
    lims = [limits(env, n, *r) for n, r in zip(names, ranges)]
    base = [env.real(n + "0", *r) for n, r in zip(names, ranges)]
    g = env.ps.geometry

    def plane():
        s = [g.WingCrossSection(airfoil=simple_airfoil(env), y_le=y, chord=1, num_spanwise_panels=1) for y in (0, 1)]
        return g.Airplane(wings=[g.Wing(wing_cross_sections=s, num_chordwise_panels=1)])

    op = env.ps.operating_point.OperatingPoint(velocity=base[0], alpha=base[1], beta=base[2], external_thrust=base[3])
    pb = env.ps.problems.SteadyProblem(airplanes=[plane() for _ in range(planes)], operating_point=op)
    inside = env.land(*[env.land(lo <= x, x <= hi) for x, (lo, hi) in zip(base, lims)])
    env.accepts("initial values within bounds, one airplane", lambda: env.module("trim").analyze_steady_trim(
        problem=pb, velocity_bounds=lims[0], alpha_bounds=lims[1], beta_bounds=lims[2], external_thrust_bounds=lims[3]), inside if planes == 1 else False)
    env.eq("operating point untouched", [op.velocity, op.alpha, op.beta, op.external_thrust], base)


M = ("trim", "geometry", "problems")
B = "any bounds, initial condition, weight, reference area, density, tolerance and coefficients; up to %d queries of the local and %d of the global search, anywhere within the bounds"
PARTS = [
    Part("one and one", harness, B % (1, 1), modules=M, params=dict(local=1, glob=1), merge=True),
    Part("two and none", harness, B % (2, 0), modules=M, params=dict(local=2, glob=0), merge=True),
    Part("none and two", harness, B % (0, 2), modules=M, params=dict(local=0, glob=2), merge=True),
    Part("two and two", harness, B % (2, 2), modules=M, params=dict(local=2, glob=2), merge=True),
    Part("four and four", harness, B % (4, 4), modules=M, params=dict(local=4, glob=4), merge=True, tiers=("thorough",)),
    Part("initial values", bounds_harness, "any initial condition and bounds", modules=M, params=dict(planes=1), merge=True),
    Part("two airplanes", bounds_harness, "any initial condition and bounds", modules=M, params=dict(planes=2), merge=True),
]
