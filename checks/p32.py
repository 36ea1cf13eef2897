"""Unsteady trim."""
from common import *
from engine.parts import Part
from p31 import B, M, Optimisers, _sym, decide, limits, nottie, objective

NAMES = ("v", "a", "b")


def movement(env, base, weight, s_ref, rho, periodic, wings=1):
    g, mv = env.ps.geometry, env.ps.movement
    ws = []
    for i in range(wings):
        s = [g.WingCrossSection(airfoil=simple_airfoil(env), y_le=y, chord=1, num_spanwise_panels=1) for y in (0, 1)]
        ws.append(g.Wing(wing_cross_sections=s, num_chordwise_panels=1, x_le=3 * i, symmetric=i == 1))
    plane = g.Airplane(wings=ws, weight=weight, s_ref=s_ref, c_ref=1, b_ref=1)
    am = mv.AirplaneMovement(base_airplane=plane, wing_movements=[mv.WingMovement(base_wing=w, wing_cross_sections_movements=[
        mv.WingCrossSectionMovement(base_wing_cross_section=x) for x in w.wing_cross_sections]) for w in ws],
        **(dict(x_ref_amplitude=1, x_ref_period=env.const("0.25")) if periodic else {}))
    op = env.ps.operating_point.OperatingPoint(density=rho, velocity=base[0], alpha=base[1], beta=base[2])
    return am, op


def ranges(env, periodic):
    return [(env.const("0.5") if not periodic else 1, 90 if not periodic else 2), (-30, 30), (-30, 30)]


def harness(env, local, glob, periodic=False, wings=1):
    q = env.const
    opt = Optimisers(env, {"local": local, "global": glob})
    rs = ranges(env, periodic)
    lims = [limits(env, n, *r) for n, r in zip(NAMES, rs)]
    base = []
    for n, r, (lo, hi) in zip(NAMES, rs, lims):
        x = env.real(n + "0", *r)
        env.assume(x >= lo)
        env.assume(x <= hi)
        base.append(x)
    weight, s_ref, rho = env.real("weight", 0, 900), env.real("s_ref", q("0.1"), 40), env.real("rho", q("0.1"), 3)
    cut = env.real("cut", q("0.001"), 5)
    am, op = movement(env, base, weight, s_ref, rho, periodic, wings)
    conds, objs = [], []

    def run(self, *a, **k):
        pb = self.unsteady_problem
        m = pb.movement
        ops = [p.operating_point for p in pb.steady_problems]
        env.true("the given movement is solved", list(m.airplane_movements) == [am] and len(ops) >= 1)
        env.true("periodic as given", (pb.max_period != 0) == periodic)
        cond = [ops[0].velocity, ops[0].alpha, ops[0].beta]
        for o in ops:
            env.eq("the condition holds at every step", [o.velocity, o.alpha, o.beta, o.density], cond + [rho])
        i = len(conds)
        F, Mo = env.vec("F%d" % i, 3, -5, 5), env.vec("M%d" % i, 3, -5, 5)
        for key, kind in (("final_near_field_%s_wind_axes", "now"), ("final_mean_near_field_%s_wind_axes", "mean"), ("final_rms_near_field_%s_wind_axes", "rms")):
            if kind != "now" and not periodic:
                continue  # the solver leaves these empty
            used = kind == ("mean" if periodic else "now")
            setattr(pb, key % "force_coefficients", [F if used else env.vec("F%s%d" % (kind, i), 3, -5, 5)])
            setattr(pb, key % "moment_coefficients", [Mo if used else env.vec("M%s%d" % (kind, i), 3, -5, 5)])
        conds.append(cond)
        objs.append(objective(env, (cond[0], rho), 0, weight, s_ref, F, Mo))
        nottie(env, objs[-1:], cut)

    env.module("unsteady_ring_vortex_lattice_method").UnsteadyRingVortexLatticeMethodSolver.run = run
    got = env.module("trim").analyze_unsteady_trim(airplane_movement=am, operating_point=op, velocity_bounds=lims[0], alpha_bounds=lims[1],
                                                   beta_bounds=lims[2], objective_cut_off=cut)
    env.true("one evaluation per query", len(conds) == len(opt.queries))
    for (x, y), c, o in zip(opt.queries, conds, objs):
        env.eq("the query is the condition evaluated", c, x)
        if y is not None:
            env.eq("objective", y, o)
    for kind, x0, bounds in opt.calls:
        env.eq("start of search", x0, base)
        env.eq("bounds of search", bounds, [list(l) for l in lims])
    decide(env, got, conds, objs, cut, 3, [op.velocity, op.alpha, op.beta])
    nan = any(not _sym(x) and x != x for x in got)
    env.true("local, then global search", [c[0] for c in opt.calls] in ([["local", "global"]] if nan else [["local"], ["local", "global"]]))


def bounds_harness(env):
    Optimisers(env, {"local": 0, "global": 0})
    rs = ranges(env, False)
    lims = [limits(env, n, *r) for n, r in zip(NAMES, rs)]
    base = [env.real(n + "0", *r) for n, r in zip(NAMES, rs)]
    am, op = movement(env, base, 10, 1, 1, False)
    inside = env.land(*[env.land(lo <= x, x <= hi) for x, (lo, hi) in zip(base, lims)])
    env.accepts("initial values within bounds", lambda: env.module("trim").analyze_unsteady_trim(
        airplane_movement=am, operating_point=op, velocity_bounds=lims[0], alpha_bounds=lims[1], beta_bounds=lims[2]), inside)
    env.eq("operating point untouched", [op.velocity, op.alpha, op.beta], base)


PARTS = [
    Part("static, one and one", harness, B % (1, 1), modules=M, params=dict(local=1, glob=1), merge=True),
    Part("static, two and two", harness, B % (2, 2), modules=M, params=dict(local=2, glob=2), merge=True),
    Part("periodic, one and one", harness, B % (1, 1) + "; period a quarter of a second, speeds 1 to 2 chords per second", modules=M, params=dict(local=1, glob=1, periodic=True), merge=True),
    Part("periodic, one and two", harness, B % (1, 2) + "; period a quarter of a second, speeds 1 to 2 chords per second", modules=M, params=dict(local=1, glob=2, periodic=True), merge=True, tiers=("thorough",)),
    Part("static, three wings", harness, B % (1, 1), modules=M, params=dict(local=1, glob=1, wings=3), merge=True),
    Part("periodic, two wings", harness, B % (1, 1) + "; period a quarter of a second, speeds 1 to 2 chords per second", modules=M, params=dict(local=1, glob=1, periodic=True, wings=2), merge=True),
    Part("static, three and three", harness, B % (3, 3), modules=M, params=dict(local=3, glob=3), merge=True, tiers=("thorough",)),
    Part("initial values", bounds_harness, "any initial condition and bounds", modules=M, merge=True),
]
