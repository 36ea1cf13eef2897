"""Unsteady problems: final and cycle-averaged results."""
from common import *
from engine.parts import Part

KINDS = ("forces", "force_coefficients", "moments", "moment_coefficients")
ATTRS = dict(forces="total_near_field_force_wind_axes", force_coefficients="total_near_field_force_coefficients_wind_axes",
             moments="total_near_field_moment_wind_axes", moment_coefficients="total_near_field_moment_coefficients_wind_axes")


def harness(env, planes, steps, mode, only_final, fixed=False):
    np = env.np
    count = [0]

    def value(p, a):
        count[0] += 1
        return env.array([env.real("load%d_%d" % (count[0], c), -5, 5) for c in range(3)])

    no_load_bookkeeping(env, value)
    kw = {}
    if mode == "static":
        window = 1
    elif mode == "any":
        kw["dt"] = dt = env.real("dt", env.const("0.1"), 1)
        P = env.real("P", env.const("0.01"), 10)
        window = env.int_("window", 1, steps)
        env.assume(P > (window - 1) * dt)  # the smallest number of final steps that covers a period
        if window < steps:
            env.assume(P < window * dt)
        kw["periods"] = [P] + [env.real("Q%d" % k, 0, 10) for k in range(1, planes)]
        for q in kw["periods"][1:]:
            env.assume(q < P)
    elif mode == "airspeed":
        kw["dt"] = dt = env.const("0.25")
        window = env.int_("window", 1, steps)
        kw["om_period"] = window * dt
        kw["periods"] = [env.real("Q%d" % k, 0, window * dt) for k in range(planes)]
    u = Unsteady(env, [[(1, 1)]] * planes, steps, True, only_final_results=only_final, fixed=fixed, velocities=False, **kw)
    pb = u.problem
    env.true("period", (pb.max_period == 0) == (mode == "static"))
    for k in range(planes):
        for kind in KINDS:
            h = [getattr(u.planes[t][k].airplane, ATTRS[kind]) for t in range(steps - window, steps)]
            if mode == "static":
                got = getattr(pb, "final_near_field_%s_wind_axes" % kind)
                env.true("one result per airplane", len(got) == planes)
                env.eq("final %s of airplane %d" % (kind, k), got[k], h[-1])
            else:
                mean, rms = [getattr(pb, "final_%s_near_field_%s_wind_axes" % (x, kind)) for x in ("mean", "rms")]
                env.true("one result per airplane", len(mean) == planes and len(rms) == planes)
                env.eq("mean %s of airplane %d" % (kind, k), mean[k], [sum([v[c] for v in h], 0) / window for c in range(3)])
                env.eq("rms %s of airplane %d" % (kind, k), rms[k], [env.math.sqrt(sum([v[c] * v[c] for v in h], 0) / window) for c in range(3)])


M = ("unsteady_ring_vortex_lattice_method",)
B = "airplanes of one panel; any loads, any period of the moving airplane and any time step"
PARTS = []
for _n, _p, _s, _m, _o in (("static", 2, 2, "static", False), ("static, final results only", 1, 3, "static", True),
                           ("periodic", 1, 4, "any", False), ("periodic, final results only", 1, 4, "any", True),
                           ("two planes", 2, 3, "any", True), ("whole periods of airspeed", 1, 4, "airspeed", True),
                           ("whole periods, all results", 1, 3, "airspeed", False)):
    PARTS.append(Part(_n, harness, "%d airplane(s), %d steps; %s" % (_p, _s, B), modules=M, params=dict(planes=_p, steps=_s, mode=_m, only_final=_o)))
for _n, _p, _s, _m, _o in (("static, three planes", 3, 5, "static", True), ("periodic, eight steps", 1, 8, "any", False), ("periodic, eight steps, final results only", 1, 8, "any", True),
                           ("three planes", 3, 2, "any", False), ("whole periods, two planes", 2, 6, "airspeed", True)):
    PARTS.append(Part(_n, harness, "%d airplane(s), %d steps; fixed vertices; %s" % (_p, _s, B), modules=M, params=dict(planes=_p, steps=_s, mode=_m, only_final=_o, fixed=True)))
for _n, _p, _s, _m, _o in (("static, two problems at once", 1, 2, "static", False), ("periodic, two problems at once", 1, 3, "any", True)):
    PARTS.append(Part(_n, two(harness, "load", "P", "dt", "alpha"), "two unrelated problems of %d airplane(s), %d steps; fixed vertices; %s" % (_p, _s, B), modules=M, params=dict(planes=_p, steps=_s, mode=_m, only_final=_o, fixed=True)))
