"""Unsteady convergence study decision."""
from common import *
from engine.parts import Part
from p28 import flat_mesh, fake_solvers, simple_airfoil

UNSTEADY = {"unsteady": ("unsteady_ring_vortex_lattice_method", "UnsteadyRingVortexLatticeMethodSolver")}
SPAN = 6  # aspect ratio A gives 6 / A spanwise panels per chordwise panel


def problem(env, planes, periodic):
    g, mv = env.ps.geometry, env.ps.movement
    ams = []
    for k in range(planes):
        s = [g.WingCrossSection(airfoil=simple_airfoil(env), y_le=y, chord=1, num_spanwise_panels=1) for y in (0, SPAN)]
        w = g.Wing(wing_cross_sections=s, num_chordwise_panels=1)
        base = g.Airplane(wings=[w], name="plane %d" % k)
        ams.append(mv.AirplaneMovement(base_airplane=base, wing_movements=[mv.WingMovement(base_wing=w, wing_cross_sections_movements=[
            mv.WingCrossSectionMovement(base_wing_cross_section=x) for x in s])]))
    om = mv.OperatingPointMovement(base_operating_point=env.ps.operating_point.OperatingPoint(velocity=1), velocity_period=1 if periodic else 0)
    return env.ps.problems.UnsteadyProblem(movement=mv.Movement(airplane_movements=ams, operating_point_movement=om, num_steps=1, delta_time=1))


def below(env, new, old, crit, at=False):
    if not env.symbolic:
        for a, b in zip(new, old):
            env.tie(abs(100 * abs(a - b) - crit * abs(b)) < 1e-9 * abs(b))
    out = []
    for a, b in zip(new, old):
        m = crit * abs(b)
        out.append(env.land(100 * (a - b) <= m, 100 * (b - a) <= m) if at else env.land(100 * (a - b) < m, 100 * (b - a) < m))
    return env.land(*out)


def harness(env, wakes="pf", lengths=(1, 1), ars=(2, 2), ncs=(1, 1), planes=1, mask=None, periodic=False, corner=False):
    flat_mesh(env)
    q = env.const
    crit = env.real("crit", q("0.1"), 60)
    lists = ([w == "p" for w in wakes], list(range(lengths[0], lengths[1] + 1)), list(range(ars[0], ars[1] - 1, -1)), list(range(ncs[0], ncs[1] + 1)))
    names = ("wake", "length", "aspect ratio", "chordwise")
    keep = [i for i in range(6) if mask is None or mask[i]]
    solved = []

    def value(at, k, i):
        """Coefficient i of airplane k at the configuration of the given indices."""
        sign = -1 if i % 3 == 1 else 1
        if i not in keep:
            return sign * (1 + 5 * sum(at) * sum(at)) * 1
        n = "c%s_%d_%d" % ("".join(map(str, at)), k, i)
        if not corner:
            return sign * env.real(n, q("0.1"), 9)
        # only the finest configuration and its neighbours vary; elsewhere each refinement trebles the coefficients
        s, top = sum(at), sum(len(x) - 1 for x in lists)
        if s < top - 1:
            return sign * 3 ** s
        if s == top - 1:
            return sign * env.real(n, 3 ** s, 3 ** s + 3 ** s // 4)
        return sign * env.real(n, 3 ** (s - 1) - 3 ** (s - 1) // 3, 3 ** s)

    def on_run(name, pb, k):
        w = pb.movement.airplanes[0][0].wings[0]
        nc = w.num_chordwise_panels
        m = pb.movement
        length = m.num_cycles if periodic else m.num_chords
        wake = k["prescribed_wake"]
        config = (wake, length, SPAN * nc // w.num_spanwise_panels, nc)
        solved.append(config)
        at = tuple(l.index(x) for l, x in zip(lists, config))
        for key, kind in (("final_near_field_%s_wind_axes", "now"), ("final_mean_near_field_%s_wind_axes", "mean"), ("final_rms_near_field_%s_wind_axes", "rms")):
            used = kind == ("rms" if periodic else "now")
            for part_, lo in (("force_coefficients", 0), ("moment_coefficients", 3)):
                # the lists not to be used hold values that never settle
                setattr(pb, key % part_, [env.array([value(at, p, lo + c) if used else 7 * 100 ** sum(at) for c in range(3)]) for p in range(planes)])

    fake_solvers(env, UNSTEADY, on_run)
    pb = problem(env, planes, periodic)
    bounds = {"num_cycles_bounds" if periodic else "num_chords_bounds": lengths, "num_chords_bounds" if periodic else "num_cycles_bounds": (8, 9)}
    got = env.module("convergence").analyze_unsteady_convergence(
        ref_problem=pb, prescribed_wake="p" in wakes, free_wake="f" in wakes, panel_aspect_ratio_bounds=ars, num_chordwise_panels_bounds=ncs,
        coefficient_mask=None if mask is None else list(mask), convergence_criteria=crit, **bounds)
    got = list(got)
    order = [(w, l, a, c) for w in lists[0] for l in lists[1] for a in lists[2] for c in lists[3]]
    env.true("search order", solved == order[:len(solved)])

    def ats(config):
        return tuple(l.index(x) for l, x in zip(lists, config))

    def ok(config, tie=False):
        """Per parameter: the change from the coarser neighbour is small enough."""
        at, out = ats(config), []
        for d in range(4):
            if at[d] == 0:
                out.append(False)
                continue
            prev = tuple(x - (j == d) for j, x in enumerate(at))
            out.append(below(env, [value(at, p, i) for p in range(planes) for i in keep], [value(prev, p, i) for p in range(planes) for i in keep], crit, tie))
        return out

    def best(config, d):
        """The finest value of the parameter needs no comparison."""
        return len(lists[d]) == 1 or d == 0 and config[0] is False or d == 2 and config[2] == 1

    def passed(config, tie=False):
        return env.land(*[True if best(config, d) else c for d, c in enumerate(ok(config, tie))])

    none = got == [None] * 4
    for x in (solved if none else solved[:-1]):
        env.true("not converged before", env.lnot(passed(x)))
    if none:
        env.true("whole range searched", solved == order)
        return
    last = solved[-1]
    at = ats(last)
    env.true("converged", passed(last, True))  # either answer at exact ties
    env.true("within the bounds", all(g in l for g, l in zip(got, lists)))
    for d, (c, ct) in enumerate(zip(ok(last), ok(last, True))):
        now, coarser = lists[d][at[d]], lists[d][at[d] - 1] if at[d] else None
        if len(lists[d]) == 1:
            env.true(names[d], got[d] == now)
        elif coarser is None:
            env.true(names[d], got[d] == now)
        else:
            env.true(names[d], env.lor(env.land(got[d] == coarser, ct), env.land(got[d] == now, env.lnot(c))))


M = ("convergence", "geometry", "problems", "movement")
B = "any coefficients of fixed signs, criterion in [0.1, 60]; "


def part(name, tiers=("quick", "thorough"), **kw):
    return Part(name, harness, B + ", ".join("%s=%s" % x for x in sorted(kw.items())), tiers=tiers, modules=M, params=kw, max_paths=4000, merge=True, witnesses=6)


ONE = (True, False, False, False, False, False)
PARTS = [
    part("wake and length", lengths=(1, 2), mask=ONE),
    part("wake and aspect ratio", ars=(3, 2), mask=(False, False, True, False, True, False)),
    part("wake and chordwise panels", ncs=(1, 2), mask=(False, True, False, False, False, True)),
    part("length and aspect ratio down to one", wakes="p", lengths=(1, 2), ars=(2, 1), mask=ONE),
    part("length and chordwise panels, free", wakes="f", lengths=(1, 2), ncs=(1, 2), mask=ONE),
    part("aspect ratio and chordwise panels, periodic", wakes="f", ars=(3, 2), ncs=(1, 2), mask=(False, True, False, True, False, False), periodic=True),
    part("wake and length, periodic", lengths=(1, 2), mask=(True, False, False, False, False, True), periodic=True),
    part("wake and aspect ratio down to one", ars=(2, 1), mask=ONE),
    part("wake and aspect ratio down to one, periodic", ars=(2, 1), mask=(False, False, True, False, False, False), periodic=True),
    part("wake, and aspect ratio one", ars=(1, 1), mask=ONE),
    part("aspect ratio down to one and chordwise panels", wakes="f", ars=(2, 1), ncs=(1, 2), mask=ONE),
    part("three lengths", wakes="p", lengths=(1, 3)),
    part("three aspect ratios", wakes="p", ars=(3, 1)),
    part("three chordwise counts, two airplanes", wakes="f", ncs=(1, 3), planes=2),
    part("one configuration", wakes="f", lengths=(2, 2), mask=ONE),
    part("four parameters", lengths=(1, 2), ars=(3, 2), ncs=(1, 2), mask=(False, False, True, False, False, False), corner=True),
    part("four parameters, periodic", lengths=(1, 2), ars=(3, 2), ncs=(1, 2), mask=(False, False, False, False, False, True), corner=True, periodic=True),
    part("three parameters, free", wakes="f", lengths=(1, 2), ars=(2, 1), ncs=(1, 2), mask=(False, False, False, True, False, False), corner=True),
    part("all coefficients of two airplanes", wakes="p", lengths=(1, 2), ncs=(1, 2), planes=2, tiers=("thorough",)),
    part("wake, length and chordwise panels", lengths=(1, 2), ncs=(1, 2), mask=ONE, tiers=("thorough",)),
]
