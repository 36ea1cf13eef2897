"""Steady convergence study decision."""
from common import *
from engine.parts import Part

SPAN = 12  # aspect ratio A gives 12 / A spanwise panels per chordwise panel


class Flat:
    """A stand-in panel of unit area: the mesh and the solution are other properties'."""
    area = 1

    def calculate_projected_area(self, n_hat):
        return 1


def flat_mesh(env):
    import numpy

    def mesh(wing):
        P = numpy.empty((wing.num_chordwise_panels, wing.num_spanwise_panels), dtype=object)
        for i in range(P.shape[0]):
            for j in range(P.shape[1]):
                P[i, j] = Flat()
        wing.panels = P

    env.patch_everywhere(env.module("meshing").mesh_wing, mesh)


STEADY = {"steady horseshoe vortex lattice method": ("steady_horseshoe_vortex_lattice_method", "SteadyHorseshoeVortexLatticeMethodSolver"),
          "steady ring vortex lattice method": ("steady_ring_vortex_lattice_method", "SteadyRingVortexLatticeMethodSolver")}


def fake_solvers(env, classes, on_run):
    """Solvers of the real names and arguments which keep the problem and call on_run."""
    import inspect

    for name, (mod, cls) in classes.items():
        real = getattr(env.module(mod), cls)
        sig = inspect.signature(real.run)

        def __init__(self, *a, **k):
            (self.problem,) = list(a) + list(k.values())

        def run(self, *a, _name=name, _sig=sig, **k):
            b = _sig.bind(self, *a, **k)
            b.apply_defaults()
            on_run(_name, self.problem, dict(b.arguments))

        env.patch_everywhere(real, type(cls, (), dict(__init__=__init__, run=run)))


def base_plane(env, tag=""):
    g = env.ps.geometry
    s = [g.WingCrossSection(airfoil=simple_airfoil(env), y_le=y, chord=1, num_spanwise_panels=1) for y in (0, SPAN)]
    return g.Airplane(wings=[g.Wing(wing_cross_sections=s, num_chordwise_panels=1)], name="plane" + tag)


def below(env, new, old, crit, at=False):
    """The largest percentage change from old to new is below (or at) crit."""
    if not env.symbolic:  # rounding decides exact ties: out of bounds
        for a, b in zip(new, old):
            env.tie(abs(100 * abs(a - b) - crit * b) < 1e-9 * b)
    if at:
        return env.land(*[env.land(100 * (a - b) <= crit * b, 100 * (b - a) <= crit * b) for a, b in zip(new, old)])
    return env.land(*[env.land(100 * (a - b) < crit * b, 100 * (b - a) < crit * b) for a, b in zip(new, old)])


def harness(env, ars, ncs, planes=1, vectors=False, which=0):
    flat_mesh(env)
    word = sorted(STEADY)[which]
    crit = env.real("crit", env.const("0.1"), 60)
    ar_list = list(range(ars[0], ars[1] - 1, -1))
    nc_list = list(range(ncs[0], ncs[1] + 1))
    solved, used = [], set()
    q = env.const

    def value(ar, nc, k, kind):
        return env.real("%s_%d_%d_%d" % (kind, ar, nc, k), q("0.1"), 9)

    def vector(ar, nc, k, kind):
        if vectors:
            return [env.real("%s%s_%d_%d_%d" % (kind, c, ar, nc, k), q("0.1"), 3) for c in "xyz"]
        v = value(ar, nc, k, kind)
        d = (2, -1, 2) if kind == "f" else (-6, 2, 3)
        return [v * c / (3 if kind == "f" else 7) for c in d]

    def on_run(name, problem, k):
        used.add(name)
        w = problem.airplanes[0].wings[0]
        nc = w.num_chordwise_panels
        ar = SPAN * nc // w.num_spanwise_panels
        solved.append((ar, nc))
        for i, p in enumerate(problem.airplanes):
            p.total_near_field_force_coefficients_wind_axes = env.array(vector(ar, nc, i, "f"))
            p.total_near_field_moment_coefficients_wind_axes = env.array(vector(ar, nc, i, "m"))

    fake_solvers(env, STEADY, on_run)
    pb = env.ps.problems.SteadyProblem(airplanes=[base_plane(env, str(k)) for k in range(planes)], operating_point=env.ps.operating_point.OperatingPoint())
    got = env.module("convergence").analyze_steady_convergence(
        ref_problem=pb, solver_type=word, panel_aspect_ratio_bounds=ars, num_chordwise_panels_bounds=ncs, convergence_criteria=crit)
    env.true("solver", used == {word})
    order = [(ar, nc) for ar in ar_list for nc in nc_list]
    env.true("search order", solved == order[:len(solved)])

    def size(ar, nc):
        out = []
        for k in range(planes):
            for kind in "fm":
                out.append(norm(env, vector(ar, nc, k, kind)) if vectors else value(ar, nc, k, kind))
        return out

    def ok(ar, nc, at=False):
        i, j = ar_list.index(ar), nc_list.index(nc)
        a = below(env, size(ar, nc), size(ar_list[i - 1], nc), crit, at) if i else False
        c = below(env, size(ar, nc), size(ar, nc_list[j - 1]), crit, at) if j else False
        return a, c

    def passed(ar, nc, at=False):
        a, c = ok(ar, nc, at)
        return env.land(True if len(ar_list) == 1 or ar == 1 else a, True if len(nc_list) == 1 else c)

    none = list(got) == [None, None]
    last = solved[-1]
    for x in (solved if none else solved[:-1]):
        env.true("not converged before", env.lnot(passed(*x)))
    if none:
        env.true("whole range searched", solved == order)
        return
    env.true("converged", passed(*last, at=True))  # either answer at exact ties
    a, at = ok(*last)[0], ok(*last, at=True)[0]
    want_nc = last[1] if len(nc_list) == 1 else last[1] - 1
    env.true("chordwise panels", got[1] == want_nc)
    env.true("aspect ratio", env.lor(env.land(got[0] == last[0] + 1, at), env.land(got[0] == last[0], env.lnot(a))) if len(ar_list) > 1 else got[0] == last[0])
    env.true("within the bounds", got[0] in ar_list and got[1] in nc_list)


M = ("convergence", "geometry", "problems")
B = "any positive coefficients and criterion in [0.1, 60]; "


def part(name, tiers=("quick", "thorough"), **kw):
    return Part(name, harness, B + "aspect ratios %s, chordwise panels %s, %d airplanes" % (kw["ars"], kw["ncs"], kw.get("planes", 1)), tiers=tiers, modules=M, params=kw,
                max_paths=4000, merge=True, witnesses=6)


PARTS = [
    part("horseshoe, coarse aspect ratios", ars=(4, 3), ncs=(2, 3), which=0),
    part("ring, down to one", ars=(2, 1), ncs=(2, 3), which=1),
    part("one aspect ratio", ars=(3, 3), ncs=(3, 5), which=0),
    part("aspect ratio one", ars=(1, 1), ncs=(1, 3), which=1),
    part("one chordwise count", ars=(4, 2), ncs=(3, 3), which=1),
    part("one chordwise count, down to one", ars=(3, 1), ncs=(1, 1), which=0),
    part("one mesh", ars=(2, 2), ncs=(2, 2), which=0),
    part("two airplanes", ars=(3, 2), ncs=(2, 3), planes=2, which=0),
    part("three by two", ars=(3, 1), ncs=(2, 3), which=0),
    part("vectors", ars=(3, 3), ncs=(2, 3), vectors=True, which=1),
    part("three by three", ars=(3, 1), ncs=(2, 4), which=1, tiers=("thorough",)),
    part("two airplanes, one by three", ars=(1, 1), ncs=(2, 4), planes=2, which=1, tiers=("thorough",)),
]
