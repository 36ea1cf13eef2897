"""Convergence studies solve the given problem at each mesh."""
from common import *
from engine.parts import Part
from p26 import PLANE, POINT, SECTION, WING, same
from p28 import STEADY, fake_solvers, flat_mesh
from p29 import UNSTEADY

REFS = ("s_ref", "c_ref", "b_ref")
SKIP_SECTION = ("num_spanwise_panels", "unit_chordwise_vector", "unit_up_vector", "trailing_edge")
SKIP_WING = ("num_chordwise_panels", "num_spanwise_panels", "num_panels")
SECTION_MOTION = [k + s for k in ("sweeping", "pitching", "heaving") for s in ("_amplitude", "_period", "_spacing")] + ["custom_sweep_function", "custom_pitch_function", "custom_heave_function"]
WING_MOTION = [c + "_le" + s for c in "xyz" for s in ("_amplitude", "_period", "_spacing")]
PLANE_MOTION = [c + "_ref" + s for c in "xyz" for s in ("_amplitude", "_period", "_spacing")]


class Foil:
    """Stands in for an airfoil: its definition only."""

    def __init__(self, name="Untitled Airfoil", coordinates=None, repanel=True, n_points_per_side=400):
        self.name, self.coordinates, self.repanel, self.n_points_per_side = name, coordinates, repanel, n_points_per_side


def foil(env, tag):
    return env.ps.geometry.Airfoil(name="foil " + tag, coordinates=env.array([[env.real("%sx%d" % (tag, i), 0, 1), env.real("%sz%d" % (tag, i), -1, 1)] for i in range(2)]),
                                   repanel=env.flag(tag + "repanel") if tag == "0.0.0" else tag[-1] == "1", n_points_per_side=7 if tag[-1] == "0" else 9)


def make(env, a, w, m, wide, symmetric):
    """Wing w of airplane a, of m sections."""
    g, np, q = env.ps.geometry, env.np, env.const
    ss = []
    y = 0
    # every other wing is tilted; the package compares directions exactly, so that its sections have no dihedral
    th = env.real("%d.%dtheta" % (a, w), -1, 1) if (a + w) % 2 else 0
    for i in range(m):
        t = "%d.%d.%d" % (a, w, i)
        r = lambda n, lo, hi: env.real(t + n, lo, hi)
        if i:
            y = y + (r("dy", q("0.5"), 4) if wide else r("dy", 1, q("1.1")))
        # the root plane is the wing's symmetry plane
        phi = 0 if i == 0 or (a + w) % 2 else r("phi", -1, 1)
        n = [0, np.cos(phi), np.sin(phi)] if i and not (a + w) % 2 else [0, 1, 0]
        ss.append(g.WingCrossSection(
            airfoil=foil(env, t), x_le=r("x", -2, 2) if i else 0, y_le=y, z_le=r("z", -2, 2) if i else 0,
            chord=r("c", 1, 3) if wide else r("c", 1, q("1.1")), unit_normal_vector=env.array(n), twist=r("twist", -30, 30),
            control_surface_type=("symmetric", "asymmetric")[(a + w + i) % 2], control_surface_hinge_point=r("hinge", q("0.2"), q("0.8")),
            control_surface_deflection=r("defl", -30, 30), num_spanwise_panels=2 + i, spanwise_spacing=("cosine", "uniform")[(a + i) % 2]))
    o = [env.real("%d.%d%s" % (a, w, c), -4, 4) for c in "xyz"]
    return g.Wing(wing_cross_sections=ss, name="wing %d.%d" % (a, w), x_le=o[0], y_le=o[1], z_le=o[2], symmetric=symmetric, unit_normal_vector=env.array([0, 1, 0]),
                  unit_chordwise_vector=env.array([np.cos(th), 0, np.sin(th)]), num_chordwise_panels=1, chordwise_spacing=("uniform", "cosine")[(a + w) % 2])


def airplane(env, a, shape, wide, symmetric, given):
    ws = [make(env, a, w, m, wide, symmetric if symmetric in (True, False) else w % 2 == 0) for w, m in enumerate(shape)]
    r = [env.real("%dref%s" % (a, c), -4, 4) for c in "xyz"]
    kw = {k: env.real("%d%s" % (a, k), 1, 9) for k in REFS} if given else {}
    return env.ps.geometry.Airplane(wings=ws, name="airplane %d" % a, x_ref=r[0], y_ref=r[1], z_ref=r[2], weight=env.real("%dW" % a, 0, 9), **kw)


def point(env):
    return env.ps.operating_point.OperatingPoint(density=env.real("rho", 1, 2), velocity=env.real("V", 1, 2), alpha=env.real("alpha", -20, 20), beta=env.real("beta", -20, 20),
                                                 external_thrust=env.real("T", -9, 9), nu=env.real("nu", 0, 1))


def check_plane(env, at, p, base, ar, nc, moved=False):
    for n in PLANE:
        if n not in REFS and n != "num_panels":
            same(env, at + n, getattr(p, n), getattr(base, n))
    env.true(at + "wings", len(p.wings) == len(base.wings))
    main = p.wings[0]
    if not moved:
        env.eq(at + "references of this mesh", [p.s_ref, p.c_ref, p.b_ref], [main.projected_area, main.mean_aerodynamic_chord, main.span])
    for w, (x, y) in enumerate(zip(p.wings, base.wings)):
        aw = at + "wing %d: " % w
        for n in WING:
            if n not in SKIP_WING:
                same(env, aw + n, getattr(x, n), getattr(y, n))
        env.true(aw + "chordwise panels", x.num_chordwise_panels == nc)
        env.true(aw + "sections", len(x.wing_cross_sections) == len(y.wing_cross_sections))
        m = len(y.wing_cross_sections)
        for i, (s, t) in enumerate(zip(x.wing_cross_sections, y.wing_cross_sections)):
            a_s = aw + "section %d: " % i
            for n in SECTION:
                if n not in SKIP_SECTION:
                    same(env, a_s + n, getattr(s, n), getattr(t, n))
            f, h = s.airfoil, t.airfoil
            env.true(a_s + "airfoil", (f.name, f.repanel, f.n_points_per_side) == (h.name, h.repanel, h.n_points_per_side))
            env.eq(a_s + "airfoil coordinates", f.coordinates, h.coordinates)
            if i < m - 1:
                u = y.wing_cross_sections[i + 1]
                want = (u.y_le - t.y_le) * nc / ((t.chord + u.chord) / 2 * ar)
                k = s.num_spanwise_panels
                if not env.symbolic:
                    env.tie(abs(want - math.floor(want) - 0.5) < 1e-9)
                near = env.land(k - want <= env.const("0.5"), want - k <= env.const("0.5"))
                env.true(a_s + "spanwise panels", env.land(k >= 1, env.lor(near, env.land(k == 1, want <= env.const("0.5")))))


def untouched(env, bases, recs):
    for k, (b, r) in enumerate(zip(bases, recs)):
        for n, v in r.items():
            same(env, "given airplane %d %s" % (k, n), getattr(b, n), v)


def counts(bases):
    return [[(w.num_chordwise_panels, w.num_spanwise_panels, [s.num_spanwise_panels for s in w.wing_cross_sections]) for w in b.wings] for b in bases]


def steady(env, shapes, ars, ncs, wide=False, symmetric=False, given=True, which=0):
    flat_mesh(env)
    env.patch_everywhere(env.module("geometry").Airfoil, Foil)
    word = sorted(STEADY)[which]
    bases = [airplane(env, a, s, wide, symmetric, given) for a, s in enumerate(shapes)]
    op = point(env)
    recs, cnt = [{n: getattr(b, n) for n in PLANE if n != "xyz_ref"} for b in bases], counts(bases)
    rop = {n: getattr(op, n) for n in POINT}
    order = [(ar, nc) for ar in range(ars[0], ars[1] - 1, -1) for nc in range(ncs[0], ncs[1] + 1)]
    seen = []

    def on_run(name, pb, k):
        ar, nc = order[len(seen)]
        at = "mesh %d %d: " % (ar, nc)
        env.true(at + "airplanes", len(pb.airplanes) == len(bases))
        for n in POINT:
            same(env, at + n, getattr(pb.operating_point, n), rop[n])
        for i, (p, b) in enumerate(zip(pb.airplanes, bases)):
            check_plane(env, at + "airplane %d: " % i, p, b, ar, nc)
        env.true(at + "new airplanes", not any(p is b for p in pb.airplanes for b in bases))
        seen.append(name)
        for p in pb.airplanes:
            p.total_near_field_force_coefficients_wind_axes = env.array([100 ** len(seen), 0, 0])
            p.total_near_field_moment_coefficients_wind_axes = env.array([100 ** len(seen), 0, 0])

    fake_solvers(env, STEADY, on_run)
    pb = env.ps.problems.SteadyProblem(airplanes=bases, operating_point=op)
    env.module("convergence").analyze_steady_convergence(ref_problem=pb, solver_type=word, panel_aspect_ratio_bounds=ars, num_chordwise_panels_bounds=ncs, convergence_criteria=1)
    env.true("solves", seen == [word] * len(order))
    untouched(env, bases, recs)
    env.true("given meshes", counts(bases) == cnt)


def unsteady(env, shapes, ars, ncs, lengths, motion, wakes="p", wide=False, symmetric=False):
    flat_mesh(env)
    env.patch_everywhere(env.module("geometry").Airfoil, Foil)
    # one reference chord for every mesh keeps the numbers of steps small and known
    env.module("geometry").Wing.mean_aerodynamic_chord = property(lambda self: env.const(1))
    mv, q = env.ps.movement, env.const
    bases = [airplane(env, a, s, wide, symmetric, True) for a, s in enumerate(shapes)]
    ams, periods = [], []
    num = [0]

    def osc(prefix, custom=None, still=False):
        """Its own amplitude, period and spacing for every motion."""
        num[0] += 1
        k = num[0]
        if still or not motion:
            return {prefix + "_amplitude": 0, prefix + "_period": 0}
        sp = ("sine", "uniform", "custom")[k % (3 if custom else 2)]
        d = {prefix + "_amplitude": env.real("A%d" % k, 1, 5), prefix + "_period": q("0.01") * k, prefix + "_spacing": sp}
        periods.append(d[prefix + "_period"])
        if sp == "custom":
            d["custom_%s_function" % custom] = [lambda x, k=k: k * x][0]
        return d

    for a, b in enumerate(bases):
        wms = []
        for w, wing in enumerate(b.wings):
            ms = []
            for i, s in enumerate(wing.wing_cross_sections):
                kw = {}
                for name, c in (("sweeping", "sweep"), ("pitching", "pitch"), ("heaving", "heave")):
                    kw.update(osc(name, c, still=i == 0 and name != "pitching"))
                ms.append(mv.WingCrossSectionMovement(base_wing_cross_section=s, **kw))
            kw = {}
            for c in "xyz":
                kw.update(osc(c + "_le"))
            wms.append(mv.WingMovement(base_wing=wing, wing_cross_sections_movements=ms, **kw))
        kw = {}
        for c in "xyz":
            kw.update(osc(c + "_ref"))
        ams.append(mv.AirplaneMovement(base_airplane=b, wing_movements=wms, **kw))
    op = point(env)
    om = mv.OperatingPointMovement(base_operating_point=op, **osc("velocity"))
    m0 = mv.Movement(airplane_movements=ams, operating_point_movement=om, num_steps=1, delta_time=1)
    pb0 = env.ps.problems.UnsteadyProblem(movement=m0)
    recs, cnt = [{n: getattr(b, n) for n in PLANE if n != "xyz_ref"} for b in bases], counts(bases)
    order = [(wk, l, ar, nc) for wk in wakes for l in range(lengths[0], lengths[1] + 1) for ar in range(ars[0], ars[1] - 1, -1) for nc in range(ncs[0], ncs[1] + 1)]
    seen = []

    def on_run(name, pb, k):
        wk, length, ar, nc = order[len(seen)]
        at = "%s %d %d %d: " % order[len(seen)]
        m = pb.movement
        env.true(at + "wake treatment", k["prescribed_wake"] is (wk == "p"))
        env.true(at + "wake length", (m.num_cycles, m.num_chords) == ((length, None) if motion else (None, length)))
        env.true(at + "only final results", pb.only_final_results is True)
        env.true(at + "airplanes", len(m.airplane_movements) == len(bases) == len(pb.steady_problems[0].airplanes))
        o = m.operating_point_movement
        for n in POINT:
            same(env, at + n, getattr(o.base_operating_point, n), getattr(op, n))
        for n in ("velocity_amplitude", "velocity_period", "velocity_spacing"):
            same(env, at + n, getattr(o, n), getattr(om, n))
        for a, (am, ref) in enumerate(zip(m.airplane_movements, ams)):
            aa = at + "airplane %d: " % a
            check_plane(env, aa, am.base_airplane, bases[a], ar, nc)
            for n in PLANE_MOTION:
                same(env, aa + n, getattr(am, n), getattr(ref, n))
            env.true(aa + "wing movements", len(am.wing_movements) == len(ref.wing_movements))
            for w, (wm, wr) in enumerate(zip(am.wing_movements, ref.wing_movements)):
                aw = aa + "wing %d: " % w
                env.true(aw + "moves this airplane's wing", wm.base_wing is am.base_airplane.wings[w])
                for n in WING_MOTION:
                    same(env, aw + n, getattr(wm, n), getattr(wr, n))
                env.true(aw + "section movements", len(wm.wing_cross_section_movements) == len(wr.wing_cross_section_movements))
                for i, (sm, sr) in enumerate(zip(wm.wing_cross_section_movements, wr.wing_cross_section_movements)):
                    env.true(aw + "moves this wing's section %d" % i, sm.base_wing_cross_section is wm.base_wing.wing_cross_sections[i])
                    for n in SECTION_MOTION:
                        v = getattr(sr, n)
                        if n.startswith("custom"):
                            env.true(aw + "section %d: " % i + n, getattr(sm, n) is v)
                        else:
                            same(env, aw + "section %d: " % i + n, getattr(sm, n), v)
        seen.append(name)
        v = env.array([100 ** len(seen)] * 3)
        for kind in ("", "mean_", "rms_"):
            for c in ("force", "moment"):
                setattr(pb, "final_%snear_field_%s_coefficients_wind_axes" % (kind, c), [v] * len(bases))

    fake_solvers(env, UNSTEADY, on_run)
    env.module("convergence").analyze_unsteady_convergence(
        ref_problem=pb0, prescribed_wake="p" in wakes, free_wake="f" in wakes, num_cycles_bounds=lengths, num_chords_bounds=lengths, panel_aspect_ratio_bounds=ars,
        num_chordwise_panels_bounds=ncs, convergence_criteria=1)
    env.true("solves", len(seen) == len(order))
    untouched(env, bases, recs)
    env.true("given meshes", counts(bases) == cnt)


M = ("convergence", "geometry", "problems", "movement")
B = "any attributes; "


def part(fn, name, tiers=("quick", "thorough"), **kw):
    return Part(name, fn, B + ", ".join("%s=%s" % x for x in sorted(kw.items())), tiers=tiers, modules=M, params=kw, max_paths=2000, witnesses=4)


PARTS = [
    part(steady, "attributes, horseshoe", shapes=((2,), (3,)), ars=(1, 1), ncs=(1, 2)),
    part(steady, "attributes, ring", shapes=((3, 2),), ars=(2, 1), ncs=(1, 1), which=1, symmetric=True),
    part(steady, "own references", shapes=((2,),), ars=(2, 2), ncs=(2, 3), given=False),
    part(steady, "panel counts", shapes=((2,),), ars=(2, 1), ncs=(1, 1), wide=True),
    part(steady, "panel counts of three sections", shapes=((3,),), ars=(2, 2), ncs=(1, 1), wide=True, which=1),
    part(unsteady, "static", shapes=((2,), (2,)), ars=(1, 1), ncs=(1, 1), lengths=(1, 2), motion=False, wakes="pf"),
    part(unsteady, "moving", shapes=((2,),), ars=(2, 1), ncs=(1, 1), lengths=(1, 1), motion=True, wakes="f"),
    part(unsteady, "moving, three sections", shapes=((3,),), ars=(1, 1), ncs=(1, 1), lengths=(1, 2), motion=True),
    part(unsteady, "moving, two airplanes", shapes=((2,), (2, 2)), ars=(1, 1), ncs=(1, 2), lengths=(1, 1), motion=True),
    part(steady, "attributes, horseshoe, some symmetric", shapes=((2, 3), (2,)), ars=(1, 1), ncs=(1, 1), symmetric="mixed"),
    part(unsteady, "moving, some symmetric", shapes=((2, 3),), ars=(1, 1), ncs=(1, 1), lengths=(1, 1), motion=True, symmetric="mixed"),
    part(unsteady, "static, some symmetric", shapes=((2, 2), (2,)), ars=(1, 1), ncs=(1, 1), lengths=(1, 1), motion=False, symmetric="mixed"),
    part(unsteady, "static panel counts", shapes=((2,),), ars=(1, 1), ncs=(1, 1), lengths=(1, 1), motion=False, wide=True),
]
