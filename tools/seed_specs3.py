"""Third batch of planted bugs (plant.py reads SEEDS)."""
from seed_specs import A, F, G, M, MV, P, SH, SR, UR

SEEDS = []


def seed(id, property, edits, demo, needs, breaks, also=()):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


C, T, O = "convergence.py", "trim.py", "output.py"

seed("core-signed-strength", "P02",
     [(A, "r_c = 2 * math.sqrt(lamb * (nu + squire * abs(strength)) * age)", "r_c = 2 * math.sqrt(abs(lamb * (nu + squire * strength) * age))", 2)],
     '''
p = np.array([[0.4, 0.01, 0.02]])
a, b = np.array([[0.0, 0.0, 0.0]]), np.array([[1.0, 0.0, 0.0]])
for s in (3.0, -3.0):
    got = aerodynamics.expanded_velocities_from_line_vortices(p, a, b, np.array([s]), np.array([0.7]), 3e-4)[0, 0]
    close(got, filament(p[0], a[0], b[0], s, core(s, 0.7, 3e-4)), "velocity of an aged filament")
''', "a vortex of negative strength with a positive age, in the per-vortex evaluation",
     "the core radius takes the strength with its sign in the per-vortex evaluation")

seed("front-unmoved", "P04",
     [(A, """        self.front_left_vertex = front_left_vertex
""", """        if np.array_equal(self.front_left_vertex, front_left_vertex):
            if np.array_equal(self.front_right_vertex, front_right_vertex):
                return
        self.front_left_vertex = front_left_vertex
""", 2)],
     '''
fl, fr, bl, br = (np.array(v, float) for v in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0)))
r = aerodynamics.RingVortex(front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl, back_right_vertex=br, strength=1.0)
r.update_position(front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl + 0.5, back_right_vertex=br + 0.25)
close(r.back_left_vertex, bl + 0.5, "moved vertex")
close(r.left_leg.termination, bl + 0.5, "moved leg")
''', "a ring moved with its front leg staying in place", "an update that leaves the front leg in place is skipped altogether")

seed("projected-one-diagonal", "P05",
     [(P, "proj_plane_second_diag = self._second_diagonal - proj_n_hat_second_diag", "proj_plane_second_diag = self._second_diagonal")],
     '''
p = panel.Panel(front_right_vertex=np.array([0.0, 1.0, 0.3]), front_left_vertex=np.array([0.0, 0.0, 0.0]), back_left_vertex=np.array([1.0, 0.0, 0.1]),
                back_right_vertex=np.array([1.2, 1.1, 0.2]), is_leading_edge=True, is_trailing_edge=True)
for n in (np.array([0.0, 0.0, 1.0]), np.array([0.6, 0.0, 0.8])):
    close(p.calculate_projected_area(n), abs(n @ p.unit_normal) * p.area, "projected area")
''', "a panel that is not parallel to the plane", "only one diagonal of the panel is projected onto the plane")

seed("outer-hinge", "P06",
     [(M, "hinge_point=inner_wing_cross_section.control_surface_hinge_point,", "hinge_point=outer_wing_cross_section.control_surface_hinge_point,", 2)],
     '''
def build(h):
    return geometry.Wing(wing_cross_sections=[section(control_surface_deflection=10.0, control_surface_hinge_point=0.6), section(y_le=2.0, control_surface_hinge_point=h)],
                         num_chordwise_panels=4, chordwise_spacing="uniform")
a, b = build(0.6), build(0.85)
for p, q in zip(np.ravel(a.panels), np.ravel(b.panels)):
    close(p.back_right_vertex, q.back_right_vertex, "flapped corner")
''', "neighbouring sections with different hinge points and a deflected control surface", "the outer airfoil of a strip bends at the outer section's hinge")

seed("mirror-back-outer", "P07",
     [(M, """                back_outer_vertices,
                wing.unit_normal_vector,
                wing.leading_edge,
""", """                back_outer_vertices,
                wing.unit_normal_vector,
                inner_wing_cross_section.leading_edge,
""")],
     '''
w = wing(y_le=0.4)
n = w.num_spanwise_panels
for row in w.panels:
    for j in range(n // 2):
        a, b = row[j], row[n - 1 - j]
        close(a.back_left_vertex * [1, -1, 1] + [0, 0.8, 0], b.back_right_vertex, "mirrored corner")
''', "a symmetric wing whose symmetry plane is away from the origin, or of three or more sections", "the outer rear corners are mirrored in the inner section's plane")

seed("camber-line-by-abscissa", "P08",
     [(G, "+ np.power(mcl[:-1, 1] - mcl[1:, 1], 2)", "+ 0 * np.power(mcl[:-1, 1] - mcl[1:, 1], 2)")],
     '''
f = foil("naca6412").add_control_surface(deflection=30.0, hinge_point=0.7)
m = f.mcl_coordinates
s = np.hstack((0, np.cumsum(np.linalg.norm(np.diff(m, axis=0), axis=1))))
got = f.get_downsampled_mcl(np.array([0.0, 0.5, 0.8, 1.0]))
want = np.column_stack([np.interp(np.array([0.0, 0.5, 0.8, 1.0]) * s[-1], s, m[:, k]) for k in (0, 1)])
close(got, want, "camber line at fractions of its length")
''', "a camber line that is not straight", "the camber line is measured by its abscissa only")

seed("reflected-offset", "P09",
     [(F, "d = np.dot(-plane_point, plane_unit_normal)", "d = -plane_point[1] * plane_unit_normal[1]")],
     '''
n = np.array([2.0, 3.0, 6.0]) / 7
p, o = np.array([0.5, -1.0, 2.0]), np.array([1.0, 2.0, -1.0])
close(functions.reflect_point_across_plane(p, n, o), p - 2 * ((p - o) @ n) * n, "reflected point")
''', "a plane that is neither the y = constant one nor through the origin", "the plane's offset counts along y only")

seed("mac-first-section", "P10",
     [(G, "root_chord = wing_cross_section.chord", "root_chord = self.wing_cross_sections[0].chord")],
     '''
w = geometry.Wing(wing_cross_sections=[section(chord=2.0), section(chord=1.0, y_le=1.0), section(chord=0.5, y_le=3.0)], num_chordwise_panels=2)
want = (1.0 * (4 + 2 + 1) / 3 + 2.0 * (1 + 0.5 + 0.25) / 3) / w.projected_area
close(w.mean_aerodynamic_chord, want, "mean aerodynamic chord", 1e-6)
''', "a wing of three or more sections with different chords", "every part of the wing takes the first section's chord as its inner chord")

seed("chords-with-steps", "P11",
     [(MV, "if num_steps is not None or self.get_max_period() != 0:", "if num_steps is not None and self.get_max_period() != 0:")],
     '''
def build(**kw):
    try:
        moving([fixed(airplane([wing(n=1, m=1)]), **kw.pop("movement", {}))], **kw)
    except Exception:
        return False
    return True
expect(build(num_steps=2), "steps rejected")
expect(build(num_chords=1), "chords rejected")
expect(not build(num_steps=2, num_chords=1), "steps and chords accepted together")
expect(not build(movement=dict(tip=FLAP), num_chords=1), "chords accepted for a flapping wing")
''', "chords given along with steps for a static movement, or chords given for a moving one", "a number of chords is accepted where it is not permitted")

seed("normal-of-inducing-panel", "P12",
     [(SH, "np.expand_dims(self.panel_normal_directions, axis=1),", "np.expand_dims(self.panel_normal_directions, axis=0),")],
     '''
a = airplane([wing(n=2, m=2, dihedral=0.6)])
problem = steady([a], beta=3.0)
Horseshoe(problem).run()
for p in all_panels([a]):
    close(steady_velocity([a], problem.operating_point, p.collocation_point, rings=False) @ p.unit_normal, 0.0, "flow through a panel", 1e-8)
''', "panels whose normals differ", "the influence of a vortex is taken along its own panel's normal instead of the influenced panel's")

seed("ring-trailing-left-chord", "P13",
     [(SR, "panel.back_right_vertex - panel.front_right_vertex", "panel.back_left_vertex - panel.front_left_vertex")],
     '''
a = airplane([wing(n=2, m=2, tip=0.4)])
Ring(steady([a])).run()
for p in a.wings[0].panels[-1]:
    q = p.front_right_vertex * 0.75 + p.back_right_vertex * 0.25
    close(p.ring_vortex.back_right_vertex, q + (p.back_right_vertex - p.front_right_vertex), "rear corner of a trailing-edge ring")
''', "a tapered or twisted wing", "the right rear corner of trailing-edge rings is placed with the chord of the panel's left side")

seed("wake-core-ignored", "P14",
     [(UR, "ages=self.current_wake_ring_vortex_ages,", "ages=None,", 1)],
     '''
m = fixed(airplane([wing(n=1, m=2)]), tip=FLAP)
problem = moving([m], point=op(nu=0.5), delta_time=0.1, num_steps=4)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
for k, sp in [(3, problem.steady_problems[3])]:  # the wake's vortices are those of the last step
    for a, last in zip(sp.airplanes, problem.steady_problems[k - 1].airplanes):
        for p, q in zip(all_panels([a]), all_panels([last])):
            x = p.collocation_point
            v = steady_velocity([a], sp.operating_point, x) - (x - q.collocation_point) / 0.1
            for r in np.ravel(a.wings[0].wake_ring_vortices):
                v = v + loop(x, ring_points(r), r.strength, core(r.strength, r.age, 0.5))
            close(v @ p.unit_normal, 0.0, "flow through a panel at step %d" % k, 1e-8)
''', "wake vortices that have aged a step or more, near enough for their core to matter", "the wake's influence on the wing ignores the age of its vortices")

seed("moment-about-last-airplane", "P15",
     [(SH, "self.panel_bound_vortex_centers - self.panel_moment_references,", "self.panel_bound_vortex_centers - self.panel_moment_references[::-1],")],
     '''
a, b = airplane([wing(n=1, m=2)], x_ref=0.3), airplane([wing(n=1, m=2, x_le=5.0)], x_ref=5.5)
Horseshoe(steady([a, b])).run()
for x in (a, b):
    for p in all_panels([x]):
        close(p.near_field_moment_geometry_axes, np.cross(p.horseshoe_vortex.finite_leg.center - x.xyz_ref, p.near_field_force_geometry_axes), "moment of a panel")
''', "two airplanes with different reference points", "moments are taken about the reference points in reverse order of the panels")

seed("left-edge-wraps", "P16",
     [(SR, "if panel.is_left_edge:", "if panel.is_left_edge and not panel.is_right_edge:")],
     '''
from types import SimpleNamespace
sections = [section(num_spanwise_panels=1), section(y_le=2.0, chord=0.7, twist=4.0)]
a = airplane([geometry.Wing(wing_cross_sections=sections, num_chordwise_panels=2, chordwise_spacing="uniform")])
problem = steady([a])
Ring(problem).run()
for p in all_panels([a]):
    want = np.zeros(3)
    s = p.ring_vortex.strength
    front = s - (0 if p.is_leading_edge else a.wings[0].panels[0, 0].ring_vortex.strength)
    for leg, g in ((p.ring_vortex.right_leg, s), (p.ring_vortex.left_leg, s), (p.ring_vortex.front_leg, front)):
        want = want + 1.225 * g * np.cross(steady_velocity([a], problem.operating_point, leg.center), leg.vector)
    close(p.near_field_force_geometry_axes, want, "force on a panel", 1e-8)
''', "a wing with a single column of panels", "the left leg of the only panel of a row takes that panel as its own neighbour")

seed("left-neighbour-last-strength", "P17",
     [(UR, "- panel_to_left.ring_vortex.strength", "- self.last_panel_vortex_strengths[global_panel_position - 1] - (self.current_step < 1) * panel_to_left.ring_vortex.strength")],
     '''
def forces(problem):
    s = Unsteady(problem)
    s.run(calculate_streamlines=False)
    return s
m = fixed(airplane([wing(n=1, m=2, symmetric=False)]), tip=FLAP)
problem = moving([m], delta_time=0.1, num_steps=3)
s = forces(problem)
for k in (2,):  # the wake's vortices are those of the last step
    a, last = (problem.steady_problems[j].airplanes[0] for j in (k, k - 1))
    point = problem.steady_problems[k].operating_point
    row, old = a.wings[0].panels[0], last.wings[0].panels[0]
    for j, (p, q) in enumerate(zip(row, old)):
        g = p.ring_vortex.strength
        left = g - (row[0].ring_vortex.strength if j == 1 else 0)
        right = g - (row[1].ring_vortex.strength if j == 0 else 0)
        want = 1.225 * (g - q.ring_vortex.strength) / 0.1 * p.area * p.unit_normal
        for name, e in (("right_leg", right), ("left_leg", left), ("front_leg", g)):
            leg = getattr(p.ring_vortex, name)
            v = steady_velocity([a], point, leg.center) - (leg.center - getattr(q.ring_vortex, name).center) / 0.1
            for r in np.ravel(a.wings[0].wake_ring_vortices):
                v = v + loop(leg.center, ring_points(r), r.strength, core(r.strength, r.age, point.nu))
            want = want + 1.225 * e * np.cross(v, leg.vector)
        close(p.near_field_force_geometry_axes, want, "force on panel %d at step %d" % (j, k), 1e-8)
''', "a step after the first, where strengths change between steps", "the left leg's effective strength takes the neighbour's strength of the previous step")

seed("yaw-by-chord", "P18",
     [(F, """            / airplane.s_ref
            / airplane.b_ref
        )
""", """            / airplane.s_ref
            / (airplane.b_ref if airplane is unsteady_solver.current_airplanes[0] else unsteady_solver.current_airplanes[0].b_ref)
        )
""", 4)],
     '''
ms = [fixed(airplane([wing(n=1, m=1)], name="a")), fixed(airplane([wing(n=1, m=1, x_le=6.0, span=2.0, symmetric=False)], name="b"))]
problem = moving(ms, point=op(beta=5.0), delta_time=0.1, num_steps=2)
Unsteady(problem).run(calculate_streamlines=False)
for sp in problem.steady_problems:
    q = sp.operating_point.calculate_dynamic_pressure()
    for a in sp.airplanes:
        close(a.total_near_field_moment_coefficients_wind_axes[2], a.total_near_field_moment_wind_axes[2] / q / a.s_ref / a.b_ref, "yawing moment coefficient")
''', "an unsteady solution of two airplanes of different spans", "the second airplane's yawing moment is divided by the first airplane's span")

seed("age-reset-third-step", "P19",
     [(UR, "if self.current_step == 0:", "if self.current_step <= 2:", 2)],
     '''
problem = moving([fixed(airplane([wing(n=1, m=1)]))], delta_time=0.1, num_steps=5)
Unsteady(problem).run(calculate_streamlines=False)
for i, row in enumerate(problem.steady_problems[-1].airplanes[0].wings[0].wake_ring_vortices):
    for r in row:
        close(r.age, 0.1 * i, "age of row %d" % i)
''', "a wake of three rows or more", "at the third step every shed row takes the age of one step")

seed("far-wake-frozen", "P20",
     [(UR, "for chordwise_vertex_position in range(num_chordwise_vertices):", "for chordwise_vertex_position in range(min(num_chordwise_vertices, 3 + 2 * prescribed_wake * num_chordwise_vertices)):", 1)],
     '''
problem = moving([fixed(airplane([wing(n=1, m=1)]))], delta_time=0.1, num_steps=5)
Unsteady(problem).run(prescribed_wake=False, calculate_streamlines=False)
for a, b in zip(problem.steady_problems[1:], problem.steady_problems[2:]):
    u, v = a.airplanes[0].wings[0].wake_ring_vortex_vertices, b.airplanes[0].wings[0].wake_ring_vortex_vertices
    for old, new in zip(u, v[1:]):
        expect(np.all(np.linalg.norm(new - old, axis=1) > 0.5), "a wake vertex stands still")
''', "a free wake of three rows or more", "only the three newest rows of a free wake's vertices are convected")

seed("rms-of-first-airplane", "P21",
     [(UR, "total_near_field_moment_coefficients_wind_axes[airplane_id]", "total_near_field_moment_coefficients_wind_axes[0]", 1)],
     '''
ms = [fixed(airplane([wing(n=1, m=1)], name="a"), tip=FLAP), fixed(airplane([wing(n=1, m=1, x_le=6.0, tip=0.4)], name="b"))]
problem = moving(ms, delta_time=0.1, num_steps=5)
Unsteady(problem).run(calculate_streamlines=False)
steps = problem.steady_problems[-4:]
for i in (0, 1):
    t = np.array([sp.airplanes[i].total_near_field_moment_coefficients_wind_axes for sp in steps])
    close(problem.final_mean_near_field_moment_coefficients_wind_axes[i], t.mean(axis=0), "mean moment coefficients")
    close(problem.final_rms_near_field_moment_coefficients_wind_axes[i], np.sqrt((t**2).mean(axis=0)), "rms moment coefficients")
''', "two airplanes in an unsteady periodic problem", "one of the averages of the second airplane's moment coefficients is the first airplane's")

seed("kept-ring-vortices", "P22",
     [(UR, "panel.ring_vortex = aerodynamics.RingVortex(", "panel.ring_vortex = panel.ring_vortex or aerodynamics.RingVortex(")],
     '''
def result(first):
    problem = moving([fixed(airplane([wing(n=1, m=2)]))], delta_time=0.1, num_steps=2)
    if first:
        Ring(problem.steady_problems[0]).run()
    s = Unsteady(problem)
    s.run(calculate_streamlines=False)
    return problem.final_near_field_forces_wind_axes[0]
close(result(False), result(True), "forces after another solver")
''', "a steady ring solve of one of the time steps before the unsteady solve", "panels that already have a ring vortex keep it")

seed("single-row-unseeded", "P23",
     [(F, "if panel.is_trailing_edge:", "if panel.is_trailing_edge and not panel.is_leading_edge:")],
     '''
for n in (1, 2):
    a = airplane([wing(n=n, m=2)])
    s = Ring(steady([a]))
    s.run()
    want = [(p.back_left_vertex + p.back_right_vertex) / 2 for p in a.wings[0].panels[-1]]
    close(s.seed_points, want, "streamline seeds")
''', "a wing with a single chordwise row of panels", "no streamlines start from such a wing")

seed("custom-endpoint", "P24",
     [(MV, "times = np.linspace(0, total_time, num_steps, endpoint=False)", "times = np.linspace(0, total_time, num_steps, endpoint=num_steps > 10)", 3)],
     '''
for n in (4, 12):
    got = movement.oscillating_customspace(2.0, 0.7, 0.5, n, 0.1, np.cos)
    close(got, [0.5 + 2.0 * math.cos(2 * math.pi * 0.1 * k / 0.7) for k in range(n)], "custom oscillation")
''', "a custom oscillation of more than ten steps", "long custom oscillations are sampled at stretched times")

seed("step-from-last-wing", "P25",
     [(MV, "/ airplane_movement.base_airplane.wings[0].num_chordwise_panels", "/ airplane_movement.base_airplane.wings[-1].num_chordwise_panels")],
     '''
m = movement.Movement(airplane_movements=[fixed(airplane([wing(n=2, m=1), wing(n=3, m=1, x_le=5.0)]))],
                      operating_point_movement=movement.OperatingPointMovement(base_operating_point=op()), num_steps=2)
close(m.delta_time, m.airplane_movements[0].base_airplane.c_ref / 2 / 10.0, "time step")
''', "an airplane whose wings have different chordwise panel counts", "the time step follows the last wing's chordwise panels")

seed("snapshot-viscosity", "P26",
     [(MV, "nu=nu,", "nu=nu if step == 0 else 15.06e-6,")],
     '''
o = movement.OperatingPointMovement(base_operating_point=op(nu=3e-5))
for x in o.generate_operating_points(num_steps=3, delta_time=0.1):
    close(x.nu, 3e-5, "viscosity")
''', "a viscosity that is not the default, after the first step", "operating points after the first take the default viscosity")

seed("leftward-section-vertical", "P27",
     [(MV, "if this_y_le != last_y_le:", "if this_y_le > last_y_le:")],
     '''
sections = [section(), section(y_le=-2.0, x_le=0.3)]
w = geometry.Wing(wing_cross_sections=sections, num_chordwise_panels=1)
m = fixed(airplane([w]), tip=FLAP)
got = m.generate_airplanes(num_steps=4, delta_time=0.1)
z = [a.wings[0].wing_cross_sections[1].leading_edge[2] for a in got]
r = math.hypot(2.0, 0.3)
close(z, [r * math.sin(math.radians(10 * math.sin(2 * math.pi * 0.1 * k / 0.4))) for k in range(4)], "height of the tip")
''', "a section on the negative y side of the previous one", "such a section does not move")

seed("signed-change", "P28",
     [(C, """                max_chord_force_pc = max(
                    100
                    * np.abs(
                        (these_force_coefficients""", """                max_chord_force_pc = max(
                    100
                    * np.positive(
                        (these_force_coefficients""")],
     '''
from pterasoftware import convergence

class Solver:
    def __init__(self, steady_problem):
        self.airplanes = steady_problem.airplanes
    def run(self, **kw):
        n = self.airplanes[0].wings[0].num_chordwise_panels
        for a in self.airplanes:
            a.total_near_field_force_coefficients_wind_axes = np.array([0.0, 0.0, 1.0 / n])
            a.total_near_field_moment_coefficients_wind_axes = np.array([0.0, 1.0, 0.0])
convergence.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver = Solver
got = convergence.analyze_steady_convergence(steady([airplane([wing(n=1, m=1)])]), "steady ring vortex lattice method", (2, 2), (3, 5), 5.0)
expect(got == [None, None], "converged: %s" % got)
''', "coefficients that shrink as the mesh is refined", "a decrease of the force coefficients with the chordwise panels always counts as converged")

seed("mask-reversed", "P29",
     [(C, "                            coefficient_mask\n", "                            coefficient_mask[::-1]\n")],
     '''
from pterasoftware import convergence

class Solver:
    def __init__(self, unsteady_problem):
        self.problem = unsteady_problem
    def run(self, **kw):
        c = 2.0 ** self.problem.movement.num_chords
        self.problem.final_near_field_force_coefficients_wind_axes.append(np.array([c, 1.0, 1.0]))
        self.problem.final_near_field_moment_coefficients_wind_axes.append(np.array([1.0, 1.0, 1.0]))
convergence.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver = Solver
base = moving([fixed(airplane([wing(n=1, m=1)]))], num_steps=2)
got = convergence.analyze_unsteady_convergence(base, True, False, None, (2, 4), (1, 1), (2, 2), [True, False, True, False, False, False], 5.0)
expect(got == [None, None, None, None], "converged: %s" % got)
''', "a coefficient mask that is not symmetric", "the mask selects the coefficients counted from the end")

seed("chordwise-vector-dropped", "P30",
     [(C, "unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,", "unit_chordwise_vector=np.array([1.0, 0.0, 0.0]),")],
     '''
from pterasoftware import convergence

seen = []
class Solver:
    def __init__(self, unsteady_problem):
        seen.append(unsteady_problem)
    def run(self, **kw):
        for name in ("force", "moment"):
            getattr(seen[-1], "final_near_field_%s_coefficients_wind_axes" % name).append(np.ones(3))
convergence.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver = Solver
c = np.array([0.8, 0.0, -0.6])
base = moving([fixed(airplane([wing(n=1, m=1, unit_chordwise_vector=c)]))], num_steps=2)
convergence.analyze_unsteady_convergence(base, True, False, None, (1, 1), (1, 1), (2, 2), None, 5.0)
for problem in seen:
    close(problem.steady_problems[0].airplanes[0].wings[0].unit_chordwise_vector, c, "chordwise direction")
''', "a wing whose chordwise direction is not the x axis, in an unsteady study", "the studied wings run along the x axis")

seed("beta-upper-by-alpha", "P31",
     [(T, "if base_beta < beta_bounds[0] or base_beta > beta_bounds[1]:", "if base_beta < beta_bounds[0] or base_beta > max(beta_bounds[1], alpha_bounds[1]):", 1)],
     '''
import scipy.optimize
from pterasoftware import trim

scipy.optimize.minimize = scipy.optimize.dual_annealing = lambda *a, **kw: None
problem = steady([airplane([wing(n=1, m=1)], weight=300.0)], beta=6.0)
try:
    trim.analyze_steady_trim(problem, (5, 20), (-5, 10), (-5, 5), (0, 50))
except Exception:
    sys.exit(0)
expect(False, "sideslip beyond its bounds accepted")
''', "an initial sideslip above its upper bound but within the angle of attack's", "such an initial value is accepted")

seed("trim-rms-moments", "P32",
     [(T, "this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]", "this_problem.final_rms_near_field_moment_coefficients_wind_axes[0]")],
     '''
import scipy.optimize
from pterasoftware import trim

class Solver:
    def __init__(self, unsteady_problem):
        self.problem = unsteady_problem
    def run(self, **kw):
        p = self.problem
        for name, f in (("force", 1.0), ("moment", 0.0)):
            getattr(p, "final_mean_near_field_%s_coefficients_wind_axes" % name).append(np.full(3, f))
            getattr(p, "final_rms_near_field_%s_coefficients_wind_axes" % name).append(np.full(3, 2.0))
trim.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver = Solver
values = []
scipy.optimize.minimize = lambda fun, x0, **kw: values.append(fun(x0))
scipy.optimize.dual_annealing = lambda **kw: None
trim.analyze_unsteady_trim(fixed(airplane([wing(n=1, m=1)]), tip=FLAP), op(), (5, 20), (-5, 10), (-5, 5))
close(values, [math.sqrt(3) / 2], "objective")
''', "a flapping airplane", "candidates are judged by the root-mean-square moment coefficients")

seed("two-decimals", "P33",
     [(O, "np.round(airplane.total_near_field_moment_coefficients_wind_axes[1], 3),", "np.round(airplane.total_near_field_moment_coefficients_wind_axes[1], 3 - (airplane_num > 0)),")],
     '''
import contextlib
import io
from types import SimpleNamespace

def plane(k):
    v = np.array([1.2345, -2.3456, 3.4567]) * k
    return SimpleNamespace(name="p%d" % k, total_near_field_force_wind_axes=v, total_near_field_moment_wind_axes=2 * v,
                           total_near_field_force_coefficients_wind_axes=v / 3, total_near_field_moment_coefficients_wind_axes=v / 7.3)
planes = [plane(1), plane(2)]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    ps.output.print_steady_results(SimpleNamespace(airplanes=planes, num_airplanes=2))
shown = [float(line.split()[-1]) for line in out.getvalue().splitlines() if line.strip().startswith("Cm:")]
close(shown, [round(float(p.total_near_field_moment_coefficients_wind_axes[1]), 3) for p in planes], "pitching moment coefficients", 1e-6)
''', "a second airplane", "the second airplane's pitching moment coefficient is printed to two decimals")

seed("wake-frame-late", "P34",
     [(O, "                unsteady_solver, current_step\n", "                unsteady_solver, min(current_step, 3)\n")],
     '''
import pyvista as pv

frames = []
class Plotter:
    def __init__(self, **kw):
        self.window_size = [8, 8]
    def __getattr__(self, name):
        return lambda *a, **kw: None
    def add_mesh(self, mesh, color=None, **kw):
        if color == ps.output.wake_vortex_color:
            frames.append(mesh.n_cells)
    def screenshot(self, *a, **kw):
        return np.zeros((8, 8, 4), dtype=np.uint8)
ps.output.pv.Plotter = Plotter
problem = moving([fixed(airplane([wing(n=1, m=1)]))], delta_time=0.1, num_steps=6)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
ps.output.animate(s, show_wake_vortices=True, save=False, testing=True)
expect(frames == [2 * k for k in range(1, 6)], "wake rings of each frame: %s" % frames)
''', "an animation with its wake of more than four steps", "the wake stops growing after the fourth frame")

seed("printing-consumes", "P36",
     [(O, "these_moment_coefficients = moment_coefficients[airplane_id]", "these_moment_coefficients = moment_coefficients[airplane_id]\n        these_moment_coefficients *= 1 + 0 * airplane_id\n        these_moment_coefficients.round(3, these_moment_coefficients)")],
     '''
import contextlib
import io

problem = moving([fixed(airplane([wing(n=1, m=1)]))], delta_time=0.1, num_steps=2)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
before = problem.final_near_field_moment_coefficients_wind_axes[0].copy()
with contextlib.redirect_stdout(io.StringIO()):
    ps.output.print_unsteady_results(s)
expect(np.array_equal(before, problem.final_near_field_moment_coefficients_wind_axes[0]), "printing changed the results")
''', "results used after they were printed", "printing rounds the stored moment coefficients")

seed("study-leaves-mesh", "P36",
     [(C, "num_spanwise_panels=this_num_spanwise_panels,", "num_spanwise_panels=setattr(ref_base_wing_cross_section, 'num_spanwise_panels', this_num_spanwise_panels) or this_num_spanwise_panels,", 2)],
     '''
from pterasoftware import convergence

class Solver:
    def __init__(self, unsteady_problem):
        self.problem = unsteady_problem
    def run(self, **kw):
        for name in ("force", "moment"):
            getattr(self.problem, "final_near_field_%s_coefficients_wind_axes" % name).append(np.ones(3))
convergence.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver = Solver
base = moving([fixed(airplane([wing(n=1, m=3)]))], num_steps=2)
convergence.analyze_unsteady_convergence(base, True, False, None, (1, 1), (1, 1), (2, 2), None, 5.0)
got = [s.num_spanwise_panels for s in base.movement.airplane_movements[0].base_airplane.wings[0].wing_cross_sections]
expect(got == [3, 3], "panel counts left by the study: %s" % got)
''', "use of the given problem after an unsteady convergence study", "the study leaves its own spanwise panel counts in the given sections")

seed("right-tip-at-trailing-edge", "P37",
     [(UR, """                                    next_panel.ring_vortex.back_right_vertex
""", """                                    next_panel.back_right_vertex
""")],
     '''
problem = moving([fixed(airplane([wing(n=1, m=2)]))], delta_time=0.1, num_steps=3)
Unsteady(problem).run(calculate_streamlines=False)
for sp in problem.steady_problems:
    for row in sp.airplanes[0].wings[0].panels:
        close([p.ring_vortex.strength for p in row], [p.ring_vortex.strength for p in row[::-1]], "strengths of both halves", 1e-8)
''', "an unsteady solution of a symmetric airplane, from the second step on", "the right tip of the first wake row starts at the trailing edge instead of the ring's rear leg")
