SEEDS = []


def seed(id, property, edits, demo, needs, breaks, also=()):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


A = "aerodynamics.py"
F = "functions.py"
G = "geometry.py"
M = "meshing.py"
MV = "movement.py"
P = "panel.py"
SH = "steady_horseshoe_vortex_lattice_method.py"
SR = "steady_ring_vortex_lattice_method.py"
UR = "unsteady_ring_vortex_lattice_method.py"

seed("core-lamb", "P02",
     [(A, "r_c = 2 * math.sqrt(lamb * (nu + squire * abs(strength)) * age)", "r_c = 2 * math.sqrt((lamb * nu + squire * abs(strength)) * age)", 1)],
     '''
p = np.array([[0.4, 0.01, 0.02]])
a, b = np.array([[0.0, 0.0, 0.0]]), np.array([[1.0, 0.0, 0.0]])
for s in (3.0, -3.0):
    got = aerodynamics.collapsed_velocities_from_line_vortices(p, a, b, np.array([s]), np.array([0.7]), 1.5e-5)[0]
    close(got, filament(p[0], a[0], b[0], s, core(s, 0.7, 1.5e-5)), "velocity of an aged filament")
''', "a vortex with a positive age, in the summed evaluation, close enough for its core to matter",
     "the eddy-viscosity part of the core growth lacks Lamb's constant in the summed evaluation")

seed("mirror-outer-flap", "P07",
     [(M, "deflection=-inner_wing_cross_section.control_surface_deflection", "deflection=-outer_wing_cross_section.control_surface_deflection", 2)],
     '''
def build(outer):
    sections = [
        section(chord=1.0, control_surface_type="asymmetric", control_surface_deflection=8.0),
        section(chord=0.8, y_le=2.0, control_surface_type="asymmetric", control_surface_deflection=outer),
        section(chord=0.6, y_le=4.0, control_surface_type="asymmetric", control_surface_deflection=0.0),
    ]
    return geometry.Wing(wing_cross_sections=sections, symmetric=True, num_chordwise_panels=4, chordwise_spacing="uniform")
for outer in (8.0, 3.0):
    w = build(outer)
    flipped = [section(chord=1.0, control_surface_deflection=-8.0), section(chord=0.8, y_le=2.0, control_surface_deflection=-outer), section(chord=0.6, y_le=4.0)]
    f = geometry.Wing(wing_cross_sections=flipped, symmetric=True, num_chordwise_panels=4, chordwise_spacing="uniform")
    n = w.num_spanwise_panels
    for i in range(4):
        for j in range(n // 2):
            a, b = w.panels[i, j], f.panels[i, j]
            close(a.back_left_vertex, b.back_left_vertex, "mirrored flap corner")
            close(a.back_right_vertex, b.back_right_vertex, "mirrored flap corner")
''', "a symmetric wing with an asymmetric control surface whose deflections differ between neighbouring sections",
     "the outer airfoil of the mirrored section takes the outer section's deflection instead of the inner one's")

seed("spacing-from-outer", "P06",
     [(M, 'if inner_wing_cross_section.spanwise_spacing == "uniform"', 'if wing.wing_cross_sections[0].spanwise_spacing == "uniform"')],
     '''
sections = [section(chord=1.0, num_spanwise_panels=4, spanwise_spacing="uniform"), section(chord=0.8, y_le=2.0, num_spanwise_panels=4, spanwise_spacing="cosine"), section(chord=0.6, y_le=4.0)]
w = geometry.Wing(wing_cross_sections=sections, num_chordwise_panels=2)
ys = [p.front_left_vertex[1] for p in w.panels[0]] + [w.panels[0, -1].front_right_vertex[1]]
close(ys, [0, 0.5, 1, 1.5, 2] + [3 - math.cos(math.pi * k / 4) for k in (1, 2, 3, 4)], "span stations")
''', "a wing of three sections whose spanwise spacings differ", "every part of the wing takes the root section's spanwise spacing")

seed("mac-dihedral", "P10",
     [(G, """            projected_section_leading_edge = (
                np.dot(section_leading_edge, self.unit_normal_vector)
                * self.unit_normal_vector
            )

            section_span""", """            projected_section_leading_edge = (
                section_leading_edge
                - np.dot(section_leading_edge, self.unit_chordwise_vector)
                * self.unit_chordwise_vector
            )

            section_span""")],
     '''
for d in (0.0, 1.5):
    w = wing(span=3.0, tip=0.5, sweep=0.4, dihedral=d)
    want = 2 * 3.0 * (1 + 0.5 + 0.25) / 3 / w.projected_area
    close(w.mean_aerodynamic_chord, want, "mean aerodynamic chord")
''', "a wing with dihedral", "the mean aerodynamic chord integrates along the sloping span instead of the projected one")

seed("trailing-legs-main-wing", "P12",
     [(SH, "infinite_leg_length = wing.span * 20", "infinite_leg_length = airplane.wings[0].span * 20")],
     '''
a = airplane([wing(span=4.0), wing(span=1.0, x_le=5.0)])
s = Horseshoe(steady([a]))
s.run()
for w in a.wings:
    for p in np.ravel(w.panels):
        h = p.horseshoe_vortex
        for leg in (h.right_leg, h.left_leg):
            close(np.linalg.norm(leg.vector), 20 * w.span, "trailing leg length", 1e-6)
''', "an airplane with wings of different spans", "the trailing legs of every wing have twenty spans of the main wing")

seed("moment-reference-lead", "P15",
     [(SH, """                    self.panel_moment_references[global_panel_position, :] = (
                        airplane.xyz_ref
                    )""", """                    self.panel_moment_references[global_panel_position, :] = (
                        self.airplanes[0].xyz_ref
                    )""")],
     '''
a, b = airplane([wing(n=1)], x_ref=0.3), airplane([wing(n=1, x_le=6.0, z_le=1.0)], x_ref=6.5, z_ref=0.9)
problem = steady([a, b], beta=3.0)
Horseshoe(problem).run()
for q in (a, b):
    for p in all_panels([q]):
        h = p.horseshoe_vortex
        close(p.near_field_moment_geometry_axes, np.cross(h.finite_leg.center - np.array([q.x_ref, q.y_ref, q.z_ref]), p.near_field_force_geometry_axes), "panel moment", 1e-7)
''', "several airplanes with different reference points", "moments of every airplane are taken about the first airplane's reference point")

seed("front-neighbour-stride", "P16",
     [(SR, "                            - panel_to_front.ring_vortex.strength", "                            - self.vortex_strengths[\n                                global_panel_position\n                                - airplane.wings[0].num_spanwise_panels\n                            ]")],
     '''
a = airplane([wing(n=2, m=3), wing(span=1.0, n=2, m=2, x_le=5.0)])
problem = steady([a], alpha=6.0)
s = Ring(problem)
s.run()
for w in a.wings:
    for p in np.ravel(w.panels):
        i, j = p.local_chordwise_position, p.local_spanwise_position
        g = lambda r, c: w.panels[r, c].ring_vortex.strength if 0 <= r and 0 <= c < w.num_spanwise_panels else 0.0
        r = p.ring_vortex
        want = 0
        for leg, k in ((r.front_leg, g(i, j) - g(i - 1, j)), (r.left_leg, g(i, j) - g(i, j - 1)), (r.right_leg, g(i, j) - g(i, j + 1))):
            want = want + problem.operating_point.density * k * np.cross(steady_velocity([a], problem.operating_point, leg.center), leg.vector)
        close(p.near_field_force_geometry_axes, want, "panel force", 1e-6)
''', "an airplane whose wings have different spanwise panel counts and several chordwise panels",
     "the leading legs of the second wing subtract the strength of the wrong panel")

seed("leg-motion-first-results", "P17",
     [(UR, """        if self.current_step < 1:
            # Set the flapping velocities to be zero for all points. Then, return the
            # flapping velocities.
            return np.zeros((self.num_panels, 3))

        # Get the current airplanes' bound vortices' right legs' centers""", """        if self.current_step < max(1, self.first_results_step + 1):
            # Set the flapping velocities to be zero for all points. Then, return the
            # flapping velocities.
            return np.zeros((self.num_panels, 3))

        # Get the current airplanes' bound vortices' right legs' centers""")],
     '''
def run(final):
    m = fixed(airplane([wing(n=1, m=1)]), tip=FLAP)
    problem = moving([m], delta_time=0.1, num_steps=6, final=final)
    Unsteady(problem).run(calculate_streamlines=False)
    return [p.airplanes[0].total_near_field_force_wind_axes for p in problem.steady_problems]
full, last = run(False), run(True)
for x, y in zip(full, last):
    if y is not None:
        close(x, y, "forces when only final results are asked", 1e-7)
''', "a moving geometry with only the final results requested, at the first step that has results",
     "the right legs are taken as not moving in the first step that has results")

seed("averaged-pressure", "P18",
     [(F, "    operating_point = unsteady_solver.current_operating_point\n", "    operating_point = unsteady_solver.steady_problems[0].operating_point\n")],
     '''
m = fixed(airplane([wing(n=1, m=1)]))
problem = moving([m], speed=dict(velocity_amplitude=3.0, velocity_period=0.8), delta_time=0.1, num_steps=5)
Unsteady(problem).run(calculate_streamlines=False)
for s in problem.steady_problems:
    a = s.airplanes[0]
    q = 0.5 * s.operating_point.density * s.operating_point.velocity**2
    f = a.total_near_field_force_wind_axes
    close(a.total_near_field_force_coefficients_wind_axes, np.array([-f[0], f[1], -f[2]]) / q / a.s_ref, "force coefficients", 1e-9)
''', "an airspeed that changes during the movement", "coefficients of every step use the first step's dynamic pressure")

seed("wake-index-per-airplane", "P19",
     [(UR, """        global_wake_ring_vortex_position = 0

        # Iterate through the current step's airplanes' wings.
        for airplane in self.current_airplanes:
""", """
        # Iterate through the current step's airplanes' wings.
        for airplane in self.current_airplanes:
            global_wake_ring_vortex_position = 0
""")],
     '''
ms = [fixed(airplane([wing(n=1, m=1)])), fixed(airplane([wing(n=1, m=1, x_le=6.0)]))]
problem = moving(ms, delta_time=0.1, num_steps=3)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
last = problem.steady_problems[-1].airplanes
strengths = [r.strength for a in last for w in a.wings for r in np.ravel(w.wake_ring_vortices)]
close(s.current_wake_ring_vortex_strengths, strengths, "wake strengths used")
''', "two airplanes flying together for at least two steps", "the wake of the second airplane overwrites the first one's in the velocity evaluation", also=["P14"])

seed("wake-vertices-shared", "P20",
     [(UR, """                        next_wing.wake_ring_vortex_vertices = np.copy(
                            this_wing.wake_ring_vortex_vertices
                        )""", """                        next_wing.wake_ring_vortex_vertices = (
                            this_wing.wake_ring_vortex_vertices
                        )""")],
     '''
m = fixed(airplane([wing(n=1, m=1)]))
problem = moving([m], delta_time=0.1, num_steps=4)
Unsteady(problem).run(calculate_streamlines=False)
for a, b in zip(problem.steady_problems[1:], problem.steady_problems[2:]):
    u, v = a.airplanes[0].wings[0].wake_ring_vortex_vertices, b.airplanes[0].wings[0].wake_ring_vortex_vertices
    close(v[1:], u + 0.1 * a.operating_point.calculate_freestream_velocity_geometry_axes(), "convected wake vertices")
    te = [p.ring_vortex.back_left_vertex for p in a.airplanes[0].wings[0].panels[-1]]
    close(u[0, :-1], te, "attached wake vertices")
''', "looking at the wake of an earlier step after at least three steps", "convecting a step's wake also moves the previous step's stored vertices")

seed("averaging-window", "P21",
     [("problems.py", "0, math.floor(self.num_steps - (self.max_period / self.delta_time))", "0, self.num_steps - math.floor(self.max_period / self.delta_time)")],
     '''
for period in (0.4, 0.5, 0.47):
    problem = moving([fixed(airplane([wing(n=1, m=1)]), tip=dict(FLAP, sweeping_period=period))], delta_time=0.125, num_steps=8)
    Unsteady(problem).run(calculate_streamlines=False)
    n = math.ceil(period / 0.125)
    f = np.array([s.airplanes[0].total_near_field_force_wind_axes for s in problem.steady_problems])
    close(problem.final_mean_near_field_forces_wind_axes[0], f[-n:].mean(axis=0), "mean forces")
''', "a period that is not a whole number of time steps", "the averages cover one step less than a whole period")

seed("stale-horseshoes", "P22",
     [(SR, "                    if panel.is_trailing_edge:\n                        # Also, update", "                    if panel.horseshoe_vortex is not None:\n                        # Also, update")],
     '''
def result(first):
    a = airplane([wing(n=3, m=2)])
    problem = steady([a])
    if first:
        Horseshoe(problem).run()
    s = Ring(problem)
    s.run()
    return s.vortex_strengths
close(result(False), result(True), "strengths after another solver")
''', "running the horseshoe solver on a problem and then the ring solver, with several chordwise panels",
     "horseshoe vortices left behind by the other solver are included in the ring solution")

seed("seed-midpoint", "P23",
     [(F, """            (
                solver.seed_points,
                panel.back_left_vertex
                + 0.5 * (panel.back_right_vertex - panel.back_left_vertex),
            )""", """            (
                solver.seed_points,
                panel.back_left_vertex
                + 0.5 * panel.unit_spanwise * np.linalg.norm(panel.back_leg),
            )""")],
     '''
a = airplane([wing(n=2, m=2, tip=0.4, sweep=1.0)])
s = Ring(steady([a]))
s.run()
want = [(p.back_left_vertex + p.back_right_vertex) / 2 for p in a.wings[0].panels[-1]]
close(s.seed_points, want, "streamline seeds")
''', "a wing whose panels' front and rear edges are not parallel (tapered or swept)", "streamlines start off the trailing edge")

seed("chordwise-inviscid", "P03",
     [(A, "            nu=nu,", "            nu=0.0,", 4)],
     '''
rng = np.random.default_rng(1)
pts, c = rng.normal(size=(3, 3)), [rng.normal(size=(2, 3)) for _ in range(4)]
s, ages = np.array([1.5, -2.0]), np.array([0.4, 1.2])
got = aerodynamics.collapsed_velocities_from_ring_vortices_chordwise_segments(pts, *c, s, ages, 0.3)
for i, p in enumerate(pts):
    want = 0
    for k in range(2):
        r = core(s[k], ages[k], 0.3)
        want = want + filament(p, c[0][k], c[1][k], s[k], r) + filament(p, c[2][k], c[3][k], s[k], r)
    close(got[i], want, "velocity of the streamwise legs")
''', "the streamwise-legs variant with aged vortices and a viscosity", "the streamwise-legs variant ignores the given viscosity")

seed("moved-ring-back-leg", "P04",
     [(A, """            origin=self.back_left_vertex,
            termination=self.back_right_vertex,""", """            origin=self.back_right_vertex,
            termination=self.back_left_vertex,""", 2)],
     '''
v = [np.array(x, float) for x in ((0, 0, 0), (0, 1, 0), (1, 0, 0.2), (1, 1, 0))]
r = aerodynamics.RingVortex(front_left_vertex=v[0], front_right_vertex=v[1], back_left_vertex=v[2], back_right_vertex=v[3], strength=2.0)
for _ in range(2):
    legs = [r.front_leg, r.left_leg, r.back_leg, r.right_leg]
    for a, b in zip(legs, legs[1:] + legs[:1]):
        close(a.termination, b.origin, "legs run head to tail")
    r.update_position(front_left_vertex=v[0] + 1, front_right_vertex=v[1] + 1, back_left_vertex=v[2] + 1, back_right_vertex=v[3] + 1)
''', "a ring vortex whose position has been updated", "the rear leg of a moved ring runs against the circulation")

seed("mean-direction", "P05",
     [(P, "        spanwise = (front_spanwise + back_spanwise) / 2\n", "        spanwise = (\n            front_spanwise / np.linalg.norm(front_spanwise)\n            + back_spanwise / np.linalg.norm(back_spanwise)\n        )\n")],
     '''
rng = np.random.default_rng(2)
for _ in range(5):
    fr, fl, bl, br = (np.array(x, float) + 0.2 * rng.normal(size=3) for x in ((0, 1, 0), (0, 0, 0), (1, 0, 0), (1, 1.6, 0)))
    q = panel.Panel(fr, fl, bl, br, True, True)
    want = (fr - fl) + (br - bl)
    close(q.unit_spanwise, want / np.linalg.norm(want), "unit spanwise vector")
''', "a panel whose front and rear edges differ in both length and direction", "the spanwise vector averages directions instead of the edges")

seed("flap-thickness", "P08",
     [(G, "            rotation_matrix @ np.transpose(upper_minus_mcl_after)\n", "            abs(rotation_matrix) @ np.transpose(upper_minus_mcl_after)\n")],
     '''
a = geometry.Airfoil(name="naca2412", n_points_per_side=30)
for d in (12.0, -12.0):
    b = a.add_control_surface(deflection=d, hinge_point=0.7)
    h = np.array([0.7, float(a.get_camber_at_chord_fraction(0.7))])
    t = math.radians(-d)
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    for x, y, m in zip(a.upper_coordinates()[::-1], b.upper_coordinates()[::-1], a.mcl_coordinates):
        close(y, R @ (x - h) + h if m[0] > 0.7 else x, "deflected outline", 1e-7)
''', "the outline (not the camber line) of an airfoil with a deflected control surface", "the thickness of the deflected part is not rotated with it")

seed("short-axis", "P09",
     [(F, "    if not axis_already_normalized:\n", "    if not axis_already_normalized and np.linalg.norm(axis) > 1:\n")],
     '''
for axis in ([1.0, 2.0, -1.0], [0.1, 0.2, -0.1]):
    R = functions.angle_axis_rotation_matrix(0.7, np.array(axis))
    close(R @ R.T, np.eye(3), "rotation matrix is orthogonal")
''', "a rotation axis shorter than one", "short axes are not normalised, so the matrix is not a rotation")

seed("tip-plane-unchecked", "P11",
     [(G, "        for wing_cross_section in self.wing_cross_sections:\n\n            # Find the vector", "        for wing_cross_section in self.wing_cross_sections[:-1]:\n\n            # Find the vector")],
     '''
def build(k):
    n = [np.array([0.0, 1.0, 0.0]) for _ in range(3)]
    if k is not None:
        n[k] = np.array([0.6, 0.8, 0.0])
    return geometry.Wing(wing_cross_sections=[section(y_le=float(i), unit_normal_vector=n[i]) for i in range(3)], num_chordwise_panels=2)
build(None)
for k in (1, 2):
    try:
        build(k)
    except Exception:
        continue
    expect(False, "a section plane that does not contain the chordwise direction is accepted")
''', "a wing whose last section's plane does not contain the chordwise direction", "the last section's plane is not checked")

seed("ring-trailing-reference-span", "P13",
     [(SR, "infinite_leg_length = wing.span * 20", "infinite_leg_length = airplane.b_ref * 20")],
     '''
a = airplane([wing(span=4.0)], b_ref=2.5)
Ring(steady([a])).run()
for p in a.wings[0].panels[-1]:
    close(np.linalg.norm(p.horseshoe_vortex.right_leg.vector), 20 * a.wings[0].span, "trailing leg length", 1e-6)
''', "an airplane with a given reference span, or with several wings", "trailing legs follow the reference span instead of the wing's own")

seed("first-step-freestream", "P14",
     [(UR, """            self.panel_normal_directions,
            self.current_freestream_velocity_geometry_axes,
        )""", """            self.panel_normal_directions,
            self.steady_problems[
                0
            ].operating_point.calculate_freestream_velocity_geometry_axes(),
        )""")],
     '''
m = fixed(airplane([wing(n=1, m=1)]))
problem = moving([m], speed=dict(velocity_amplitude=3.0, velocity_period=0.8), delta_time=0.1, num_steps=3)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
for p in all_panels(problem.steady_problems[-1].airplanes):
    v = s.calculate_solution_velocity(p.collocation_point[None])[0]
    close(v @ p.unit_normal, 0, "normal velocity", 1e-7)
''', "an airspeed that changes during the movement", "the no-flow condition uses the first step's freestream")

seed("negative-triangle", "P24",
     [(MV, "    if amplitude == 0 or period == 0:", "    if amplitude <= 0 or period == 0:", 2)],
     '''
for a in (2.0, -2.0):
    got = movement.oscillating_linspace(a, 1.0, 0.5, 4, 0.25)
    close(got, [0.5, 0.5 + a, 0.5, 0.5 - a], "triangle wave")
''', "a negative amplitude with uniform spacing", "negative amplitudes give a constant")

seed("first-chord-steps", "P25",
     [(MV, "                max_c_ref = max(c_refs)\n", "                max_c_ref = c_refs[0]\n")],
     '''
a, b = airplane([wing(n=1, m=1)], c_ref=0.5), airplane([wing(n=1, m=1, x_le=6.0)], c_ref=2.0)
for pair in ((a, b), (b, a)):
    problem = moving([fixed(x) for x in pair], delta_time=0.1, num_chords=3)
    expect(problem.num_steps == 6, "number of steps %d" % problem.num_steps)
''', "a static movement of several airplanes whose first one has a smaller chord", "the number of steps follows the first airplane's chord")

seed("snapshot-flap-type", "P26",
     [(MV, "                control_surface_type=control_surface_type,\n", "                control_surface_type=wing_cross_sections[-1].control_surface_type\n                if wing_cross_sections\n                else \"symmetric\",\n")],
     '''
w = geometry.Wing(wing_cross_sections=[section(chord=1.0, control_surface_type="asymmetric", control_surface_deflection=9.0), section(y_le=3.0)], symmetric=True, num_chordwise_panels=3)
base = airplane([w])
m = moving([fixed(base)], delta_time=0.1, num_steps=2)
for s in m.steady_problems:
    for p, q in zip(all_panels([base]), all_panels(s.airplanes)):
        close(q.back_left_vertex, p.back_left_vertex, "static geometry")
''', "a symmetric wing with a deflected asymmetric control surface in a movement", "snapshots lose the control surface type")

seed("custom-pitch-base", "P27",
     [(MV, "                base_value=self.pitching_base,\n", "                base_value=0.0,\n", 3)],
     '''
w = geometry.Wing(wing_cross_sections=[section(chord=1.0, twist=2.0), section(y_le=3.0, twist=4.0)], num_chordwise_panels=1)
base = airplane([w])
move = dict(pitching_amplitude=5.0, pitching_period=1.0, pitching_spacing="custom", custom_pitch_function=np.sin)
m = moving([fixed(base, tip=move)], delta_time=0.25, num_steps=3)
twists = [s.airplanes[0].wings[0].wing_cross_sections[1].twist for s in m.steady_problems]
close(twists, [4.0, 9.0, 4.0], "twist history")
''', "custom pitching of a twisted section", "custom pitching oscillates about zero instead of the section's twist")

FAKE = '''
from pterasoftware import convergence

def fake(table):
    class Solver:
        def __init__(self, steady_problem):
            self.airplanes = steady_problem.airplanes
        def run(self, **kw):
            w = self.airplanes[0].wings[0]
            key = (w.wing_cross_sections[0].num_spanwise_panels, w.num_chordwise_panels)
            for a in self.airplanes:
                a.total_near_field_force_coefficients_wind_axes = np.array([0.0, 0.0, table(*key)])
                a.total_near_field_moment_coefficients_wind_axes = np.array([0.0, 1.0, 0.0])
    return Solver
'''
seed("saturated-at-bound", "P28",
     [("convergence.py", "            ar_saturated = panel_aspect_ratio == 1\n", "            ar_saturated = panel_aspect_ratio == panel_aspect_ratio_bounds[1]\n", 1)],
     FAKE + '''
# the coefficients never settle with the panel aspect ratio
convergence.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver = fake(lambda ns, nc: float(2 * ns / nc))
base = steady([airplane([wing(span=12.0, tip=1.0, sweep=0.0, dihedral=0.0)])])
got = convergence.analyze_steady_convergence(base, "steady ring vortex lattice method", (4, 2), (3, 5), 5.0)
expect(got == [None, None], "converged: %s" % got)
''', "a finest panel aspect ratio above one, with coefficients still changing", "an unsettled coarse mesh is reported as converged")

seed("length-first-wake", "P29",
     [("convergence.py", "                            wake_id, length_id - 1, ar_id, chord_id, :, :", "                            0, length_id - 1, ar_id, chord_id, :, :")],
     '''
from pterasoftware import convergence

class Solver:
    def __init__(self, unsteady_problem):
        self.problem = unsteady_problem
    def run(self, prescribed_wake=True, **kw):
        chords = self.problem.movement.num_chords
        # neither the prescribed nor the free wake settles with its length, but the free wake at one length agrees with the prescribed one at the length before
        c = 2.0 ** chords / (1 if prescribed_wake else 2)
        self.problem.final_near_field_force_coefficients_wind_axes.append(np.full(3, c))
        self.problem.final_near_field_moment_coefficients_wind_axes.append(np.full(3, c))
convergence.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver = Solver
base = moving([fixed(airplane([wing(n=1, m=1)]))], num_steps=2)
got = convergence.analyze_unsteady_convergence(base, True, True, None, (2, 4), (1, 1), (2, 2), None, 5.0)
expect(got == [None, None, None, None], "converged: %s" % got)
''', "both wake types, with results that do not settle with the wake length", "a free wake is compared with the shorter prescribed wake instead of the shorter free one")

seed("convergence-custom-pitch", "P30",
     [("convergence.py", "custom_pitch_function=ref_wing_cross_section_movement.custom_pitch_function,", "custom_pitch_function=ref_wing_cross_section_movement.custom_sweep_function,")],
     '''
from pterasoftware import convergence

seen = []
class Solver:
    def __init__(self, unsteady_problem):
        seen.append(unsteady_problem)
    def run(self, **kw):
        for name in ("force", "moment"):
            getattr(seen[-1], "final_rms_near_field_%s_coefficients_wind_axes" % name).append(np.ones(3))
convergence.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver = Solver
tip = dict(pitching_amplitude=5.0, pitching_period=0.4, pitching_spacing="custom", custom_pitch_function=np.cos,
           sweeping_amplitude=5.0, sweeping_period=0.4, sweeping_spacing="custom", custom_sweep_function=np.sin)
base = moving([fixed(airplane([wing(n=1, m=1)]), tip=tip)], num_cycles=1)
convergence.analyze_unsteady_convergence(base, True, False, (1, 1), None, (1, 1), (2, 2), None, 5.0)
for problem in seen:
    twists = [s.airplanes[0].wings[0].wing_cross_sections[1].twist for s in problem.steady_problems]
    close(twists[0], 5.0, "twist of the first step")
''', "an unsteady convergence study of a wing with custom pitching and custom sweeping", "pitching follows the sweeping function in the study")

seed("global-search-start", "P31",
     [("trim.py", "            x0=initial_guess,\n            maxfun=num_calls,", "            x0=np.array(\n                [\n                    problem.operating_point.velocity,\n                    problem.operating_point.alpha,\n                    problem.operating_point.beta,\n                    problem.operating_point.external_thrust,\n                ]\n            ),\n            maxfun=num_calls,", 1)],
     '''
import scipy.optimize
from pterasoftware import trim

starts = []
scipy.optimize.minimize = lambda fun, x0, **kw: (starts.append(x0.copy()), fun(x0 + 1.0))
scipy.optimize.dual_annealing = lambda func, bounds, x0, **kw: starts.append(x0.copy())
problem = steady([airplane([wing(n=1, m=1)], weight=300.0)])
trim.analyze_steady_trim(problem, (5, 20), (-5, 10), (-5, 5), (0, 50))
close(starts[0], starts[1], "start of the global search")
''', "a local search that fails", "the global search starts wherever the local search stopped")

seed("stale-pressure", "P32",
     [("trim.py", "        operating_point.velocity = velocity\n        operating_point.alpha = alpha\n        operating_point.beta = beta\n", "        operating_point.alpha = alpha\n        operating_point.beta = beta\n"),
      ("trim.py", "        external_force_coefficients = external_forces / dynamic_pressure / s_ref\n", "        external_force_coefficients = external_forces / dynamic_pressure / s_ref\n        operating_point.velocity = velocity\n", 2)],
     '''
import scipy.optimize
from pterasoftware import trim

values = []
base = airplane([wing(n=1, m=1)], weight=300.0)
def search(fun, x0, **kw):
    for v in (10.0, 14.0, 10.0):
        values.append(fun(np.array([v, 5.0, 0.0])))
scipy.optimize.minimize = search
scipy.optimize.dual_annealing = lambda **kw: None
trim.analyze_unsteady_trim(fixed(base), op(), (5, 20), (-5, 10), (-5, 5))
close(values[0], values[2], "objective of the same condition")
''', "a search that changes the airspeed between candidates", "the weight coefficient uses the previous candidate's dynamic pressure")

seed("plot-times", "P34",
     [("output.py", "    first_results_time_step_time = delta_time * first_results_step\n", "    first_results_time_step_time = delta_time * min(first_results_step, 1)\n")],
     '''
import matplotlib.pyplot as plt

m = fixed(airplane([wing(n=1, m=1)]), tip=FLAP)
problem = moving([m], delta_time=0.1, num_steps=8, final=True)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
ps.output.plot_results_versus_time(s, show=True)
for number in plt.get_fignums():
    for line in plt.figure(number).axes[0].lines:
        close(line.get_xdata(), [0.1 * k for k in range(4, 8)], "times plotted")
''', "a problem that only calculates its final results, from the third step on", "the results are plotted at the wrong times")

seed("second-airplane-print", "P33",
     [("output.py", "        these_moment_coefficients = moment_coefficients[airplane_id]\n", "        these_moment_coefficients = moment_coefficients[0]\n")],
     '''
import contextlib
import io

ms = [fixed(airplane([wing(n=1, m=1)], name="a")), fixed(airplane([wing(n=1, m=1, x_le=6.0, tip=0.4)], name="b"))]
problem = moving(ms, delta_time=0.1, num_steps=2)
s = Unsteady(problem)
s.run(calculate_streamlines=False)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    ps.output.print_unsteady_results(s)
shown = [float(line.split()[-1]) for line in out.getvalue().splitlines() if line.strip().startswith("Cm:")]
close(shown, [round(float(c[1]), 3) for c in problem.final_near_field_moment_coefficients_wind_axes], "pitching moment coefficients")
''', "printing the unsteady results of several airplanes", "the second airplane's moment coefficients are those of the first")

seed("sideslip-order", "P01",
     [("operating_point.py", "axes_flip @ alpha_rotation @ beta_rotation @ eye", "axes_flip @ beta_rotation @ alpha_rotation @ eye")],
     '''
for a, b in ((7.0, 0.0), (0.0, 7.0), (5.0, 4.0)):
    o = op(alpha=a, beta=b)
    t, u = math.radians(a), math.radians(b)
    close(o.calculate_freestream_direction_geometry_axes(), [math.cos(t) * math.cos(u), -math.sin(u), math.sin(t) * math.cos(u)], "freestream direction")
''', "an angle of attack together with a sideslip angle", "the rotations are applied in the wrong order")
