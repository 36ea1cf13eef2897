BUNDLES = {}

A = BUNDLES["A"] = []
A += [
("top", "aerodynamics.py", '''
@njit(cache=True, fastmath=False)
def _norm3(x, y, z):
    return math.sqrt(x * x + y * y + z * z)


@njit(cache=True, fastmath=False)
def _segment_velocity(point, origin, termination, c_1, c_2):
    result = np.zeros(3)
    a = origin - point
    b = termination - point
    n_x = a[1] * b[2] - a[2] * b[1]
    n_y = a[2] * b[0] - a[0] * b[2]
    n_z = a[0] * b[1] - a[1] * b[0]
    r_1 = _norm3(a[0], a[1], a[2])
    r_2 = _norm3(b[0], b[1], b[2])
    r_3 = _norm3(n_x, n_y, n_z)
    if not (r_1 < eps or r_2 < eps or r_3**2 < eps):
        c_3 = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
        c_4 = c_1 * (r_1 + r_2) * (r_1 * r_2 - c_3) / (r_1 * r_2 * (r_3**2 + c_2))
        result[0] = c_4 * n_x
        result[1] = c_4 * n_y
        result[2] = c_4 * n_z
    return result
'''),
("def", "aerodynamics.py", "collapsed_velocities_from_line_vortices", '''
@njit(cache=True, fastmath=False)
def collapsed_velocities_from_line_vortices(points, origins, terminations, strengths, ages=None, nu=0.0):
    expanded = expanded_velocities_from_line_vortices(points, origins, terminations, strengths, ages, nu)
    return np.sum(expanded, axis=1)
'''),
("def", "aerodynamics.py", "expanded_velocities_from_line_vortices", '''
@njit(cache=True, fastmath=False)
def expanded_velocities_from_line_vortices(points, origins, terminations, strengths, ages=None, nu=0.0):
    num_vortices = origins.shape[0]
    num_points = points.shape[0]
    velocities = np.zeros((num_points, num_vortices, 3))
    for j in range(num_vortices):
        age = 0.0
        if ages is not None:
            age = ages[j]
        core = 2 * math.sqrt(lamb * (nu + squire * abs(strengths[j])) * age)
        d = terminations[j] - origins[j]
        length = _norm3(d[0], d[1], d[2])
        c_2 = (length * core) ** 2
        for i in range(num_points):
            velocities[i, j] = _segment_velocity(points[i], origins[j], terminations[j], strengths[j] / (4 * math.pi), c_2)
    return velocities
'''),
("def", "aerodynamics.py", "collapsed_velocities_from_ring_vortices_chordwise_segments", '''
@njit(cache=True, fastmath=False)
def collapsed_velocities_from_ring_vortices_chordwise_segments(points, back_right_vortex_vertices, front_right_vortex_vertices, front_left_vortex_vertices, back_left_vortex_vertices, strengths, ages=None, nu=0.0):
    right = collapsed_velocities_from_line_vortices(points, back_right_vortex_vertices, front_right_vortex_vertices, strengths, ages, nu)
    left = collapsed_velocities_from_line_vortices(points, front_left_vortex_vertices, back_left_vortex_vertices, strengths, ages, nu)
    return left + right
'''),
("def", "aerodynamics.py", "LineVortex.__init__", '''
def __init__(self, origin, termination, strength):
    self.origin, self.termination, self.strength = origin, termination, strength
    self.vector = termination - origin
    self.center = (origin + termination) / 2
'''),
("def", "aerodynamics.py", "HorseshoeVortex.update_strength", '''
def update_strength(self, strength):
    self.strength = strength
    for leg in (self.right_leg, self.finite_leg, self.left_leg):
        leg.strength = strength
'''),
("def", "aerodynamics.py", "RingVortex.update_position", '''
def update_position(self, front_left_vertex, front_right_vertex, back_left_vertex, back_right_vertex):
    self._place(front_left_vertex, front_right_vertex, back_left_vertex, back_right_vertex)

def _place(self, fl, fr, bl, br):
    self.front_left_vertex = fl
    self.front_right_vertex = fr
    self.back_left_vertex = bl
    self.back_right_vertex = br
    corners = [fr, fl, bl, br]
    legs = [LineVortex(corners[i], corners[(i + 1) % 4], self.strength) for i in range(4)]
    self.front_leg, self.left_leg, self.back_leg, self.right_leg = legs
    self.center = functions.numba_centroid_of_quadrilateral(fl, fr, bl, br)
'''),
("def", "aerodynamics.py", "RingVortex.__init__", '''
def __init__(self, front_left_vertex, front_right_vertex, back_left_vertex, back_right_vertex, strength):
    self.strength = strength
    self._place(front_left_vertex, front_right_vertex, back_left_vertex, back_right_vertex)
    self.age = 0
'''),
("def", "aerodynamics.py", "RingVortex.update_strength", '''
def update_strength(self, strength):
    for holder in [self, self.front_leg, self.left_leg, self.back_leg, self.right_leg]:
        setattr(holder, "strength", strength)
'''),
("def", "functions.py", "cosspace", '''
def cosspace(minimum, maximum, n_points=50, endpoint=True):
    theta = np.linspace(0, np.pi, n_points, endpoint=endpoint)
    return minimum + (maximum - minimum) * (1 - np.cos(theta)) / 2
'''),
("def", "functions.py", "angle_axis_rotation_matrix", '''
def angle_axis_rotation_matrix(angle, axis, axis_already_normalized=False):
    u = axis if axis_already_normalized else axis / np.linalg.norm(axis)
    s, c = np.sin(angle), np.cos(angle)
    skew = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return c * np.eye(3) + s * skew + (1 - c) * np.outer(u, u)
'''),
("def", "functions.py", "numba_centroid_of_quadrilateral", '''
@njit(cache=True, fastmath=False)
def numba_centroid_of_quadrilateral(front_left_vertex, front_right_vertex, back_left_vertex, back_right_vertex):
    centroid = np.zeros(3)
    for i in range(3):
        centroid[i] = 0.25 * (front_left_vertex[i] + front_right_vertex[i] + back_left_vertex[i] + back_right_vertex[i])
    return centroid
'''),
("def", "functions.py", "calculate_streamlines", '''
def calculate_streamlines(solver, num_steps=25, delta_time=0.02):
    rows = [solver.seed_points]
    while len(rows) <= num_steps:
        rows.append(rows[-1] + delta_time * solver.calculate_solution_velocity(points=rows[-1]))
    solver.streamline_points = np.stack(rows, axis=0)
'''),
("def", "functions.py", "reflect_point_across_plane", '''
def reflect_point_across_plane(point, plane_unit_normal, plane_point):
    distance = np.dot(point - plane_point, plane_unit_normal)
    return point - 2 * distance * plane_unit_normal
'''),
("def", "functions.py", "interp_between_points", '''
def interp_between_points(start_points, end_points, norm_spacings):
    vectors = (end_points - start_points)[:, None, :]
    return start_points[:, None, :] + norm_spacings[None, :, None] * vectors
'''),
("def", "functions.py", "numba_1d_explicit_cross", '''
def numba_1d_explicit_cross(vectors_1, vectors_2):
    return np.cross(vectors_1, vectors_2)
'''),
("def", "functions.py", "convert_logging_level_name_to_value", '''
def convert_logging_level_name_to_value(name):
    for level in ("Debug", "Info", "Warning", "Error", "Critical"):
        if name == level:
            return getattr(logging, level.upper())
    raise Exception("The name of the logging level provided is not a valid option.")
'''),
("def", "functions.py", "process_steady_solver_forces", '''
def process_steady_solver_forces(steady_solver, near_field_forces_geometry_axes, near_field_moments_geometry_axes):
    _process_forces(steady_solver.panels, steady_solver.airplanes, steady_solver.operating_point, near_field_forces_geometry_axes, near_field_moments_geometry_axes)


def _process_forces(panels, airplanes, operating_point, forces, moments):
    q = operating_point.calculate_dynamic_pressure()
    to_wind = operating_point.calculate_rotation_matrix_wind_to_geometry().T
    for panel, force, moment in zip(panels, forces, moments):
        panel.near_field_force_geometry_axes = force
        panel.near_field_moment_geometry_axes = moment
        panel.near_field_force_wind_axes = to_wind @ force
        panel.near_field_moment_wind_axes = to_wind @ moment
        panel.update_coefficients(q)
    for airplane in airplanes:
        members = [p for wing in airplane.wings for p in wing.panels.flatten()]
        total_force = to_wind @ np.sum([p.near_field_force_geometry_axes for p in members], axis=0)
        total_moment = to_wind @ np.sum([p.near_field_moment_geometry_axes for p in members], axis=0)
        airplane.total_near_field_force_wind_axes = total_force
        airplane.total_near_field_moment_wind_axes = total_moment
        qs = q * airplane.s_ref
        airplane.total_near_field_force_coefficients_wind_axes = np.array([-1, 1, -1]) * total_force / qs
        airplane.total_near_field_moment_coefficients_wind_axes = total_moment / (qs * np.array([airplane.b_ref, airplane.c_ref, airplane.b_ref]))
'''),
("def", "functions.py", "process_unsteady_solver_forces", '''
def process_unsteady_solver_forces(unsteady_solver, near_field_forces_geometry_axes, near_field_moments_geometry_axes):
    _process_forces(
        unsteady_solver.panels,
        unsteady_solver.current_airplanes,
        unsteady_solver.current_operating_point,
        near_field_forces_geometry_axes,
        near_field_moments_geometry_axes,
    )
'''),
("def", "functions.py", "calculate_steady_freestream_wing_influences", '''
def calculate_steady_freestream_wing_influences(steady_solver):
    steady_solver.freestream_wing_influences = steady_solver.panel_normal_directions @ steady_solver.freestream_velocity
'''),
("def", "operating_point.py", "OperatingPoint.calculate_rotation_matrix_wind_to_geometry", '''
def calculate_rotation_matrix_wind_to_geometry(self):
    alpha, beta = np.deg2rad(self.alpha), np.deg2rad(self.beta)
    sa, ca, sb, cb = np.sin(alpha), np.cos(alpha), np.sin(beta), np.cos(beta)
    return np.array([[-ca * cb, ca * sb, sa], [sb, cb, 0], [-sa * cb, sa * sb, -ca]])
'''),
("def", "operating_point.py", "OperatingPoint.calculate_freestream_direction_geometry_axes", '''
def calculate_freestream_direction_geometry_axes(self):
    return -self.calculate_rotation_matrix_wind_to_geometry()[:, 0]
'''),
("def", "operating_point.py", "OperatingPoint.calculate_dynamic_pressure", '''
def calculate_dynamic_pressure(self):
    return self.density * self.velocity * self.velocity / 2
'''),
("def", "panel.py", "Panel.collocation_point", '''
@property
def collocation_point(self):
    right = self.front_right_vertex + 0.75 * (self.back_right_vertex - self.front_right_vertex)
    left = self.front_left_vertex + 0.75 * (self.back_left_vertex - self.front_left_vertex)
    return (right + left) / 2
'''),
("def", "panel.py", "Panel.area", '''
@property
def area(self):
    normal = self._cross
    return 0.5 * np.sqrt(normal @ normal)
'''),
("def", "panel.py", "Panel.front_right_vortex_vertex", '''
@property
def front_right_vortex_vertex(self):
    return 0.75 * self.front_right_vertex + 0.25 * self.back_right_vertex
'''),
("def", "panel.py", "Panel.calculate_projected_area", '''
def calculate_projected_area(self, n_hat):
    a, b = [d - np.dot(d, n_hat) * n_hat for d in (self._first_diagonal, self._second_diagonal)]
    return np.linalg.norm(np.cross(a, b)) / 2
'''),
("def", "panel.py", "Panel.update_coefficients", '''
def update_coefficients(self, dynamic_pressure):
    scale = 1 / (self.area * dynamic_pressure)
    x, y, z = self.near_field_force_wind_axes
    self.induced_drag_coefficient, self.side_force_coefficient, self.lift_coefficient = -x * scale, y * scale, -z * scale
'''),
]

B = BUNDLES["B"] = []
B += [
("def", "steady_horseshoe_vortex_lattice_method.py", "SteadyHorseshoeVortexLatticeMethodSolver.calculate_near_field_forces_and_moments", '''
def calculate_near_field_forces_and_moments(self):
    rho_gamma = self.operating_point.density * self.vortex_strengths
    velocities = self.calculate_solution_velocity(self.panel_bound_vortex_centers)
    forces = rho_gamma[:, np.newaxis] * np.cross(velocities, self.panel_bound_vortex_vectors)
    arms = self.panel_bound_vortex_centers - self.panel_moment_references
    functions.process_steady_solver_forces(self, forces, np.cross(arms, forces))
'''),
("def", "steady_horseshoe_vortex_lattice_method.py", "SteadyHorseshoeVortexLatticeMethodSolver.calculate_wing_wing_influences", '''
def calculate_wing_wing_influences(self):
    velocities = self._unit_velocities(self.panel_collocation_points)
    self.wing_wing_influences = np.sum(velocities * self.panel_normal_directions[:, None, :], axis=-1)

def _unit_velocities(self, points):
    return aerodynamics.expanded_velocities_from_horseshoe_vortices(
        points, self.panel_back_right_vortex_vertices, self.panel_front_right_vortex_vertices,
        self.panel_front_left_vortex_vertices, self.panel_back_left_vortex_vertices, np.ones(self.num_panels))
'''),
("def", "steady_horseshoe_vortex_lattice_method.py", "SteadyHorseshoeVortexLatticeMethodSolver.calculate_vortex_strengths", '''
def calculate_vortex_strengths(self):
    strengths = -np.linalg.solve(self.wing_wing_influences, self.freestream_wing_influences)
    for panel, strength in zip(self.panels, strengths):
        panel.horseshoe_vortex.update_strength(strength)
    self.vortex_strengths = strengths
'''),
("def", "steady_horseshoe_vortex_lattice_method.py", "SteadyHorseshoeVortexLatticeMethodSolver.collapse_geometry", '''
def collapse_geometry(self):
    seeds = []
    everything = [(airplane, panel) for airplane in self.airplanes for wing in airplane.wings for panel in wing.panels.ravel()]
    for i, (airplane, panel) in enumerate(everything):
        vortex = panel.horseshoe_vortex
        self.panels[i] = panel
        self.panel_normal_directions[i] = panel.unit_normal
        self.panel_areas[i] = panel.area
        self.panel_collocation_points[i] = panel.collocation_point
        self.panel_back_right_vortex_vertices[i] = vortex.right_leg.origin
        self.panel_front_right_vortex_vertices[i] = vortex.right_leg.termination
        self.panel_front_left_vortex_vertices[i] = vortex.left_leg.origin
        self.panel_back_left_vortex_vertices[i] = vortex.left_leg.termination
        self.panel_bound_vortex_centers[i] = vortex.finite_leg.center
        self.panel_bound_vortex_vectors[i] = vortex.finite_leg.vector
        self.panel_moment_references[i] = airplane.xyz_ref
        if panel.is_trailing_edge:
            seeds.append((panel.back_left_vertex + panel.back_right_vertex) / 2)
    self.seed_points = np.array(seeds)
'''),
("def", "steady_horseshoe_vortex_lattice_method.py", "SteadyHorseshoeVortexLatticeMethodSolver.initialize_panel_vortices", '''
def initialize_panel_vortices(self):
    direction = self.operating_point.calculate_freestream_direction_geometry_axes()
    for airplane in self.airplanes:
        for wing in airplane.wings:
            length = 20 * wing.span
            for panel in np.ravel(wing.panels):
                panel.horseshoe_vortex = aerodynamics.HorseshoeVortex(
                    panel.front_right_vortex_vertex, panel.front_left_vortex_vertex, None, direction, length)
'''),
("def", "steady_ring_vortex_lattice_method.py", "SteadyRingVortexLatticeMethodSolver.calculate_near_field_forces_and_moments", '''
def calculate_near_field_forces_and_moments(self):
    right, front, left = [], [], []
    for airplane in self.airplanes:
        for wing in airplane.wings:
            for panel in np.ravel(wing.panels):
                i, j = panel.local_chordwise_position, panel.local_spanwise_position
                own = panel.ring_vortex.strength
                right.append(own if panel.is_right_edge else own - wing.panels[i, j + 1].ring_vortex.strength)
                front.append(own if panel.is_leading_edge else own - wing.panels[i - 1, j].ring_vortex.strength)
                left.append(own if panel.is_left_edge else own - wing.panels[i, j - 1].ring_vortex.strength)
    total_force = np.zeros((self.num_panels, 3))
    total_moment = np.zeros((self.num_panels, 3))
    for strengths, centers, vectors in (
        (right, self.panel_right_vortex_centers, self.panel_right_vortex_vectors),
        (front, self.panel_front_vortex_centers, self.panel_front_vortex_vectors),
        (left, self.panel_left_vortex_centers, self.panel_left_vortex_vectors),
    ):
        force = self._leg_force(np.array(strengths), centers, vectors)
        total_force += force
        total_moment += np.cross(centers - self.panel_moment_references, force)
    functions.process_steady_solver_forces(self, total_force, total_moment)

def _leg_force(self, strengths, centers, vectors):
    velocities = self.calculate_solution_velocity(centers)
    return self.operating_point.density * strengths[:, None] * np.cross(velocities, vectors)
'''),
("def", "steady_ring_vortex_lattice_method.py", "SteadyRingVortexLatticeMethodSolver.calculate_vortex_strengths", '''
def calculate_vortex_strengths(self):
    self.vortex_strengths = np.linalg.solve(-self.wing_wing_influences, self.freestream_wing_influences)
    for i, panel in enumerate(self.panels):
        gamma = self.vortex_strengths[i]
        panel.ring_vortex.update_strength(gamma)
        if panel.horseshoe_vortex is None:
            continue
        panel.horseshoe_vortex.update_strength(gamma)
        self.horseshoe_vortex_strengths[i] = gamma
'''),
("def", "steady_ring_vortex_lattice_method.py", "SteadyRingVortexLatticeMethodSolver.calculate_solution_velocity", '''
def calculate_solution_velocity(self, points):
    velocity = np.zeros((points.shape[0], 3)) + self.freestream_velocity
    velocity += aerodynamics.collapsed_velocities_from_ring_vortices(
        points,
        self.panel_back_right_vortex_vertices,
        self.panel_front_right_vortex_vertices,
        self.panel_front_left_vortex_vertices,
        self.panel_back_left_vortex_vertices,
        self.vortex_strengths,
    )
    velocity += aerodynamics.collapsed_velocities_from_horseshoe_vortices(
        points,
        self.horseshoe_vortex_back_right_vertex,
        self.horseshoe_vortex_front_right_vertex,
        self.horseshoe_vortex_front_left_vertex,
        self.horseshoe_vortex_back_left_vertex,
        self.horseshoe_vortex_strengths,
    )
    return velocity
'''),
("sub", "unsteady_ring_vortex_lattice_method.py", "        total_vortex_velocities = velocities_from_wings + velocities_from_wake", "        unused = None\n        total_vortex_velocities = velocities_from_wake + velocities_from_wings"),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.calculate_current_flapping_velocities_at_right_leg_centers", '''
def calculate_current_flapping_velocities_at_right_leg_centers(self):
    return self._apparent_velocity(self.panel_right_vortex_centers, self.last_panel_right_vortex_centers)

def _apparent_velocity(self, now, before):
    if self.current_step == 0:
        return np.zeros((self.num_panels, 3))
    return (before - now) / self.delta_time
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.calculate_current_flapping_velocities_at_front_leg_centers", '''
def calculate_current_flapping_velocities_at_front_leg_centers(self):
    return self._apparent_velocity(self.panel_front_vortex_centers, self.last_panel_front_vortex_centers)
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.calculate_current_flapping_velocities_at_left_leg_centers", '''
def calculate_current_flapping_velocities_at_left_leg_centers(self):
    return self._apparent_velocity(self.panel_left_vortex_centers, self.last_panel_left_vortex_centers)
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.calculate_current_flapping_velocities_at_collocation_points", '''
def calculate_current_flapping_velocities_at_collocation_points(self):
    return self._apparent_velocity(self.panel_collocation_points, self.last_panel_collocation_points)
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.calculate_freestream_wing_influences", '''
def calculate_freestream_wing_influences(self):
    relative = self.current_freestream_velocity_geometry_axes + self.calculate_current_flapping_velocities_at_collocation_points()
    self.current_freestream_wing_influences = np.sum(self.panel_normal_directions * relative, axis=1)
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.calculate_vortex_strengths", '''
def calculate_vortex_strengths(self):
    right_hand_side = -(self.current_wake_wing_influences + self.current_freestream_wing_influences)
    self.current_vortex_strengths = np.linalg.solve(self.current_wing_wing_influences, right_hand_side)
    for panel, strength in zip(self.panels, self.current_vortex_strengths):
        panel.ring_vortex.update_strength(strength)
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.populate_next_airplanes_wake_vortex_vertices", '''
def populate_next_airplanes_wake_vortex_vertices(self, prescribed_wake=True):
    if self.current_step >= self.num_steps - 1:
        return
    following = self.steady_problems[self.current_step + 1].airplanes
    for this_airplane, next_airplane in zip(self.current_airplanes, following):
        for this_wing, next_wing in zip(this_airplane.wings, next_airplane.wings):
            last_row = next_wing.panels[-1]
            new_row = np.array([[p.ring_vortex.back_left_vertex for p in last_row] + [last_row[-1].ring_vortex.back_right_vertex]])
            old = new_row if self.current_step == 0 else this_wing.wake_ring_vortex_vertices
            moved = self._convect(old, prescribed_wake)
            next_wing.wake_ring_vortex_vertices = np.concatenate((new_row, moved), axis=0)

def _convect(self, vertices, prescribed_wake):
    if prescribed_wake:
        velocity = self.current_freestream_velocity_geometry_axes
    else:
        velocity = self.calculate_solution_velocity(vertices.reshape(-1, 3)).reshape(vertices.shape)
    return vertices + velocity * self.delta_time
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.populate_next_airplanes_wake_vortices", '''
def populate_next_airplanes_wake_vortices(self):
    if self.current_step == self.num_steps - 1:
        return
    following = self.steady_problems[self.current_step + 1].airplanes
    for this_airplane, next_airplane in zip(self.current_airplanes, following):
        for this_wing, next_wing in zip(this_airplane.wings, next_airplane.wings):
            v = next_wing.wake_ring_vortex_vertices
            rows, columns = v.shape[0] - 1, v.shape[1] - 1
            grid = np.empty((rows, columns), dtype=object)
            for j in range(columns):
                strength = this_wing.panels[this_wing.num_chordwise_panels - 1, j].ring_vortex.strength
                grid[0, j] = aerodynamics.RingVortex(v[0, j], v[0, j + 1], v[1, j], v[1, j + 1], strength)
            for i in range(1, rows):
                for j in range(columns):
                    vortex = this_wing.wake_ring_vortices[i - 1, j]
                    vortex.update_position(v[i, j], v[i, j + 1], v[i + 1, j], v[i + 1, j + 1])
                    vortex.age += self.delta_time
                    grid[i, j] = vortex
            next_wing.wake_ring_vortices = grid
'''),
("def", "unsteady_ring_vortex_lattice_method.py", "UnsteadyRingVortexLatticeMethodSolver.finalize_near_field_forces_and_moments", '''
def finalize_near_field_forces_and_moments(self):
    problem = self.unsteady_problem
    names = {
        "forces": "total_near_field_force_wind_axes",
        "force_coefficients": "total_near_field_force_coefficients_wind_axes",
        "moments": "total_near_field_moment_wind_axes",
        "moment_coefficients": "total_near_field_moment_coefficients_wind_axes",
    }
    for name, attribute in names.items():
        final = getattr(problem, "final_near_field_" + name + "_wind_axes")
        means = getattr(problem, "final_mean_near_field_" + name + "_wind_axes")
        rmss = getattr(problem, "final_rms_near_field_" + name + "_wind_axes")
        del final[:], means[:], rmss[:]
        for airplane_id in range(self.num_airplanes):
            history = np.array([
                getattr(self.steady_problems[step].airplanes[airplane_id], attribute)
                for step in range(self.first_averaging_step, self.num_steps)
            ])
            if problem.max_period == 0:
                final.append(history[-1])
            else:
                means.append(history.mean(axis=0))
                rmss.append(np.sqrt(np.mean(history ** 2, axis=0)))
'''),
("def", "meshing.py", "get_wing_section_panels", '''
def get_wing_section_panels(front_left_vertices, front_right_vertices, back_left_vertices, back_right_vertices, is_trailing_edge, is_leading_edge):
    panels = np.empty(front_left_vertices.shape[:2], dtype=object)
    for index in np.ndindex(panels.shape):
        panels[index] = panel.Panel(
            front_right_vertices[index], front_left_vertices[index], back_left_vertices[index], back_right_vertices[index],
            is_leading_edge[index], is_trailing_edge[index])
    return panels
'''),
("def", "meshing.py", "get_transpose_mcl_vectors", '''
def get_transpose_mcl_vectors(inner_airfoil, outer_airfoil, chordwise_coordinates):
    result = []
    for airfoil in (inner_airfoil, outer_airfoil):
        mcl = airfoil.get_downsampled_mcl(chordwise_coordinates)
        result.append(mcl[:, 1][:, None])
        result.append(mcl[:, 0].reshape(-1, 1))
    return result
'''),
("def", "meshing.py", "get_wing_section_panel_vertices", '''
def get_wing_section_panel_vertices(wing_leading_edge, inner_wing_cross_section, outer_wing_cross_section, transpose_mcl_vectors, spanwise_coordinates):
    lines = []
    for section, (up, back) in zip((inner_wing_cross_section, outer_wing_cross_section), (transpose_mcl_vectors[:2], transpose_mcl_vectors[2:])):
        offset = section.chord * (section.unit_chordwise_vector * back + section.unit_up_vector * up)
        lines.append(wing_leading_edge + section.leading_edge + offset)
    vertices = functions.interp_between_points(lines[0], lines[1], spanwise_coordinates)
    return [vertices[:-1, :-1], vertices[:-1, 1:], vertices[1:, :-1], vertices[1:, 1:]]
'''),
("sub", "meshing.py", "            if spanwise_position == 0:\n                this_panel.is_left_edge = True\n            else:\n                this_panel.is_left_edge = False\n", "            this_panel.is_left_edge = spanwise_position == 0\n"),
]

C = BUNDLES["C"] = []
C += [
("def", "geometry.py", "Wing.projected_area", '''
@property
def projected_area(self):
    up = self.unit_up_vector
    return sum(panel.calculate_projected_area(up) for panel in self.panels.flat)
'''),
("def", "geometry.py", "Wing.wetted_area", '''
@property
def wetted_area(self):
    return np.sum([[panel.area for panel in row] for row in self.panels])
'''),
("def", "geometry.py", "Wing.span", '''
@property
def span(self):
    tip, root = self.wing_cross_sections[-1], self.wing_cross_sections[0]
    half = abs((tip.leading_edge - root.leading_edge) @ self.unit_normal_vector) * np.linalg.norm(self.unit_normal_vector)
    return 2 * half if self.symmetric else half
'''),
("def", "geometry.py", "Wing.mean_aerodynamic_chord", '''
@property
def mean_aerodynamic_chord(self):
    def strip(inner, outer):
        step = np.dot(outer.leading_edge - inner.leading_edge, self.unit_normal_vector) * self.unit_normal_vector
        a, b = inner.chord, outer.chord
        return np.linalg.norm(step) * (a * a + a * b + b * b) / 3

    sections = self.wing_cross_sections
    total = sum(strip(a, b) for a, b in zip(sections[:-1], sections[1:]))
    return (2 if self.symmetric else 1) * total / self.projected_area
'''),
("def", "geometry.py", "WingCrossSection.unit_chordwise_vector", '''
@property
def unit_chordwise_vector(self):
    return functions.angle_axis_rotation_matrix(np.radians(self.twist), self.unit_normal_vector).dot(self.wing_unit_chordwise_vector)
'''),
("def", "geometry.py", "Airfoil.leading_edge_index", '''
def leading_edge_index(self):
    return self.coordinates[:, 0].argmin()
'''),
("def", "geometry.py", "Airfoil.get_downsampled_mcl", '''
def get_downsampled_mcl(self, mcl_fractions):
    x, y = self.mcl_coordinates[:, 0], self.mcl_coordinates[:, 1]
    lengths = np.hypot(np.diff(x), np.diff(y))
    s = np.concatenate(([0.0], np.cumsum(lengths)))
    s = s / s[-1]
    return np.stack([np.interp(mcl_fractions, s, x), np.interp(mcl_fractions, s, y)], axis=1)
'''),
("def", "geometry.py", "Airfoil.populate_mcl_coordinates", '''
def populate_mcl_coordinates(self):
    upper = self.upper_coordinates()[::-1]
    lower = self.lower_coordinates()
    self.mcl_coordinates = 0.5 * (lower + upper)
    self.upper_minus_mcl = upper - self.mcl_coordinates
    self.thickness = np.stack((self.mcl_coordinates[:, 0], 2 * np.linalg.norm(self.upper_minus_mcl, axis=1)), axis=1)
'''),
("sub", "geometry.py", "        if deflection > 90 or deflection < -90:", "        if not -90 <= deflection <= 90:"),
("def", "problems.py", "UnsteadyProblem.__init__", '''
def __init__(self, movement, only_final_results=False):
    self.movement = movement
    self.only_final_results = only_final_results
    self.num_steps, self.delta_time = movement.num_steps, movement.delta_time
    self.max_period = movement.get_max_period()
    start = self.num_steps - 1
    if self.max_period != 0:
        start = max(0, math.floor(self.num_steps - self.max_period / self.delta_time))
    self.first_averaging_step = start
    self.first_results_step = start if only_final_results else 0
    for kind in ("", "mean_", "rms_"):
        for what in ("forces", "force_coefficients", "moments", "moment_coefficients"):
            setattr(self, "final_" + kind + "near_field_" + what + "_wind_axes", [])
    self.steady_problems = [
        SteadyProblem([history[step] for history in movement.airplanes], movement.operating_points[step])
        for step in range(self.num_steps)
    ]
'''),
("def", "movement.py", "oscillating_sinspace", '''
def oscillating_sinspace(amplitude, period, base_value, num_steps, delta_time):
    if amplitude == 0 or period == 0:
        return np.full(num_steps, base_value)
    times = delta_time * np.arange(num_steps)
    return base_value + amplitude * np.sin(2 * np.pi * times / period)
'''),
("def", "movement.py", "oscillating_customspace", '''
def oscillating_customspace(amplitude, period, base_value, num_steps, delta_time, custom_function):
    if amplitude == 0 or period == 0:
        return np.ones(num_steps) * base_value
    phases = 2 * np.pi / period * np.linspace(0, num_steps * delta_time, num_steps, endpoint=False)
    return amplitude * custom_function(phases) + base_value
'''),
("def", "movement.py", "Movement.get_max_period", '''
def get_max_period(self):
    return max([m.get_max_period() for m in self.airplane_movements] + [self.operating_point_movement.get_max_period()])
'''),
("def", "movement.py", "AirplaneMovement.get_max_period", '''
def get_max_period(self):
    longest = max(m.get_max_period() for m in self.wing_movements)
    for period in (self.x_ref_period, self.y_ref_period, self.z_ref_period):
        if period > longest:
            longest = period
    return longest
'''),
("def", "movement.py", "WingMovement.get_max_period", '''
def get_max_period(self):
    periods = [m.get_max_period() for m in self.wing_cross_section_movements]
    periods += [self.x_le_period, self.y_le_period, self.z_le_period]
    return max(periods)
'''),
("def", "movement.py", "AirplaneMovement.generate_airplanes", '''
def generate_airplanes(self, num_steps=10, delta_time=0.1):
    base = self.base_airplane
    refs = [
        _history(getattr(self, axis + "_ref_spacing"), axis + "_ref_spacing", getattr(self, axis + "_ref_amplitude"),
                 getattr(self, axis + "_ref_period"), getattr(self, axis + "_ref_base"), num_steps, delta_time)
        for axis in "xyz"
    ]
    all_wings = [m.generate_wings(num_steps=num_steps, delta_time=delta_time) for m in self.wing_movements]
    return [
        geometry.Airplane(
            name=base.name, wings=[wings[step] for wings in all_wings], weight=base.weight,
            x_ref=refs[0][step], y_ref=refs[1][step], z_ref=refs[2][step],
            s_ref=base.s_ref, c_ref=base.c_ref, b_ref=base.b_ref)
        for step in range(num_steps)
    ]
'''),
("end", "movement.py", '''

def _history(spacing, label, amplitude, period, base_value, num_steps, delta_time):
    functions_by_name = {"sine": oscillating_sinspace, "uniform": oscillating_linspace}
    if spacing not in functions_by_name:
        raise Exception("Bad value of " + label + "!")
    return functions_by_name[spacing](amplitude, period, base_value, num_steps, delta_time)
'''),
("def", "movement.py", "OperatingPointMovement.generate_operating_points", '''
def generate_operating_points(self, num_steps=10, delta_time=0.1):
    base = self.base_operating_point
    velocities = _history(self.velocity_spacing, "velocity_spacing", self.velocity_amplitude, self.velocity_period,
                          self.velocity_base, num_steps, delta_time)
    return [
        operating_point.OperatingPoint(base.density, velocity, base.alpha, base.beta, base.external_thrust, base.nu)
        for velocity in velocities
    ]
'''),
("def", "output.py", "get_scalars", '''
def get_scalars(airplanes, scalar_type):
    attribute = {"induced drag": "induced_drag_coefficient", "side force": "side_force_coefficient", "lift": "lift_coefficient"}.get(scalar_type)
    if attribute is None:
        return np.empty(0)
    return np.array([getattr(p, attribute) for a in airplanes for w in a.wings for p in w.panels.ravel()])
'''),
("def", "output.py", "get_panel_surfaces", '''
def get_panel_surfaces(airplanes):
    panels = [p for a in airplanes for w in a.wings for p in np.ravel(w.panels)]
    vertices = np.array([
        corner for p in panels
        for corner in (p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex)
    ])
    faces = np.hstack([[4] + list(range(4 * k, 4 * k + 4)) for k in range(len(panels))])
    return pv.PolyData(vertices, faces)
'''),
("def", "output.py", "get_wake_ring_vortex_surfaces", '''
def get_wake_ring_vortex_surfaces(solver, step):
    count = solver.num_wake_ring_vortices_list[step]
    corners = [
        solver.wake_ring_vortex_front_left_vertices_list[step],
        solver.wake_ring_vortex_front_right_vertices_list[step],
        solver.wake_ring_vortex_back_right_vertices_list[step],
        solver.wake_ring_vortex_back_left_vertices_list[step],
    ]
    vertices = np.zeros((4 * count, 3))
    faces = np.zeros((count, 5), dtype=int)
    for k in range(count):
        faces[k] = [4, 4 * k, 4 * k + 1, 4 * k + 2, 4 * k + 3]
        for c, corner in enumerate(corners):
            vertices[4 * k + c] = corner[k]
    return pv.PolyData(vertices, faces.reshape(-1))
'''),
("sub", "output.py", "np.round(airplane.total_near_field_force_wind_axes[1], 3)", "round(airplane.total_near_field_force_wind_axes[1], 3)"),
("sub", "trim.py", "objective = (abs(net_force_coefficient) + abs(net_moment_coefficient)) / 2", "objective = 0.5 * (net_force_coefficient + net_moment_coefficient)"),
("sub", "trim.py", "base_velocity < velocity_bounds[0] or base_velocity > velocity_bounds[1]", "not (velocity_bounds[0] <= base_velocity <= velocity_bounds[1])"),
("sub", "trim.py", '        v_str = str(round(velocity, 2))\n', '        v_str = "{}".format(round(velocity, 2))\n'),
("sub", "convergence.py", "section_standard_mean_chord = section_area / section_length", "section_standard_mean_chord = 0.5 * (root_chord + tip_chord)"),
("sub", "convergence.py", "ar_passed = ar_converged or single_ar or ar_saturated", "ar_passed = single_ar or ar_saturated or ar_converged"),
("sub", "convergence.py", "wake_saturated = not wake", "wake_saturated = wake is False"),
]
