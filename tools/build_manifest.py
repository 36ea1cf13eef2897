"""Writes properties.jsonl and MANIFEST.json from the list below: python3 tools/build_manifest.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, A, P = "pterasoftware/functions.py", "pterasoftware/aerodynamics.py", "pterasoftware/panel.py"
G, M, MV = "pterasoftware/geometry.py", "pterasoftware/meshing.py", "pterasoftware/movement.py"
O, PR = "pterasoftware/operating_point.py", "pterasoftware/problems.py"
SH, SR, UR = ("pterasoftware/steady_horseshoe_vortex_lattice_method.py", "pterasoftware/steady_ring_vortex_lattice_method.py",
              "pterasoftware/unsteady_ring_vortex_lattice_method.py")
T, C, OUT = "pterasoftware/trim.py", "pterasoftware/convergence.py", "pterasoftware/output.py"

TESTS_FEW = ("The quantifier is over a continuum of inputs; the existing tests run a handful of fixed configurations and mostly "
             "check that nothing raises, so a wrong sign, index or term that leaves the result finite passes.")

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=None, level_extra=""):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=note, observe=observe or []))


prop("P01", "Wind axes, freestream and dynamic pressure",
     "For every air density, speed, angle of attack and sideslip, the dynamic pressure is half density times speed squared, and the "
     "freestream velocity in geometry axes has that speed and the direction (cos a cos b, -sin b, sin a cos b). The wind-to-geometry "
     "rotation is a proper rotation whose wind x axis points into the stream, whose wind z axis lies in the aircraft symmetry plane "
     "pointing down, and whose y axis completes the right-handed triad, for the values the operating point holds when asked.",
     ["inputs"], "all densities, speeds and both angles over the full circle", TESTS_FEW,
     [O], [("wind axes", O + ":OperatingPoint.calculate_rotation_matrix_wind_to_geometry"),
           ("freestream", O + ":OperatingPoint.calculate_freestream_direction_geometry_axes"),
           ("dynamic pressure", O + ":OperatingPoint.calculate_dynamic_pressure")],
     "the three real methods run on symbolic density, speed and angles; sines and cosines are related by their defining identities")

prop("P02", "Velocity induced by a line vortex filament",
     "The velocity induced at a point by a straight vortex filament of given end points, strength and age equals the Biot-Savart law "
     "for a finite filament, regularised by a viscous core of radius 2 sqrt(1.25643 (nu + 1e-4 |strength|) age), directed by the right-hand rule "
     "from origin to termination. It is exactly zero for points at an end point of the filament or on its line, and is given by the law everywhere not within "
     "round-off of those. This holds for both the summed and the per-vortex evaluation, for any number of points and filaments.",
     ["inputs"], "all points, end points, strengths of both signs, ages and viscosities", TESTS_FEW,
     [A], [("summed kernel", A + ":collapsed_velocities_from_line_vortices"), ("per-vortex kernel", A + ":expanded_velocities_from_line_vortices")],
     "the real kernels run on symbolic geometry and are compared with the law written in its other textbook form")

prop("P03", "Compound vortex velocities are sums over their legs",
     "The velocity induced by a set of ring (or horseshoe) vortices at a set of points is the sum over vortices of the velocity induced by "
     "the straight legs joining back-right to front-right to front-left to back-left (closing from back-left to back-right for rings, and only the two "
     "streamwise legs for the chordwise-segment variant), each leg with its vortex's own strength and age and the given viscosity. Summed evaluation equals the sum of the "
     "per-vortex evaluation, whose entry (point, vortex) is that vortex's contribution at that point.",
     ["inputs"], "any sets of points and vortices, strengths, ages, viscosity", TESTS_FEW,
     [A], [("ring and horseshoe sums", A + ":collapsed_velocities_from_ring_vortices")],
     "the real functions run on symbolic vertices, strengths and ages, with the line kernel replaced by an uninterpreted function of end points, point and core parameters (P02 decides the kernel)")

prop("P04", "Vortex objects stay consistent under updates",
     "A line, horseshoe or ring vortex always presents legs that run head to tail through its vertices in one circulation sense, with the vectors and midpoints of those legs "
     "and the vertex centroid matching, and every leg carrying the vortex's current strength. Any sequence of strength and position updates leaves the object as if it had been "
     "freshly built with the latest values, and never alters a ring vortex's age.",
     ["inputs", "histories"], "all vertices and strengths, update sequences up to length three", TESTS_FEW,
     [A], [("vortex classes", A + ":RingVortex.update_position"), ("strength updates", A + ":HorseshoeVortex.update_strength")],
     "constructors and update methods run on symbolic vertices and strengths over all update sequences up to length 3 (quick) or 4 (thorough)")

prop("P05", "Panel geometry",
     "For every quadrilateral panel the bound-vortex points are the quarter-chord points of its sides, the collocation point is the midpoint of the three-quarter-chord line, "
     "the area is half the magnitude of the cross product of the diagonals and the unit normal is the direction of (front right - back left) x (front left - back right). "
     "The unit spanwise and chordwise vectors and the average span and chord follow from the side vectors, the projected area onto a plane is the area of the panel's shadow on it, "
     "and the panel's force coefficients are its wind-axis forces over its area and the dynamic pressure with drag and lift opposite to wind x and z.",
     ["inputs"], "all vertex positions with non-degenerate diagonals", TESTS_FEW,
     [P], [("panel properties", P + ":Panel"), ("coefficients", P + ":Panel.update_coefficients")],
     "every property of the real Panel runs on twelve symbolic vertex coordinates; also the induced velocity of a panel's own vortices")

prop("P06", "Wing meshes tile the wing",
     "Meshing a wing produces a grid whose rows run from leading to trailing edge and whose columns run from the first wing section to the last (mirrored span first), with the "
     "requested chordwise and spanwise counts, where neighbouring panels share vertices exactly and edge flags and local indices match each panel's place in the grid. "
     "Panel vertices interpolate linearly between the camber-line points of the two bounding sections at the requested spacing: a section's camber line is its airfoil's, scaled by its chord, turned by its twist about its own plane's normal and placed at its leading edge, and both sections bounding a strip of panels carry the inner section's control surface deflection.",
     ["inputs", "configurations"], "section positions, chords, twists, camber lines, spacings, panel counts, two or three sections, symmetric or not", TESTS_FEW,
     [M, G], [("meshing", M + ":mesh_wing"), ("cross-section points", M + ":get_wing_section_panel_vertices")],
     "mesh_wing runs with symbolic section geometry and symbolic camber ordinates for panel counts up to 3x3 and three sections")

prop("P07", "Symmetric wings are mirror images",
     "A symmetric wing's mesh is the mesh of its modelled half together with that half's exact mirror image in the wing's symmetry plane, with mirrored panels oriented the same way as the originals. "
     "A control surface marked symmetric is deflected identically on both halves, and one marked asymmetric is deflected with opposite sign on the mirrored half.",
     ["inputs", "configurations"], "section geometry, deflections, symmetry plane position, control types", TESTS_FEW,
     [M, G], [("mirroring", M + ":mesh_wing"), ("deflection", G + ":WingCrossSection"), ("reflection", F + ":reflect_point_across_plane")],
     "mesh_wing runs symbolically; the mirrored half is compared with the mirror image of the modelled half, and the airfoil each half asks for is recorded")

prop("P08", "Airfoil outlines, camber lines and control surfaces",
     "An airfoil's mean camber line is the midpoint of the matching points of its upper and lower sides; sampled at given fractions it gives the points at those fractions of the camber line's length, and its camber at a chord fraction is interpolated from it. "
     "A NACA four-digit name gives the outline of the standard equations, any other name, in any capitalisation, the outline in the database file of that name, and repanelling an outline keeps both sides as functions of the chordwise abscissa at cosine-spaced stations. "
     "Adding a control surface deflection rotates exactly the part of the outline aft of the hinge about the hinge point on the camber line by the deflection angle, trailing edge down for positive deflection, leaves the part ahead unchanged, and leaves the original airfoil untouched, however many deflections are made from it.",
     ["inputs"], "outlines of up to nine points, camber fractions, hinge positions, deflection angles, NACA stations, five of the database's files", TESTS_FEW,
     [G], [("camber sampling", G + ":Airfoil.get_downsampled_mcl"), ("control surface", G + ":Airfoil.add_control_surface"), ("outline", G + ":Airfoil.populate_coordinates"),
           ("repanelling", G + ":Airfoil.repanel_current_airfoil")],
     "the real methods run on airfoils with a small number of symbolic coordinates; the shape-preserving interpolant is any function through the knots")

prop("P09", "Spacing, interpolation, rotation and reflection primitives",
     "Cosine spacing runs from its minimum to its maximum, in order, at the projections of equal arcs. The angle-axis rotation is the proper rotation by that angle about that axis in the right-handed sense, the reflection of a point across a plane is the point at equal distance "
     "on the other side, interpolation between two rows of points is linear in the given fractions, the row-wise cross product and quadrilateral centroid are the exact ones.",
     ["inputs"], "all angles, axes, planes, points and fractions; up to five spacing points", TESTS_FEW,
     [F], [("rotation", F + ":angle_axis_rotation_matrix"), ("reflection", F + ":reflect_point_across_plane"), ("spacing", F + ":cosspace"), ("interpolation", F + ":interp_between_points")],
     "each function runs on symbolic arguments and is compared with its defining equations")

prop("P10", "Wing and airplane reference quantities",
     "A wing's wetted area and projected area are the sums over its panels, its span is the extent between its first and last sections (doubled when symmetric), and its standard and area-weighted mean chords follow from section chords and areas. "
     "An airplane's reference area, chord and span default to those of its main wing and are exactly the given values when given; its panel count is the sum over its wings.",
     ["inputs", "configurations"], "section geometry, symmetric or not, given or defaulted references, one or two wings", TESTS_FEW,
     [G], [("wing properties", G + ":Wing"), ("airplane references", G + ":Airplane.set_reference_dimensions_from_main_wing")],
     "the real properties run on symbolic sections")

prop("P11", "Invalid definitions are rejected",
     "Definitions that violate a rule the code enforces raise an error instead of producing results, and definitions that satisfy the rules are accepted: an airplane has a wing; a wing has at least two sections, a known chordwise spacing, its first section at its own leading edge and in its own plane, a chordwise direction in that plane and every section's plane containing that direction; "
     "a section has a positive chord, a known control surface type and spanwise spacing; deflections lie within 90 degrees; airfoil names are known; oscillation spacings are known and custom ones have a function; a wing's first section does not sweep or heave; step, cycle and chord counts come in permitted combinations; logging levels and the solver of a convergence study are known.",
     ["inputs", "configurations"], "all argument values of the checked constructors and generators", TESTS_FEW,
     [G, MV, F], [("section rules", G + ":WingCrossSection.__init__"), ("wing rules", G + ":Wing.__init__"), ("airplane rules", G + ":Airplane.__init__"), ("timing rules", MV + ":Movement.__init__")],
     "the real constructors run on symbolic and enumerated arguments; the decision to raise is compared with the rule")

prop("P12", "No flow through the wing: steady horseshoe solver",
     "After a steady horseshoe solve, the velocity at every panel's collocation point, made of the freestream and the velocity induced by all horseshoe vortices of all airplanes, has no component along the panel's normal, for whatever strengths the linear system returns. "
     "Each horseshoe has its bound leg on its panel's quarter-chord line, from right to left, with trailing legs along the freestream twenty wing spans long, and carries the solved strength.",
     ["inputs", "configurations"], "panel geometry, wind angles, speed, several wings and airplanes", TESTS_FEW,
     [SH, F], [("system assembly and solution", SH + ":SteadyHorseshoeVortexLatticeMethodSolver.run")],
     "the whole solver runs on symbolic panel vertices and wind with an uninterpreted Biot-Savart kernel (P02) and an exact linear solve")

prop("P13", "No flow through the wing: steady ring solver",
     "After a steady ring solve, the velocity at every panel's collocation point, made of the freestream and the velocity induced by all ring vortices and all trailing horseshoe vortices of all airplanes, has no component along the panel's normal. "
     "Ring vortices sit on the quarter-chord lines of their panel and the panel behind (a quarter chord behind the trailing edge for the last row), and each trailing horseshoe starts at its trailing edge ring's rear leg, runs along the freestream for twenty wing spans and carries that ring's strength.",
     ["inputs", "configurations"], "panel geometry, wind angles, speed, several wings and airplanes", TESTS_FEW,
     [SR, F], [("system assembly and solution", SR + ":SteadyRingVortexLatticeMethodSolver.run")],
     "as P12, for the ring solver")

prop("P14", "No flow through the wing: unsteady ring solver",
     "At every time step of an unsteady solve, the velocity at every panel's collocation point, made of the freestream, the velocity induced by all bound ring vortices and by all wake ring vortices of all airplanes, minus the panel's own velocity (its displacement since the previous step over the time step), has no component along the panel's current normal.",
     ["inputs", "configurations", "histories"], "panel geometry at each step, wind, motion, several wings and airplanes, prescribed or free wake", TESTS_FEW,
     [UR], [("system assembly and solution", UR + ":UnsteadyRingVortexLatticeMethodSolver.run")],
     "the whole solver runs for up to three steps on symbolic panel vertices at each step, with an uninterpreted kernel and an exact linear solve")

prop("P15", "Kutta-Joukowski loads: steady horseshoe solver",
     "In a steady horseshoe solution the force on each panel is density times its strength times the cross product of the total velocity at its bound leg's centre with that leg, and its moment is taken about the reference point of the airplane the panel belongs to, with the force acting at that centre.",
     ["inputs", "configurations"], "panel geometry, wind, density, several wings and airplanes with different reference points", TESTS_FEW,
     [SH, F], [("loads", SH + ":SteadyHorseshoeVortexLatticeMethodSolver.calculate_near_field_forces_and_moments")],
     "as P12; the loads are recomputed independently from the solved strengths")

prop("P16", "Kutta-Joukowski loads: steady ring solver",
     "In a steady ring solution the force on each panel is the sum over its ring's legs of density times the leg's effective strength times the cross product of the total velocity at the leg's centre with the leg, where the effective strength of a front or side leg is the ring's strength "
     "less that of the neighbouring ring sharing the leg (none at an edge) and rear legs carry none. Its moment is about the reference point of the panel's own airplane with each force acting at its leg's centre.",
     ["inputs", "configurations"], "panel geometry, wind, density, several wings and airplanes", TESTS_FEW,
     [SR, F], [("loads", SR + ":SteadyRingVortexLatticeMethodSolver.calculate_near_field_forces_and_moments")],
     "as P13; the loads are recomputed independently from the solved strengths")

prop("P17", "Kutta-Joukowski loads: unsteady ring solver",
     "In an unsteady solution the force on each panel at each step is the sum of the Kutta-Joukowski forces on its legs with their effective strengths, using the total velocity relative to each moving leg's centre, plus the unsteady term of density times panel area times the time derivative of the panel's strength along its normal. "
     "Its moment is about the reference point of the panel's own airplane.",
     ["inputs", "configurations", "histories"], "panel geometry at each step, wind, density, motion, several wings and airplanes", TESTS_FEW,
     [UR, F], [("loads", UR + ":UnsteadyRingVortexLatticeMethodSolver.calculate_near_field_forces_and_moments")],
     "as P14; the loads are recomputed independently from the solved strengths")

prop("P18", "Load bookkeeping",
     "For every solver, each airplane's total force and moment are the sums over exactly its own panels, expressed in wind axes by the inverse of the wind-to-geometry rotation of the operating point in force, and the coefficients are those totals over dynamic pressure, the airplane's own reference area and (for moments) its span, chord and span, with drag and lift opposite to wind x and z. "
     "Panel forces, moments and coefficients obey the same conventions.",
     ["inputs", "configurations"], "all panel forces and moments, operating points, reference dimensions, up to two airplanes with two wings each", TESTS_FEW,
     [F], [("steady", F + ":process_steady_solver_forces"), ("unsteady", F + ":process_unsteady_solver_forces")],
     "the real functions run on symbolic forces and moments for airplanes of different sizes")

prop("P19", "Wake vortices keep their circulation and age",
     "In an unsteady solve, at every step every wing's newest wake row takes the strengths its trailing-edge vortices had at the previous step and age zero, older wake vortices keep the strength they were shed with, and every wake vortex's age grows by exactly one time step per step from its shedding. "
     "The velocity the wake induces uses exactly those strengths and ages and the viscosity of the current operating point.",
     ["inputs", "histories", "configurations"], "strength histories, up to four steps, several wings and airplanes", TESTS_FEW,
     [UR], [("shedding", UR + ":UnsteadyRingVortexLatticeMethodSolver.populate_next_airplanes_wake_vortices")],
     "as P14, up to four steps")

prop("P20", "Wake geometry: attachment, connectivity and convection",
     "At every step after the first the wake's first row of vertices lies on the rear legs of the current trailing-edge ring vortices, neighbouring wake rings share vertices, and each step adds one row of rings. Every older wake vertex has moved from its previous position by the time step times the freestream velocity for a prescribed wake, "
     "or times the total solved velocity at that vertex for a free wake; the first wake row extends one such displacement behind the trailing-edge vortices.",
     ["inputs", "histories", "configurations"], "panel geometry at each step, wind, prescribed or free wake, several wings and airplanes, up to three steps", TESTS_FEW,
     [UR], [("wake vertices", UR + ":UnsteadyRingVortexLatticeMethodSolver.populate_next_airplanes_wake_vortex_vertices")],
     "as P14")

prop("P21", "Final and cycle-averaged results",
     "For a static unsteady problem the final loads of each airplane are those of the last step; otherwise its averaged loads are the mean and the root-mean-square, over the smallest number of final steps that covers one largest period, of each component of forces, moments and their coefficients. "
     "Asking for final results only changes neither these values nor which steps they cover.",
     ["inputs", "histories", "configurations"], "all load histories, periods, time steps, one or two airplanes", TESTS_FEW,
     [UR, PR], [("averaging", UR + ":UnsteadyRingVortexLatticeMethodSolver.finalize_near_field_forces_and_moments"), ("first step", PR + ":UnsteadyProblem.__init__")],
     "the whole solver runs with symbolic per-step loads; the period and time step range over the reals")

prop("P22", "Results do not depend on solver history",
     "Running a solver again on the same problem, or running another solver on the same problem before it, gives the same strengths, loads, streamline seed points and wake as a first run, also when the operating point was given other values in between; and solving one problem leaves the results of another as they were.",
     ["histories", "inputs", "configurations"], "all sequences of up to three runs of the steady solvers and two of the unsteady one", TESTS_FEW,
     [SH, SR, UR], [("run", SR + ":SteadyRingVortexLatticeMethodSolver.run")],
     "solvers run repeatedly on the same symbolic problem and the states are compared")

prop("P23", "Streamlines follow the solution velocity",
     "Streamlines start at the midpoint of every trailing-edge panel's rear edge, once each, and advance by explicit Euler steps of the given size along the total velocity (freestream plus everything the solved vortices and wake induce) at the current points, for the given number of steps.",
     ["inputs", "configurations"], "panel geometry, wind, strengths, step sizes, up to three steps, all three solvers", TESTS_FEW,
     [F, SH, SR, UR], [("streamlines", F + ":calculate_streamlines"), ("velocity", SR + ":SteadyRingVortexLatticeMethodSolver.calculate_solution_velocity")],
     "the real solvers and streamline function run on symbolic geometry with the uninterpreted kernel")

prop("P24", "Oscillation functions",
     "Sampled at every time step k, an oscillation of given amplitude, period and base value is base + amplitude w(2 pi k dt / period), where w is the sine for sine spacing, the triangle wave with the sine's zeros and extrema for uniform spacing and the given function for custom spacing. "
     "A zero period or amplitude gives the constant base value.",
     ["inputs"], "all amplitudes, periods, bases and time steps; up to nine samples", TESTS_FEW,
     [MV], [("oscillations", MV + ":oscillating_sinspace"), ("triangle wave", MV + ":oscillating_linspace"), ("custom", MV + ":oscillating_customspace")],
     "the real functions run on symbolic amplitude, period, base and time step")

prop("P25", "Movement timing",
     "A movement's largest period is the largest among all airplanes, wings, sections and the operating point. Its time step, unless given, is the mean over the airplanes of the time to travel one chordwise panel of the first wing (reference chord over chordwise panels over base speed). "
     "Its number of steps, unless given, is the smallest that covers the requested number of largest periods (three by default) when something moves, or of largest reference chords of travel (ten by default) when nothing does. "
     "Every airplane and the operating point is generated for exactly that number of steps with that time step.",
     ["inputs", "configurations"], "all periods, chords, speeds, cycle and chord counts", TESTS_FEW,
     [MV], [("timing", MV + ":Movement.__init__"), ("maximum period", MV + ":AirplaneMovement.get_max_period")],
     "the real constructor runs on symbolic periods, chords and speeds")

prop("P26", "Time-step snapshots preserve the base definition",
     "Every airplane, wing, section and operating point generated for a time step equals its base in every attribute that is not moving, and a movement with zero amplitudes reproduces the base geometry and operating point exactly at every step. "
     "Snapshots at different steps are independent objects and generating them never alters the base.",
     ["inputs", "configurations"], "all attribute values, section offsets in every direction, one and two wings, two and three sections", TESTS_FEW,
     [MV], [("snapshots", MV + ":WingMovement.generate_wings"), ("snapshots", MV + ":AirplaneMovement.generate_airplanes")],
     "the real movement classes run on symbolic bases")

prop("P27", "Flapping kinematics",
     "In a moving wing each section that is laterally offset from the previous one stays at its base distance from it, in the direction given by the sweeping and heaving angle histories, and its twist (like the first section's) follows its pitching history, while a section without lateral offset keeps its base place and twist; those histories oscillate about the base angles with the given amplitudes, periods and spacings. "
     "Wing leading-edge, airplane reference-point and airspeed histories likewise follow their own oscillations.",
     ["inputs", "configurations"], "all amplitudes, periods, bases and time steps, up to three sections and four steps", TESTS_FEW,
     [MV], [("kinematics", MV + ":WingCrossSectionMovement.generate_wing_cross_sections"), ("wing", MV + ":WingMovement.generate_wings")],
     "the real movement classes run on symbolic amplitudes and periods")

prop("P28", "Steady convergence study decision",
     "A steady convergence study solves the meshes in its search order (panel aspect ratios from the coarsest, chordwise panel counts from the fewest within each) with the requested solver, and stops at the first for which, in each varied parameter, the norms of every airplane's force and moment coefficients change by less than the given percentage from the next coarser value of that parameter (a panel aspect ratio of one, the finest, needs no comparison). "
     "It returns the coarser values, which are sufficient, except where a parameter was not varied or is at an aspect ratio of one that has not settled, for which it returns the value itself; it returns no values when no mesh within the bounds qualifies.",
     ["inputs", "configurations"], "all coefficient values over search grids of up to three by three", TESTS_FEW,
     [C], [("decision", C + ":analyze_steady_convergence")],
     "the real function runs with the solver replaced by symbolic coefficients per configuration; exact ties with the criterion may go either way")

prop("P29", "Unsteady convergence study decision",
     "An unsteady convergence study solves the configurations in its search order (prescribed then free wake, wake lengths, panel aspect ratios from the coarsest, chordwise panel counts) and stops at the first for which, in each varied parameter, every unmasked coefficient of every airplane (final ones for static problems, root-mean-square ones for periodic ones) changes by less than the given percentage from the next coarser value of that parameter; a free wake and a panel aspect ratio of one, the finest values, need no comparison. "
     "It returns the coarser values, except where a parameter was not varied or is at its finest value and has not settled, for which it returns the value itself; it returns no values when no configuration within the bounds qualifies.",
     ["inputs", "configurations"], "all coefficient values over search grids of up to two values per parameter or three of one", TESTS_FEW,
     [C], [("decision", C + ":analyze_unsteady_convergence")],
     "the real function runs with the solver replaced by symbolic coefficients per configuration; exact ties with the criterion may go either way")

prop("P30", "Convergence studies solve the given problem at each mesh",
     "Each configuration a convergence study solves is the given problem with only its chordwise panel count, spanwise panel counts (chosen from the requested panel aspect ratio, at least one per section) and, when unsteady, wake length changed: every other attribute of the airplanes, wings, sections, movements and operating point is that of the given problem, except the reference dimensions, which are those of the new mesh's main wing.",
     ["inputs", "configurations"], "all attribute values of the given problem, mesh bounds", TESTS_FEW,
     [C], [("copies", C + ":analyze_steady_convergence")],
     "the real function runs with the solver replaced by a recorder")

prop("P31", "Steady trim",
     "A steady trim analysis returns an operating condition within its bounds whose net force and moment coefficients (aerodynamic plus external thrust and weight) are within tolerance of zero, the problem being left at the returned condition, and returns undefined values (NaN) when no such condition was found. "
     "Both its searches, local then global, start from the given condition and stay within the bounds, and each candidate is judged by the problem's own solution at exactly that condition. Initial values outside the bounds and problems of several airplanes are rejected.",
     ["inputs", "histories"], "all coefficient values the solver may return, bounds, tolerances, optimiser query sequences up to three", TESTS_FEW,
     [T], [("trim", T + ":analyze_steady_trim")],
     "the real function runs with solver and optimiser replaced by symbolic stand-ins")

prop("P32", "Unsteady trim",
     "An unsteady trim analysis evaluates each candidate by the final cycle-averaged coefficients (or final coefficients for static problems) of the given problem at that condition, returns a condition within its bounds whose net coefficients are within tolerance of zero, and returns undefined values (NaN) when none was found. "
     "Initial values outside the bounds are rejected.",
     ["inputs", "histories"], "all coefficient values the solver may return, bounds, tolerances, optimiser query sequences up to three", TESTS_FEW,
     [T], [("trim", T + ":analyze_unsteady_trim")],
     "the real function runs with solver and optimiser replaced by symbolic stand-ins")

prop("P33", "Printed results are the solution's",
     "Printing a steady solution lists, for each airplane in turn under its name, its own total forces, moments, force coefficients and moment coefficients, each component under its own label, to three decimals. Printing an unsteady solution does the same with the cycle-averaged results, or with the final ones for a static problem.",
     ["inputs", "configurations"], "all load values, up to three airplanes", TESTS_FEW,
     [OUT], [("steady", OUT + ":print_steady_results"), ("unsteady", OUT + ":print_unsteady_results")],
     "the real functions run on symbolic loads; printed numbers are captured as tokens and compared with the loads")

prop("P34", "Drawings, animations and plots show the solution",
     "Drawing a solution shows one face per panel of every airplane (of the last step, if unsteady) with the panel's own corners, coloured when asked by the panel's own coefficient of the requested kind with the extreme values written out, and, when asked, the wake's rings and the segments of every streamline. "
     "An animation has one such frame per time step, coloured on one scale for the steps that have results, and plays at the simulation's own pace, slowed to fifty frames per second at most with the speed written out. A saved image is of the drawn scene. Plots against time show, for each airplane, each component of its forces, moments and their coefficients at the times of the steps that have results, each figure saved, when asked, to a file of its own named after the airplane and the quantity.",
     ["inputs", "configurations"], "all vertices, coefficients and load histories, up to two airplanes and three steps", "Tests only check that rendering calls return.",
     [OUT], [("drawing", OUT + ":draw"), ("animation", OUT + ":animate"), ("plots", OUT + ":plot_results_versus_time")],
     "the real functions run with PyVista, webp and matplotlib replaced by stand-ins that record the data they are handed; what those libraries render is outside")

prop("P35", "Graphical interface",
     "The graphical interface shows and runs the analyses it offers.",
     ["inputs"], "all user actions", "Window-system behaviour is not tested.",
     ["pterasoftware/ui_resources", "main.py"], [("interface", "main.py")], "")

prop("P36", "Analyses leave the definition alone",
     "Solving a problem with any solver, drawing, animating, plotting or printing a solution, and studying convergence leave every attribute of the given airplanes, wings, sections, panels, operating points, movements and problems as it was (results and vortices aside); "
     "showing a solution also leaves its results as they were. A trim analysis changes nothing of them but the speed, angles and external thrust of the operating condition it searches.",
     ["histories", "inputs", "configurations"], "all geometry, wind, references and results; every solver, output function, convergence study and trim analysis", TESTS_FEW,
     [SH, SR, UR, OUT, C, T], [("solvers", SR + ":SteadyRingVortexLatticeMethodSolver.run"), ("output", OUT + ":draw"), ("studies", C + ":analyze_steady_convergence")],
     "every public attribute reachable from the given objects is recorded before and compared after the real code ran on symbolic values")

prop("P37", "Symmetric airplanes in symmetric flow",
     "An airplane that is its own mirror image in the plane y = 0 (whether built of symmetric wings or not), flying without sideslip and with its reference point in that plane, has the same vortex strengths and mirrored panel forces on both sides, and no side force, rolling moment or yawing moment: in both steady solvers and at every step of the unsteady one.",
     ["inputs", "configurations", "histories"], "panel geometry on one side, section geometry of symmetric wings, angle of attack, speed, density, viscosity, reference point", TESTS_FEW,
     [M, SH, SR, UR, F], [("mirroring", M + ":mesh_wing"), ("loads", F + ":process_steady_solver_forces")],
     "whole solvers run on symbolic mirror-symmetric geometry; the kernel is uninterpreted but mirror-symmetric, and the only solution of a symmetric non-singular system is symmetric")

NOT_APPLICABLE = {
    "P35": "The interface is Qt (compiled, window-system code with no encodable semantics); the analyses and drawings it calls are decided under the other properties.",
}

LEVEL_NOTE = ("Bounded symbolic execution of the current source: every path of the listed functions within the stated bounds is discharged by Z3 over the exact reals "
              "(rounding excluded), and the encoding is replayed against the unmodified code on solver-chosen inputs. {note}.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["pid"]
        if pid in NOT_APPLICABLE:
            na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
        elif os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            checks.append({"property": pid, "quick_cmd": "python3-vt engine/check.py " + pid,
                           "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/check.py " + pid,
                           "technique": "symbolic execution of the real source, obligations discharged by SMT (Z3, cvc5 as second opinion)",
                           "level": "model_checking", "level_note": LEVEL_NOTE.format(note=p["note"][:1].upper() + p["note"][1:])})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import numpy, scipy'",
                   "checks": checks, "not_applicable": na,
                   "notes": "Generated by tools/build_manifest.py. No hooks in /repo are needed."}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


main()
