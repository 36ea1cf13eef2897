import math
import sys

import numpy as np

import pterasoftware as ps
from pterasoftware import aerodynamics, functions, geometry, movement, panel, problems
from pterasoftware.steady_horseshoe_vortex_lattice_method import (
    SteadyHorseshoeVortexLatticeMethodSolver as Horseshoe,
)
from pterasoftware.steady_ring_vortex_lattice_method import (
    SteadyRingVortexLatticeMethodSolver as Ring,
)
from pterasoftware.unsteady_ring_vortex_lattice_method import (
    UnsteadyRingVortexLatticeMethodSolver as Unsteady,
)


def expect(condition, what):
    if not condition:
        print("BROKEN:", what)
        sys.exit(1)


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    scale = 1 + max(np.max(np.abs(a)), np.max(np.abs(b)))
    expect(a.shape == b.shape and np.all(np.abs(a - b) <= tol * scale), f"{what}: {a} is not {b}")


def foil(name="naca2412"):
    return geometry.Airfoil(name=name, n_points_per_side=40)


def section(**kw):
    kw.setdefault("airfoil", foil())
    kw.setdefault("num_spanwise_panels", 3)
    kw.setdefault("spanwise_spacing", "uniform")
    return geometry.WingCrossSection(**kw)


def wing(span=4.0, tip=0.7, n=2, m=3, symmetric=True, sweep=0.5, dihedral=0.2, **kw):
    return geometry.Wing(
        wing_cross_sections=[
            section(chord=1.0, num_spanwise_panels=m),
            section(chord=tip, x_le=sweep, y_le=span, z_le=dihedral, num_spanwise_panels=m),
        ],
        symmetric=symmetric,
        num_chordwise_panels=n,
        chordwise_spacing="uniform",
        **kw,
    )


def airplane(wings=None, **kw):
    return geometry.Airplane(wings=wings or [wing()], **kw)


def op(**kw):
    kw.setdefault("velocity", 10.0)
    kw.setdefault("alpha", 5.0)
    return ps.operating_point.OperatingPoint(**kw)


def steady(airplanes, **kw):
    return problems.SteadyProblem(airplanes=airplanes, operating_point=op(**kw))


def fixed(base, tip=None, wings=None, **kw):
    """The movement of an airplane: each wing's tip section moves as asked."""
    wing_movements = []
    for w in base.wings:
        sections = []
        for i, s in enumerate(w.wing_cross_sections):
            sections.append(movement.WingCrossSectionMovement(base_wing_cross_section=s, **((tip or {}) if i else {})))
        wing_movements.append(movement.WingMovement(base_wing=w, wing_cross_sections_movements=sections, **(wings or {})))
    return movement.AirplaneMovement(base_airplane=base, wing_movements=wing_movements, **kw)


def moving(airplane_movements, speed=None, point=None, final=False, **kw):
    opm = movement.OperatingPointMovement(base_operating_point=point or op(), **(speed or {}))
    m = movement.Movement(airplane_movements=airplane_movements, operating_point_movement=opm, **kw)
    return problems.UnsteadyProblem(movement=m, only_final_results=final)


FLAP = dict(sweeping_amplitude=10.0, sweeping_period=0.4, sweeping_spacing="sine")


def filament(p, a, b, strength, core=0.0):
    """The velocity of a straight vortex filament at p."""
    p, a, b = (np.asarray(x, float) for x in (p, a, b))
    r1, r2 = a - p, b - p
    n1, n2, c = np.linalg.norm(r1), np.linalg.norm(r2), np.cross(r1, r2)
    if n1 < 1e-12 or n2 < 1e-12 or c @ c < 1e-15:
        return np.zeros(3)
    return strength / (4 * np.pi) * (n1 + n2) * (n1 * n2 - r1 @ r2) / (n1 * n2 * (c @ c + np.sum((b - a) ** 2) * core**2)) * c


def core(strength, age, nu):
    return 2 * math.sqrt(1.25643 * (nu + 1e-4 * abs(strength)) * age)


def loop(p, points, strength, radius=0.0, closed=True):
    points = list(points) + ([points[0]] if closed else [])
    return sum(filament(p, a, b, strength, radius) for a, b in zip(points, points[1:]))


def ring_points(r):
    return [r.back_right_vertex, r.front_right_vertex, r.front_left_vertex, r.back_left_vertex]


def shoe_points(h):
    return [h.right_leg.origin, h.finite_leg.origin, h.finite_leg.termination, h.left_leg.termination]


def all_panels(airplanes):
    return [p for a in airplanes for w in a.wings for p in np.ravel(w.panels)]


def steady_velocity(airplanes, point, p, rings=True):
    v = point.calculate_freestream_velocity_geometry_axes().copy()
    for q in all_panels(airplanes):
        if rings and q.ring_vortex is not None:
            v = v + loop(p, ring_points(q.ring_vortex), q.ring_vortex.strength)
        if q.horseshoe_vortex is not None and (not rings or q.is_trailing_edge):
            v = v + loop(p, shoe_points(q.horseshoe_vortex), q.horseshoe_vortex.strength, closed=False)
    return v
