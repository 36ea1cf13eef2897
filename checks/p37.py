"""Symmetric airplanes in symmetric flow."""
from common import *
from engine.parts import Part
from p22 import SOLVERS


def mirrored(v):
    return [v[0], -v[1], v[2]]


def mirror_grid(env, name, nc, ns, off=(0, 0, 0), fixed=False):
    """Vertices of a wing of 2 ns columns that is its own mirror image in y = 0."""
    h = env.const("0.4")
    half = []
    for i in range(nc + 1):
        row = []
        for j in range(ns + 1):
            b = [i * 1 + off[0], j * 1, off[2]]
            if fixed:
                row.append([b[k] * CELL + fixed_value(env, "%s_%d_%d_%s" % (name, i, j, "xyz"[k])) if k != 1 or j else 0 for k in range(3)])
                continue
            row.append([env.real("%s_%d_%d_%s" % (name, i, j, "xyz"[k]), b[k] - h, b[k] + h) if k != 1 or j else 0 for k in range(3)])
        half.append(row)
    return [[env.array(mirrored(v)) for v in reversed(r[1:])] + [env.array(v) for v in r] for r in half]


class Solve:
    """np.linalg.solve for a system that a permutation leaves unchanged: its only solution is unchanged too."""

    def __init__(self, env, pairs):
        if not env.symbolic:
            return
        from engine import shim, sym

        env.note("a non-singular linear system that a permutation of the panels leaves unchanged has a solution it leaves unchanged")
        n = len(pairs)
        reps = [i for i in range(n) if i <= pairs[i]]

        def solve(A, b):
            key = lambda x: sym.pkey(sym.topoly(shim._num(x)))
            same = len(b) == n and all(key(b[i]) == key(b[pairs[i]]) for i in range(n)) and all(
                key(A[i][j]) == key(A[pairs[i]][pairs[j]]) for i in range(n) for j in range(n))
            if not same:
                return shim.solve(A, b)
            red = [[A[i][j] + (A[i][pairs[j]] if pairs[j] != j else 0) for j in reps] for i in reps]
            x = shim.solve(env.array(red), env.array([b[i] for i in reps]))
            return env.array([x[reps.index(min(i, pairs[i]))] for i in range(n)])

        env.np.linalg.solve = solve


def panel_pairs(shapes):
    """Index of each panel's mirror image, in solver order; shapes hold columns per side."""
    out, at = [], 0
    for sh in shapes:
        for nc, ns in sh:
            m = 2 * ns
            for i in range(nc):
                out += [at + i * m + (m - 1 - j) for j in range(m)]
            at += nc * m
    return out


def build(env, shapes, tag="", airplanes=None, fixed=False):
    planes = []
    for k, sh in enumerate(shapes):
        ref = dict(x_ref=env.real("%sxr%d" % (tag, k), -2, 2), y_ref=0, z_ref=env.real("%szr%d" % (tag, k), -2, 2), s_ref=env.real("%ss%d" % (tag, k), 1, 3),
                   c_ref=env.real("%sc%d" % (tag, k), 1, 3), b_ref=env.real("%sb%d" % (tag, k), 1, 3))
        if airplanes is None:
            ws = [make_wing(env, nc, 2 * ns, span=2 + w, symmetric=in_halves(k, w, nc, 2 * ns)) for w, (nc, ns) in enumerate(sh)]
            p = env.ps.geometry.Airplane(wings=ws, name="plane %d" % k, **ref)
        else:
            p = airplanes[k]
            for a, v in ref.items():
                setattr(p, a, v)
            p.xyz_ref = env.array([ref["x_ref"], 0, ref["z_ref"]])
        for w, (nc, ns) in enumerate(sh):
            set_panels(env, p.wings[w], mirror_grid(env, "%sg%d_%d" % (tag, k, w), nc, ns, (3 * w, 0, 5 * k), fixed))
        planes.append(p)
    return planes


def level(env, tag="", nu=False):
    rho, V, a = env.real(tag + "rho", env.const("0.5"), 2), env.real(tag + "V", 1, 20), env.real(tag + "alpha", -30, 30)
    return env.ps.operating_point.OperatingPoint(density=rho, velocity=V, alpha=a, beta=0, **(dict(nu=env.real(tag + "nu", 0, 1)) if nu else {}))


def balanced(env, tag, p):
    for w, wing in enumerate(p.wings):
        P = wing.panels
        for i in range(P.shape[0]):
            for j in range(P.shape[1] // 2):
                a, b = P[i, j], P[i, P.shape[1] - 1 - j]
                n = "%swing %d panel %d %d " % (tag, w, i, j)
                v = [getattr(x, "ring_vortex", None) or x.horseshoe_vortex for x in (a, b)]
                env.eq(n + "strength", v[0].strength, v[1].strength)
                env.eq(n + "force", a.near_field_force_geometry_axes, mirrored(b.near_field_force_geometry_axes))
                m = b.near_field_moment_geometry_axes
                env.eq(n + "moment", a.near_field_moment_geometry_axes, [-m[0], m[1], -m[2]])
    F, M = p.total_near_field_force_wind_axes, p.total_near_field_moment_wind_axes
    f, m = p.total_near_field_force_coefficients_wind_axes, p.total_near_field_moment_coefficients_wind_axes
    for n, v in (("force", F), ("force coefficients", f)):
        env.eq(tag + n + " without side force", list(v), [v[0], 0, v[2]])
    for n, v in (("moment", M), ("moment coefficients", m)):
        env.eq(tag + n + " without roll and yaw", list(v), [0, v[1], 0])


def steady(env, shapes, which, fixed=False):
    Kernel(env, mirror=True)
    no_streamlines(env)
    Solve(env, panel_pairs(shapes))
    planes = build(env, shapes, fixed=fixed)
    pb = env.ps.problems.SteadyProblem(airplanes=planes, operating_point=level(env))
    mod, cls = SOLVERS[which]
    getattr(env.module(mod), cls)(pb).run()
    for k, p in enumerate(planes):
        balanced(env, "airplane %d " % k, p)


def meshed(env, which, nc, ns, **kw):
    """The package's own mesh of a symmetric wing."""
    Kernel(env, mirror=True)
    no_streamlines(env)
    Solve(env, panel_pairs([[(nc, ns)]]))
    sec = Sections(env, nc, [ns], symmetric=True, origin=[env.real("wx", -1, 1), 0, env.real("wz", -1, 1)], spanwise="uniform", level_root=True, **kw)
    for x in (sec.le[1][1] - env.const("0.3"),) + tuple(c - env.const("0.3") for c in sec.chord):
        env.assume(x >= 0)
    p = env.ps.geometry.Airplane(wings=[sec.wing], x_ref=env.real("xr", -2, 2), y_ref=0, z_ref=env.real("zr", -2, 2), s_ref=env.real("s", 1, 3), c_ref=1, b_ref=env.real("b", 1, 3))
    pb = env.ps.problems.SteadyProblem(airplanes=[p], operating_point=level(env))
    mod, cls = SOLVERS[which]
    getattr(env.module(mod), cls)(pb).run()
    balanced(env, "", p)


def unsteady(env, shapes, steps, prescribed=True, fixed=False):
    Kernel(env, mirror=True)
    no_streamlines(env)
    Solve(env, panel_pairs(shapes))
    m = static_movement(env, [[(nc, 2 * ns) for nc, ns in sh] for sh in shapes], steps, env.real("dt", env.const("0.1"), 1))
    planes = [build(env, shapes, "t%d_" % t, [m.airplanes[k][t] for k in range(len(shapes))], fixed) for t in range(steps)]
    m.operating_points = [level(env, "t%d_" % t, nu=True) for t in range(steps)]
    pb = env.ps.problems.UnsteadyProblem(movement=m)
    env.module("unsteady_ring_vortex_lattice_method").UnsteadyRingVortexLatticeMethodSolver(pb).run(prescribed_wake=prescribed, calculate_streamlines=False)
    for t in range(steps):
        for k, p in enumerate(planes[t]):
            balanced(env, "step %d airplane %d " % (t, k), p)


SM = tuple(m for m, _ in SOLVERS.values())
UM = ("unsteady_ring_vortex_lattice_method",)
B = "any vertices within 0.4 of a unit grid on one side and their mirror images on the other, any wind without sideslip, reference point in the plane of symmetry; "
W = "symmetric wing of two sections of any position, chord, camber and deflection (twist and plane unless two columns or rows), meshed into %s panels per side, any wind without sideslip"
F = "fixed vertices on one side and their mirror images on the other, any wind without sideslip, reference point in the plane of symmetry; "
PARTS = [
    Part("horseshoe", steady, B + "wing of 2x1 panels per side and one of 1x1", modules=SM, params=dict(shapes=[[(2, 1), (1, 1)]], which="h")),
    Part("horseshoe, two airplanes", steady, B + "airplanes of 1x2 and 1x1 panels per side", modules=SM, params=dict(shapes=[[(1, 2)], [(1, 1)]], which="h")),
    Part("ring", steady, B + "wing of 2x1 panels per side and one of 1x1", modules=SM, params=dict(shapes=[[(2, 1), (1, 1)]], which="r")),
    Part("ring, two columns", steady, B + "1x2 panels per side", modules=SM, params=dict(shapes=[[(1, 2)]], which="r")),
    Part("meshed, horseshoe", meshed, W % "1x1", modules=SM, params=dict(which="h", nc=1, ns=1)),
    Part("meshed, horseshoe, two columns", meshed, W % "1x2", modules=SM, params=dict(which="h", nc=1, ns=2, twisted=False)),
    Part("meshed, ring", meshed, W % "1x1", modules=SM, params=dict(which="r", nc=1, ns=1)),
    Part("meshed, ring, two rows", meshed, W % "2x1", modules=SM, params=dict(which="r", nc=2, ns=1, twisted=False, normals=False)),
    Part("unsteady", unsteady, B + "1x1 panels per side, 2 steps, prescribed wake, geometry and wind different at each step", modules=UM, params=dict(shapes=[[(1, 1)]], steps=2)),
    Part("unsteady, free wake", unsteady, B + "1x1 panels per side, 2 steps, free wake, geometry and wind different at each step", modules=UM, params=dict(shapes=[[(1, 1)]], steps=2, prescribed=False)),
    Part("horseshoe, fixed shape", steady, F + "wings of 2x2 and 1x1 panels per side and an airplane of 1x2", modules=SM, params=dict(shapes=[[(2, 2), (1, 1)], [(1, 2)]], which="h", fixed=True)),
    Part("ring, fixed shape", steady, F + "wing of 3x2 panels per side", modules=SM, params=dict(shapes=[[(3, 2)]], which="r", fixed=True)),
    Part("unsteady, fixed shape", unsteady, F + "1x2 panels per side, 3 steps, prescribed wake, geometry and wind different at each step", modules=UM, params=dict(shapes=[[(1, 2)]], steps=3, fixed=True)),
    Part("unsteady, free wake, fixed shape", unsteady, F + "1x1 panels per side, 4 steps, free wake, geometry and wind different at each step", modules=UM,
         params=dict(shapes=[[(1, 1)]], steps=4, prescribed=False, fixed=True)),
]
