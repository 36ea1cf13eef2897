"""Totals, axes and coefficients of the loads, for all three solvers."""
from common import *
from engine.parts import Part


def swap_loads(env, name):
    """The solver's own panel loads are replaced by arbitrary ones before the real bookkeeping sees them."""
    f = env.module("functions")
    now = getattr(f, name)
    real = getattr(now, "real", now)  # one stand-in at a time
    calls = []

    def wrapped(*a, **k):
        a = list(a)
        mine = []

        def fresh(x, what):
            t = len(calls)
            v = env.array([[env.real("%s%d_%d_%d" % (what, t, i, c), -5, 5) for c in range(3)] for i in range(x.shape[0])])
            mine.append(v)
            return v

        for n, what in ((1, "force"), (2, "moment")):
            key = "near_field_%ss_geometry_axes" % what
            if key in k:
                k[key] = fresh(k[key], what)
            else:
                a[n] = fresh(a[n], what)
        calls.append(mine)
        return real(*a, **k)

    wrapped.real = real
    env.patch_everywhere(now, wrapped)
    env.note("the panel loads handed to the bookkeeping are arbitrary (P15 to P17 decide them)")
    return calls


def to_wind(env, op, v):
    np, a, b = env.np, op._oracle["a"], op._oracle["b"]
    sa, ca, sb, cb = np.sin(a), np.cos(a), np.sin(b), np.cos(b)
    return [dot(v, [-ca * cb, sb, -sa * cb]), dot(v, [ca * sb, cb, sa * sb]), dot(v, [sa, 0, -ca])]


def check(env, planes, op, loads, tag=""):
    F, M = loads
    q = op._oracle["rho"] * op._oracle["V"] * op._oracle["V"] / 2
    n = 0
    for k, pl in enumerate(planes):
        tF, tM = [0, 0, 0], [0, 0, 0]
        for w, (nc, ns) in enumerate(pl.shapes):
            for i in range(nc):
                for j in range(ns):
                    p, r = pl.wings[w].panels[i, j], PanelRef(env, pl.grids[w], i, j, nc, ns)
                    l = "%spanel %d.%d %d %d " % (tag, k, w, i, j)
                    f = to_wind(env, op, F[n])
                    env.eq(l + "geometry axes", [p.near_field_force_geometry_axes, p.near_field_moment_geometry_axes], [F[n], M[n]])
                    env.eq(l + "wind axes", [p.near_field_force_wind_axes, p.near_field_moment_wind_axes], [f, to_wind(env, op, M[n])])
                    A = r.area(env)
                    env.eq(l + "coefficients", [p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient],
                           [-f[0] / A / q, f[1] / A / q, -f[2] / A / q])
                    tF, tM = add(tF, F[n]), add(tM, M[n])
                    n += 1
        f, m = to_wind(env, op, tF), to_wind(env, op, tM)
        a, l = pl.airplane, "%sairplane %d " % (tag, k)
        env.eq(l + "force", a.total_near_field_force_wind_axes, f)
        env.eq(l + "moment", a.total_near_field_moment_wind_axes, m)
        env.eq(l + "force coefficients", a.total_near_field_force_coefficients_wind_axes, [x / (q * pl.s) for x in (-f[0], f[1], -f[2])])
        env.eq(l + "moment coefficients", a.total_near_field_moment_coefficients_wind_axes,
               [m[0] / (q * pl.s * pl.b), m[1] / (q * pl.s * pl.c), m[2] / (q * pl.s * pl.b)])


def steady(env, which, shapes, **kw):
    calls = swap_loads(env, "process_steady_solver_forces")
    K, planes, op, s = (run_horseshoe if which == "horseshoe" else run_ring)(env, shapes, **kw)
    env.true("loads processed once", len(calls) == 1)
    check(env, planes, op, calls[0])


def unsteady(env, shapes, steps, **kw):
    calls = swap_loads(env, "process_unsteady_solver_forces")
    u = Unsteady(env, shapes, steps, **kw)
    env.true("loads processed once per step", len(calls) == steps)
    for t in range(steps):
        check(env, u.planes[t], u.ops[t], calls[t], "step %d " % t)


M = ("steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method", "unsteady_ring_vortex_lattice_method")
B = "any panel loads, vertices within 0.4 of a unit grid, wind, density, reference dimensions"
F = "fixed vertices, any panel loads, wind, density, reference dimensions"
PARTS = [
    Part("horseshoe", steady, "airplane of wings 2x1 and 1x2; " + B, modules=M, params=dict(which="horseshoe", shapes=[[(2, 1), (1, 2)]])),
    Part("horseshoe, two planes", steady, "airplanes of wings 1x1, 1x2 and of 1x1; " + B, modules=M, params=dict(which="horseshoe", shapes=[[(1, 1), (1, 2)], [(1, 1)]])),
    Part("ring", steady, "airplane of wings 1x2 and 1x1; " + B, modules=M, params=dict(which="ring", shapes=[[(1, 2), (1, 1)]])),
    Part("ring, two planes", steady, "airplanes of wings 1x1 and of 2x1; " + B, modules=M, params=dict(which="ring", shapes=[[(1, 1)], [(2, 1)]])),
    Part("unsteady", unsteady, "airplane of wings 1x2 and 1x1, 2 steps; " + B, modules=M, params=dict(shapes=[[(1, 2), (1, 1)]], steps=2)),
    Part("unsteady, two planes", unsteady, "airplanes of one panel and of 2x1 panels, 2 steps; " + B, modules=M, params=dict(shapes=[[(1, 1)], [(2, 1)]], steps=2)),
    Part("horseshoe, fixed shape", steady, "three airplanes: wings 3x2 and 1x1, a wing 1x1, wings 1x2 and 2x1; " + F, modules=M,
         params=dict(which="horseshoe", shapes=[[(3, 2), (1, 1)], [(1, 1)], [(1, 2), (2, 1)]], fixed=True)),
    Part("ring, fixed shape", steady, "three airplanes: wings 2x2 and 1x1, a wing 1x1, wings 1x3 and 2x1; " + F, modules=M,
         params=dict(which="ring", shapes=[[(2, 2), (1, 1)], [(1, 1)], [(1, 3), (2, 1)]], fixed=True)),
    Part("unsteady, fixed shape", unsteady, "airplanes of wings 2x2 and 1x1, of a wing 1x1 and of a wing 1x2, 4 steps; " + F, modules=M,
         params=dict(shapes=[[(2, 2), (1, 1)], [(1, 1)], [(1, 2)]], steps=4, fixed=True)),
]
PARTS += [
    Part("horseshoe, two problems at once", two(steady, "force", "moment", "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated airplanes of a wing 2x1; " + B, modules=M, params=dict(which="horseshoe", shapes=[[(2, 1)]])),
    Part("ring, two problems at once", two(steady, "force", "moment", "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta"), "two unrelated airplanes of a wing 2x1; " + B, modules=M, params=dict(which="ring", shapes=[[(2, 1)]])),
    Part("unsteady, two problems at once", two(unsteady, "force", "moment", "g", "ref", "s\\d", "c\\d", "b\\d", "rho", "V", "alpha", "beta", "nu", "dt"), "two unrelated airplanes of one panel, 2 steps; " + B, modules=M, params=dict(shapes=[[(1, 1)]], steps=2)),
]
