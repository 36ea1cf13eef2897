"""Panel geometry, coefficients and the velocity induced by a panel's own vortices."""
from common import *
from engine.parts import Part


def make(env, tag=""):
    if hasattr(env, "_env") or hasattr(env, "pair"):  # two at once: their flags do not vary
        (env if hasattr(env, "pair") else env._env).pair = True
        G = grid(env, tag + "v", 1, 1)
        p = env.module("panel").Panel(front_right_vertex=G[0][1], front_left_vertex=G[0][0], back_left_vertex=G[1][0], back_right_vertex=G[1][1],
                                      is_leading_edge=True, is_trailing_edge=False)
        return p, PanelRef(env, G, 0, 0, 1, 1)
    G = grid(env, tag + "v", 1, 1)
    P = env.module("panel").Panel
    p = P(front_right_vertex=G[0][1], front_left_vertex=G[0][0], back_left_vertex=G[1][0], back_right_vertex=G[1][1],
          is_leading_edge=env.flag("leading"), is_trailing_edge=env.flag("trailing"))
    at = env.choice("edges", (None, (False, False), (True, False), (False, True), (True, True)))
    if at is not None:
        p.is_left_edge, p.is_right_edge = at
        p.local_chordwise_position, p.local_spanwise_position = env.choice("row", (0, 1)), env.choice("column", (0, 1))
    return p, PanelRef(env, G, 0, 0, 1, 1)


def geometry(env):
    p, r = make(env)
    h = env.const("0.5")
    env.eq("right leg", p.right_leg, sub(r.fr, r.br))
    env.eq("front leg", p.front_leg, sub(r.fl, r.fr))
    env.eq("left leg", p.left_leg, sub(r.bl, r.fl))
    env.eq("back leg", p.back_leg, sub(r.br, r.bl))
    env.eq("front right vortex vertex", p.front_right_vortex_vertex, r.qfr)
    env.eq("front left vortex vertex", p.front_left_vortex_vertex, r.qfl)
    env.eq("collocation point", p.collocation_point, r.cp)
    env.eq("area", p.area, r.area(env))
    env.eq("unit normal", p.unit_normal, r.unit_normal(env))
    s = mul(h, add(sub(r.fr, r.fl), sub(r.br, r.bl)))
    env.eq("unit spanwise", p.unit_spanwise, mul(1 / norm(env, s), s))
    c = mul(h, add(sub(r.bl, r.fl), sub(r.br, r.fr)))
    env.eq("unit chordwise", p.unit_chordwise, mul(1 / norm(env, c), c))
    env.eq("average span", p.average_span, h * (norm(env, sub(r.fr, r.fl)) + norm(env, sub(r.br, r.bl))))
    env.eq("average chord", p.average_chord, h * (norm(env, sub(r.fr, r.br)) + norm(env, sub(r.fl, r.bl))))


def projected(env):
    np = env.np
    p, r = make(env)
    th, ph = env.real("theta", -3, 3), env.real("phi", -3, 3)
    n = [np.cos(th) * np.cos(ph), np.sin(th) * np.cos(ph), np.sin(ph)]
    A = p.calculate_projected_area(env.array(n))
    d = dot(r.n, n) / 2
    env.true("not negative", A >= 0)
    env.eq("shadow", A * A, d * d)


def coefficients(env):
    p, r = make(env)
    q = env.real("q", 1, 1000)
    f = [env.real("f%d" % i, -9, 9) for i in range(3)]
    p.near_field_force_wind_axes = env.array(f)
    p.update_coefficients(q)
    A = r.area(env)
    env.eq("coefficients", [p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient], [-f[0] / A / q, f[1] / A / q, -f[2] / A / q])


def induced(env):
    K = Kernel(env)
    a = env.module("aerodynamics")
    p, _ = make(env)
    V = [env.pt(c, -4, 4) for c in ("fl", "fr", "bl", "br")]
    g, gh = env.real("g", -9, 9), env.real("gh", -9, 9)
    o, t, d, L = env.pt("o"), env.pt("t"), env.pt("d"), env.real("L", 1, 40)
    has = env.int_("vortices", 0, 3)
    x = env.pt("x")
    one, full = [[0, 0, 0]], [[0, 0, 0]]
    if has & 1:
        p.ring_vortex = a.RingVortex(front_left_vertex=V[0], front_right_vertex=V[1], back_left_vertex=V[2], back_right_vertex=V[3], strength=g)
        one.append(K.ring(x, *V, 1))
        full.append(K.ring(x, *V, g))
    if has & 2:
        p.horseshoe_vortex = a.HorseshoeVortex(finite_leg_origin=o, finite_leg_termination=t, strength=gh, infinite_leg_direction=d, infinite_leg_length=L)
        far = mul(L, d)
        one.append(K.horseshoe(x, o, t, add(o, far), add(t, far), 1))
        full.append(K.horseshoe(x, o, t, add(o, far), add(t, far), gh))
    env.eq("velocity per unit strength", p.calculate_normalized_induced_velocity(x), add(*one))
    env.eq("velocity", p.calculate_induced_velocity(x), add(*full))


M = ("panel", "aerodynamics")
PARTS = [
    Part("geometry", geometry, "any vertices within 0.4 of a unit square", modules=M),
    Part("projected area", projected, "any vertices within 0.4 of a unit square, any plane", modules=M),
    Part("coefficients", coefficients, "any vertices, force and dynamic pressure in [1, 1000]", modules=M),
    Part("induced velocity", induced, "any point, ring and horseshoe vertices and strengths, either or both or none present", modules=M),
]
PARTS += [
    Part("two panels", two(geometry), "any vertices within 0.4 of a unit square", modules=M),
    Part("coefficients of two panels", two(coefficients), "any vertices, forces and dynamic pressures in [1, 1000]", modules=M),
]
