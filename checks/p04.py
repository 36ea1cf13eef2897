"""Vortex objects under updates."""
from common import *
from engine.parts import Part


def check_line(env, label, l, o, t, g):
    h = env.const("0.5")
    env.eq(label + " ends", [l.origin, l.termination], [o, t])
    env.eq(label + " vector", l.vector, sub(t, o))
    env.eq(label + " centre", l.center, mul(h, add(o, t)))
    env.eq(label + " strength", l.strength, g)


def line(env):
    a = env.module("aerodynamics")
    o, t, g = env.pt("o"), env.pt("t"), env.real("g", -9, 9)
    check_line(env, "line", a.LineVortex(origin=o, termination=t, strength=g), o, t, g)


def check_horseshoe(env, label, v, o, t, d, L, g):
    br, bl = add(o, mul(L, d)), add(t, mul(L, d))
    check_line(env, label + " right leg", v.right_leg, br, o, g)
    check_line(env, label + " finite leg", v.finite_leg, o, t, g)
    check_line(env, label + " left leg", v.left_leg, t, bl, g)
    env.eq(label + " strength", v.strength, g)
    env.eq(label + " ends", [v.right_leg_origin, v.left_leg_termination], [br, bl])


def horseshoe(env, n):
    a = env.module("aerodynamics")
    make = lambda k: [env.pt("o%d" % k), env.pt("t%d" % k), env.pt("d%d" % k), env.real("L%d" % k, 1, 40), env.real("g%d" % k, -9, 9)]
    X, Y = make(0), make(1)
    build = lambda o, t, d, L, g: a.HorseshoeVortex(finite_leg_origin=o, finite_leg_termination=t, strength=g, infinite_leg_direction=d, infinite_leg_length=L)
    v, other = build(*X), build(*Y)
    for k in range(n):
        if env.flag("update%d" % k):
            X[4] = env.real("n%d" % k, -9, 9)
            v.update_strength(X[4])
        check_horseshoe(env, "after %d" % k, v, *X)
    check_horseshoe(env, "untouched", other, *Y)


def check_ring(env, label, v, V, g, age):
    fl, fr, bl, br = V
    check_line(env, label + " front leg", v.front_leg, fr, fl, g)
    check_line(env, label + " left leg", v.left_leg, fl, bl, g)
    check_line(env, label + " back leg", v.back_leg, bl, br, g)
    check_line(env, label + " right leg", v.right_leg, br, fr, g)
    env.eq(label + " vertices", [v.front_left_vertex, v.front_right_vertex, v.back_left_vertex, v.back_right_vertex], V)
    env.eq(label + " strength", v.strength, g)
    env.eq(label + " centre", v.center, mul(env.const("0.25"), add(*V)))
    env.eq(label + " age", v.age, age)


def ring(env, n):
    a = env.module("aerodynamics")
    pts = lambda k: [env.pt("%s%s" % (k, c)) for c in ("fl", "fr", "bl", "br")]
    build = lambda V, g: a.RingVortex(front_left_vertex=V[0], front_right_vertex=V[1], back_left_vertex=V[2], back_right_vertex=V[3], strength=g)
    V, g = pts("a"), env.real("ga", -9, 9)
    W, h = pts("b"), env.real("gb", -9, 9)
    v, other = build(V, g), build(W, h)
    check_ring(env, "new", v, V, g, 0)
    age = v.age = env.real("age", 0, 9)
    for k in range(n):
        op = env.int_("op%d" % k, 0, 2)
        if op == 1:
            g = env.real("n%d" % k, -9, 9)
            v.update_strength(g)
        elif op == 2:
            V = pts("p%d" % k)
            v.update_position(front_left_vertex=V[0], front_right_vertex=V[1], back_left_vertex=V[2], back_right_vertex=V[3])
        check_ring(env, "after %d" % k, v, V, g, age)
    check_ring(env, "untouched", other, W, h, 0)


M = ("aerodynamics",)
PARTS = [
    Part("line", line, "any end points and strength", modules=M),
    Part("horseshoe", horseshoe, "any vertices, leg direction and length, every sequence of up to 3 strength updates", modules=M, params=dict(n=3)),
    Part("ring", ring, "any vertices, strengths and age, every sequence of up to 3 strength or position updates", modules=M, params=dict(n=3)),
    Part("ring, longer", ring, "any vertices, strengths and age, every sequence of up to 5 strength or position updates", tiers=("thorough",), modules=M,
         params=dict(n=5), timeout=900, budget=300),
]
PARTS += [
    Part("two lines", two(line), "any end points and strengths", modules=M),
    Part("two horseshoes", two(horseshoe), "any vertices, leg direction and length, up to one update each", modules=M, params=dict(n=1)),
    Part("two rings", two(ring), "any vertices, strengths and age, up to one update each", modules=M, params=dict(n=1)),
]
