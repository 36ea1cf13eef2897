"""Ring and horseshoe vortex velocities are sums over their legs."""
from common import *
from engine.parts import Part

KINDS = {
    "collapsed_velocities_from_horseshoe_vortices": ("horseshoe", False),
    "expanded_velocities_from_horseshoe_vortices": ("horseshoe", True),
    "collapsed_velocities_from_ring_vortices": ("ring", False),
    "collapsed_velocities_from_ring_vortices_chordwise_segments": ("chordwise", False),
    "expanded_velocities_from_ring_vortices": ("ring", True),
}


def harness(env, n, m, aged):
    K = Kernel(env)
    a = env.module("aerodynamics")
    P = env.array([env.pt("p%d" % i) for i in range(n)])
    V = {c: env.array([env.pt("%s%d" % (c, j)) for j in range(m)]) for c in ("br", "fr", "fl", "bl")}
    G = env.array([env.real("g%d" % j, -9, 9) for j in range(m)])
    kw = {}
    if aged:
        kw = dict(ages=env.array([env.real("age%d" % j, env.const("0.1"), 9) for j in range(m)]), nu=env.real("nu", 0, 1))
    for name, (kind, expanded) in KINDS.items():
        got = getattr(a, name)(points=P, back_right_vortex_vertices=V["br"], front_right_vortex_vertices=V["fr"],
                               front_left_vortex_vertices=V["fl"], back_left_vortex_vertices=V["bl"], strengths=G, **kw)
        env.true(name + " shape", tuple(got.shape) == ((n, m, 3) if expanded else (n, 3)))
        for i in range(n):
            each = []
            for j in range(m):
                br, fr, fl, bl = (V[c][j] for c in ("br", "fr", "fl", "bl"))
                legs = {"ring": [(br, fr), (fr, fl), (fl, bl), (bl, br)], "horseshoe": [(br, fr), (fr, fl), (fl, bl)],
                        "chordwise": [(br, fr), (fl, bl)]}[kind]
                age, nu = (kw["ages"][j], kw["nu"]) if aged else (0, 0)
                each.append(add(*[K(P[i], o, t, G[j], age, nu) for o, t in legs]))
                if expanded:
                    env.eq("%s point %d vortex %d" % (name, i, j), got[i, j], each[-1])
            if not expanded:
                env.eq("%s point %d" % (name, i), got[i], add(*each))


M = ("aerodynamics",)
B = "any points, vertices and strengths in [-4, 4], [-9, 9]"
PARTS = [Part("%d points, %d vortices%s" % (n, m, ", aged" if aged else ""), harness, "%d points, %d vortices; %s" % (n, m, B), modules=M,
              params=dict(n=n, m=m, aged=aged)) for n, m, aged in ((1, 1, False), (1, 1, True), (2, 3, True), (3, 2, False))]
PARTS.append(Part("5 points, 5 vortices, aged", harness, "5 points, 5 vortices; " + B, tiers=("thorough",), modules=M, params=dict(n=5, m=5, aged=True)))
PARTS.append(Part("two calls", two(harness), "2 points, 2 vortices, then others; " + B, modules=M, params=dict(n=2, m=2, aged=True)))
