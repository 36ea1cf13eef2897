"""Reference quantities of wings and airplanes."""
from common import *
from engine.parts import Part


class Known:
    def __init__(self, a):
        self.area = a

    def calculate_projected_area(self, n_hat):
        return self.area


def wing(env, tag, nc, ns, symmetric, plain=False, **kw):
    s = Sections(env, nc, ns, symmetric=symmetric, tag=tag, deflect=False, **kw)
    if plain:
        # panels of known projected areas; the panel's own formula is P02's
        w = s.wing.panels
        for i in range(w.shape[0]):
            for j in range(w.shape[1]):
                w[i, j] = Known(env.real("%sarea%d%d" % (tag, i, j), env.const("0.1"), 3))
        s.G = None
        return s
    G = grid(env, tag + "g", nc, sum(ns) * (2 if symmetric else 1))
    set_panels(env, s.wing, G)
    s.G = G
    return s


def oracle(env, s):
    u = cross(s.c, s.n[0])
    P = list(s.wing.panels.ravel())
    nc, ns = s.wing.panels.shape
    wet = None if s.G is None else sum([PanelRef(env, s.G, i, j, nc, ns).area(env) for i in range(nc) for j in range(ns)], 0)
    proj = sum([p.calculate_projected_area(env.array(u)) for p in P], 0)
    k = 2 if s.symmetric else 1
    span = k * abs(dot(sub(s.le[-1], s.le[0]), s.n[0]))
    integral = 0
    for i in range(len(s.ns)):
        c0, c1 = s.chord[i], s.chord[i + 1]
        integral = integral + k * abs(dot(sub(s.le[i + 1], s.le[i]), s.n[0])) * (c0 * c0 + c0 * c1 + c1 * c1) / 3
    return wet, proj, span, integral


def wings(env, nc, ns, symmetric, **kw):
    s = wing(env, "", nc, ns, symmetric, **kw)
    wet, proj, span, integral = oracle(env, s)
    w = s.wing
    env.eq("wetted area", w.wetted_area, wet)
    env.eq("projected area", w.projected_area, proj)
    env.eq("span", w.span, span)
    n = sum(ns) * (2 if symmetric else 1)
    env.true("panel counts", (w.num_panels, w.num_spanwise_panels, w.num_chordwise_panels) == (nc * n, n, nc))


def chords(env, nc, ns, symmetric, **kw):
    s = wing(env, "", nc, ns, symmetric, plain=True, **kw)
    wet, proj, span, integral = oracle(env, s)
    env.assume(span > env.const("0.001"))
    env.eq("standard mean chord", s.wing.standard_mean_chord, proj / span)
    env.eq("mean aerodynamic chord", s.wing.mean_aerodynamic_chord, integral / proj)


def airplane(env, two):
    sym_ = env.flag("symmetric")
    a = wing(env, "a", 1, (1,), sym_, plain=True)
    ws = [a.wing]
    if two:
        ws.append(wing(env, "b", 2, (1, 1), False, plain=True).wing)
    given = env.int_("given", 0, 7)
    vals = dict(s_ref=env.real("s", 1, 9), c_ref=env.real("c", 1, 9), b_ref=env.real("b", 1, 9))
    kw = {k: v for i, (k, v) in enumerate(vals.items()) if given >> i & 1}
    r = [env.real("ref%d" % i, -5, 5) for i in range(3)]
    w = env.real("weight", 0, 100)
    p = env.ps.geometry.Airplane(wings=ws, name="x", x_ref=r[0], y_ref=r[1], z_ref=r[2], weight=w, **kw)
    wet, proj, span, integral = oracle(env, a)
    env.eq("area", p.s_ref, kw.get("s_ref", proj))
    env.eq("span", p.b_ref, kw.get("b_ref", span))
    env.eq("chord", p.c_ref, kw.get("c_ref", integral / proj))
    env.eq("reference point", [p.xyz_ref, [p.x_ref, p.y_ref, p.z_ref]], [r, r])
    env.eq("weight", p.weight, w)
    env.true("panels", p.num_panels == sum(x.num_panels for x in ws))
    env.true("wings", len(p.wings) == len(ws) and all(x is y for x, y in zip(p.wings, ws)))


M = ("geometry", "meshing")
B = "any section positions, chords, twists, planes containing the chordwise direction, panel vertices within 0.4 of a unit grid"
PARTS = [
    Part("wing", wings, "3 sections, 2x2 panels; " + B, modules=M, params=dict(nc=2, ns=(1, 1), symmetric=False)),
    Part("symmetric wing", wings, "3 sections, 1x2 panels per side; " + B, modules=M, params=dict(nc=1, ns=(1, 1), symmetric=True)),
    Part("two sections", wings, "2 sections, 2x1 panels; " + B, modules=M, params=dict(nc=2, ns=(1,), symmetric=False)),
    Part("mean chords", chords, "4 sections, 2x4 panels of any positive areas; any section positions, chords, twists, planes", modules=M, params=dict(nc=2, ns=(1, 2, 1), symmetric=False)),
    Part("mean chords of a symmetric wing", chords, "3 sections, 1x3 panels per side of any positive areas; any section positions, chords, twists, planes", modules=M, params=dict(nc=1, ns=(2, 1), symmetric=True)),
    Part("airplane", airplane, "one wing, given or default references in every combination; " + B, modules=M, params=dict(two=False)),
    Part("airplane of two wings", airplane, "two wings, given or default references in every combination; " + B, modules=M, params=dict(two=True)),
    Part("chordwise direction along z", wings, "3 sections, 2x2 panels, wing's chordwise vector along z; " + B, modules=M, params=dict(nc=2, ns=(1, 1), symmetric=False, frame="z")),
    Part("tilted chordwise direction", wings, "2 sections, 1x2 panels per side, wing's chordwise vector (0.6, 0, 0.8); " + B, modules=M, params=dict(nc=1, ns=(2,), symmetric=True, frame="tilted", normals=False)),
    Part("mean chords, chordwise direction along y", chords, "4 sections, 2x4 panels of any positive areas, wing's chordwise vector along y; any section positions, chords, twists, planes", modules=M,
         params=dict(nc=2, ns=(1, 2, 1), symmetric=False, frame="y")),
]
PARTS += [
    Part("two wings at once", two(wings, "g", "phi", "le", "chord", "twist", "af", "defl", "hinge", "wle"), "two unrelated wings of 2 sections, 2x1 panels; " + B, modules=M, params=dict(nc=2, ns=(1,), symmetric=False)),
    Part("mean chords of two wings at once", two(chords, "area", "twist", "wle"), "two unrelated wings of 3 sections, 1x2 panels of any positive areas; any section positions, chords, twists, planes", modules=M, params=dict(nc=1, ns=(1, 1), symmetric=False)),
]
