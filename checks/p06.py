"""Wing meshes."""
from common import *
from engine.parts import Part


def harness(env, **kw):
    s = Sections(env, **kw)
    check_mesh(env, s)


def edges(env, **kw):
    s = Sections(env, 1, (1,), **kw)
    for i, x in enumerate(s.sections):
        back, up = s.axes(i)
        env.eq("chordwise vector %d" % i, x.unit_chordwise_vector, back)
        env.eq("up vector %d" % i, x.unit_up_vector, up)
        env.eq("trailing edge %d" % i, x.trailing_edge, add(s.le[i], mul(s.chord[i], back)))
        env.eq("leading edge %d" % i, x.leading_edge, s.le[i])
    env.eq("wing leading edge", s.wing.leading_edge, s.origin)
    env.eq("wing up vector", s.wing.unit_up_vector, cross(s.c, s.n[0]))


M = ("meshing", "geometry")
B = "any section positions, chords, twists, planes containing the chordwise direction, deflections and camber points"
PARTS = [
    Part("uniform", harness, "2 sections, 2x3 panels; " + B, modules=M, params=dict(nc=2, ns=(3,))),
    Part("cosine", harness, "2 sections, 3x2 panels, cosine spacing both ways; " + B, modules=M, params=dict(nc=3, ns=(2,), chordwise="cosine", spanwise="cosine")),
    Part("three sections", harness, "3 sections, 3x(3+3) panels, cosine then uniform spacing; " + B, modules=M,
         params=dict(nc=3, ns=(3, 3), chordwise="cosine", spanwise=("cosine", "uniform"))),
    Part("four sections", harness, "4 sections, 1x(1+3+3) panels, mixed spacing; " + B, modules=M, params=dict(nc=1, ns=(1, 3, 3), spanwise=("uniform", "cosine", "uniform"))),
    Part("one panel", harness, "2 sections, 1x1 panel; " + B, modules=M, params=dict(nc=1, ns=(1,), spanwise="cosine")),
    Part("section vectors", edges, "2 sections; " + B, modules=M),
    Part("larger", harness, "3 sections, 4x(3+4) panels, cosine spacing; " + B, modules=M,
         params=dict(nc=4, ns=(3, 4), chordwise="cosine", spanwise=("cosine", "uniform"))),
    Part("five sections", harness, "5 sections, 6x(1+4+2+5) panels, mixed spacing; " + B, modules=M,
         params=dict(nc=6, ns=(1, 4, 2, 5), chordwise="cosine", spanwise=("uniform", "cosine", "cosine", "uniform"))),
    Part("fine", harness, "2 sections, 12x12 panels; " + B, modules=M, params=dict(nc=12, ns=(12,), spanwise="cosine")),
    Part("chordwise direction along y", harness, "3 sections, 2x(2+1) panels, wing's chordwise vector along y; " + B, modules=M, params=dict(nc=2, ns=(2, 1), frame="y")),
    Part("chordwise direction along z", harness, "3 sections, 2x(1+2) panels, wing's chordwise vector along z; " + B, modules=M, params=dict(nc=2, ns=(1, 2), frame="z", spanwise="cosine")),
    Part("chordwise direction against x", harness, "2 sections, 2x2 panels, wing's chordwise vector along -x; " + B, modules=M, params=dict(nc=2, ns=(2,), frame="-x")),
    Part("tilted chordwise direction", harness, "3 sections, 2x(2+2) panels, wing's chordwise vector (0.6, 0, 0.8), sections' planes normal to y; " + B, modules=M,
         params=dict(nc=2, ns=(2, 2), frame="tilted", normals=False)),
    Part("symmetric", harness, "2 sections, 2x2 panels per side; " + B, modules=M, params=dict(nc=2, ns=(2,), symmetric=True, chordwise="cosine")),
    Part("symmetric, three sections", harness, "3 sections, 1x(1+3) panels per side, mixed control surfaces and spacing; " + B, modules=M,
         params=dict(nc=1, ns=(1, 3), symmetric=True, types=["asymmetric", "symmetric", "symmetric"], spanwise=("uniform", "cosine"))),
    Part("symmetric, one panel per side", harness, "2 sections, 1x1 panel per side; " + B, modules=M, params=dict(nc=1, ns=(1,), symmetric=True)),
    Part("section vectors, chordwise direction along z", edges, "2 sections, wing's chordwise vector along z; " + B, modules=M, params=dict(frame="z")),
    Part("section vectors, tilted chordwise direction", edges, "2 sections, wing's chordwise vector (0.6, 0, 0.8), sections' planes normal to y; " + B, modules=M, params=dict(frame="tilted", normals=False)),
]
PARTS += [
    Part("two wings at once", two(harness, "phi", "le", "chord", "twist", "af", "defl", "hinge", "wle"), "two unrelated wings of 3 sections, 2x(1+2) panels; " + B, modules=M, params=dict(nc=2, ns=(1, 2), spanwise="cosine")),
    Part("two symmetric wings at once", two(harness, "phi", "le", "chord", "twist", "af", "defl", "hinge", "wle"), "two unrelated symmetric wings of 2 sections, 1x2 panels per side; " + B, modules=M, params=dict(nc=1, ns=(2,), symmetric=True)),
]
