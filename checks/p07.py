"""Symmetric wings."""
from common import *
from engine.parts import Part


def harness(env, nc, ns, types=None, **kw):
    m = len(ns) + 1
    t = types or [env.choice("type%d" % i, ("symmetric", "asymmetric")) for i in range(m)]
    s = Sections(env, nc, ns, symmetric=True, types=t, **kw)
    check_mesh(env, s)


M = ("meshing", "geometry")
B = "any section positions, chords, twists, planes containing the chordwise direction, deflections and camber points"
PARTS = [
    Part("two sections", harness, "2 sections, 2x2 panels per side, either control surface type; " + B, modules=M, params=dict(nc=2, ns=(2,))),
    Part("three sections", harness, "3 sections, 1x(3+3) panels per side, symmetric then asymmetric control surface; " + B, modules=M,
         params=dict(nc=1, ns=(3, 3), types=["symmetric", "asymmetric", "symmetric"], spanwise=("cosine", "uniform"))),
    Part("three sections, other order", harness, "3 sections, 3x(2+1) panels per side, asymmetric then symmetric control surface; " + B, modules=M,
         params=dict(nc=3, ns=(2, 1), types=["asymmetric", "symmetric", "asymmetric"], chordwise="cosine")),
    Part("four sections", harness, "4 sections, 2x(2+1+2) panels per side, mixed control surfaces; " + B, modules=M,
         params=dict(nc=2, ns=(2, 1, 2), types=["asymmetric", "symmetric", "asymmetric", "symmetric"], chordwise="cosine")),
    Part("five sections", harness, "5 sections, 4x(1+3+2+4) panels per side, mixed control surfaces; " + B, modules=M,
         params=dict(nc=4, ns=(1, 3, 2, 4), types=["symmetric", "symmetric", "asymmetric", "asymmetric", "symmetric"], spanwise=("cosine", "uniform", "uniform", "cosine"))),
    Part("fine", harness, "2 sections, 8x8 panels per side, asymmetric control surface; " + B, modules=M, params=dict(nc=8, ns=(8,), types=["asymmetric", "symmetric"], chordwise="cosine")),
    Part("chordwise direction along z", harness, "3 sections, 2x(1+2) panels per side, mixed control surfaces, wing's chordwise vector along z; " + B, modules=M,
         params=dict(nc=2, ns=(1, 2), types=["asymmetric", "symmetric", "symmetric"], frame="z")),
    Part("tilted chordwise direction", harness, "2 sections, 2x2 panels per side, asymmetric control surface, wing's chordwise vector (0.6, 0, 0.8), sections' planes normal to y; " + B, modules=M,
         params=dict(nc=2, ns=(2,), types=["asymmetric", "symmetric"], frame="tilted", normals=False)),
]
PARTS += [
    Part("two wings at once", two(harness, "phi", "le", "chord", "twist", "af", "defl", "hinge", "wle"), "two unrelated wings of 2 sections, 1x2 panels per side, asymmetric control surface; " + B, modules=M, params=dict(nc=1, ns=(2,), types=["asymmetric", "symmetric"])),
]
