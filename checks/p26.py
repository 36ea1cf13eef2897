"""Snapshots preserve the base definition."""
from common import *
from engine.parts import Part
from p27 import Osc, KINDS, SHORT

SECTION = ("x_le", "y_le", "z_le", "leading_edge", "chord", "unit_normal_vector", "twist", "control_surface_type", "control_surface_hinge_point",
           "control_surface_deflection", "num_spanwise_panels", "spanwise_spacing", "unit_chordwise_vector", "unit_up_vector", "trailing_edge")
WING = ("name", "x_le", "y_le", "z_le", "leading_edge", "unit_normal_vector", "symmetric", "unit_chordwise_vector", "num_chordwise_panels",
        "chordwise_spacing", "num_spanwise_panels", "num_panels")
PLANE = ("name", "x_ref", "y_ref", "z_ref", "xyz_ref", "weight", "s_ref", "c_ref", "b_ref", "num_panels")
POINT = ("density", "velocity", "alpha", "beta", "external_thrust", "nu")
CORNERS = ("front_right_vertex", "front_left_vertex", "back_left_vertex", "back_right_vertex")


def same(env, label, a, b):
    if isinstance(b, (str, bool)):
        env.true(label, type(a) is type(b) and a == b)
    else:
        env.eq(label, a, b)


def compare(env, what, x, y, names, skip=()):
    for n in names:
        if n not in skip:
            same(env, what + n, getattr(x, n), getattr(y, n))


def record(obj, names):
    out = {}
    for n in names:
        v = getattr(obj, n)
        out[n] = [e for e in v] if hasattr(v, "shape") and v.shape else v
    return out


def unchanged(env, what, obj, rec):
    for n, v in rec.items():
        same(env, what + n, getattr(obj, n), v)


def plane(env, tag, shapes, symmetric, chordwise, spanwise, types, given, flat, vertical=False, mesh=True, frame="x"):
    secs = []
    for w, ns in enumerate(shapes):
        s = Sections(env, 1, ns, chordwise=chordwise, spanwise=spanwise, symmetric=symmetric, types=[types[i % 2] for i in range(len(ns) + 1)],
                     tag="%s%d" % (tag, w), normals=not flat, build=False, frame=frame)
        for i in range(1, len(s.le)):
            if vertical and i == len(s.le) - 1:
                # the last section is straight above, below, behind or ahead of the one before
                s.le[i][1] = s.le[i - 1][1]
                s.sections[i].y_le = s.le[i][1]
                s.sections[i].leading_edge = env.array(s.le[i])
            else:
                env.assume(env.lnot(s.le[i][1] == s.le[i - 1][1]))
        g = env.ps.geometry
        s.wing = g.Wing(wing_cross_sections=s.sections, name="wing %s %d" % (tag, w), x_le=s.origin[0], y_le=s.origin[1], z_le=s.origin[2],
                        unit_normal_vector=env.array(s.n[0]), symmetric=symmetric, unit_chordwise_vector=env.array(s.c),
                        num_chordwise_panels=1, chordwise_spacing=chordwise)
        secs.append(s)
    r = [env.real("%sr%s" % (tag, c), -5, 5) for c in "xyz"]
    kw = {k: env.real(tag + k, 1, 9) for k in ("s_ref", "c_ref", "b_ref")} if given else {}
    base = env.ps.geometry.Airplane(wings=[s.wing for s in secs], name="plane " + tag, x_ref=r[0], y_ref=r[1], z_ref=r[2], weight=env.real(tag + "W", 0, 9), **kw)
    return secs, base


def airplanes(env, shapes=((1,),), moving=None, symmetric=False, chordwise="uniform", spanwise="uniform", types=("symmetric", "asymmetric"), given=True, flat=False,
              vertical=False, steps=2, frame="x"):
    if moving and "_" not in moving and moving != "none":
        # positions move: the mesh of a moved wing is P06's
        env.patch_everywhere(env.module("meshing").mesh_wing, lambda wing: no_panels(env, wing))
    secs, base = plane(env, "p", shapes, symmetric, chordwise, spanwise, types, given, flat, vertical, frame=frame)
    mv = env.ps.movement
    dt = env.real("dt", env.const("0.01"), 2)
    o = Osc(env, "o", "sine")
    rec_p, rec_w = record(base, PLANE), [record(s.wing, WING) for s in secs]
    rec_s = [[record(x, SECTION) for x in s.sections] for s in secs]
    wms = []
    for w, s in enumerate(secs):
        ms = []
        for i, x in enumerate(s.sections):
            kw = o.kw(moving) if moving in KINDS and w == 0 and i == 1 else {}
            ms.append(mv.WingCrossSectionMovement(base_wing_cross_section=x, **kw))
        wms.append(mv.WingMovement(base_wing=s.wing, wing_cross_sections_movements=ms, **(o.kw(moving) if moving in ("x_le", "y_le", "z_le") and w == 0 else {})))
    am = mv.AirplaneMovement(base_airplane=base, wing_movements=wms, **(o.kw(moving) if moving in ("x_ref", "y_ref", "z_ref") else {}))
    snaps = am.generate_airplanes(num_steps=steps, delta_time=dt)
    env.true("number of snapshots", len(snaps) == steps)
    for t, p in enumerate(snaps):
        at = "step %d: " % t
        compare(env, at + "airplane ", p, base, PLANE, (moving, "xyz_ref") if moving in ("x_ref", "y_ref", "z_ref") else ())
        env.true(at + "wings", len(p.wings) == len(secs))
        for w, s in enumerate(secs):
            at = "step %d, wing %d: " % (t, w)
            x = p.wings[w]
            compare(env, at, x, s.wing, WING, (moving, "leading_edge") if w == 0 and moving in ("x_le", "y_le", "z_le") else ())
            env.true(at + "sections", len(x.wing_cross_sections) == len(s.sections))
            env.true(at + "empty wake", tuple(x.wake_ring_vortex_vertices.shape) == (0, s.wing.num_spanwise_panels + 1, 3) and tuple(x.wake_ring_vortices.shape) == (0, s.wing.num_spanwise_panels))
            for i, y in enumerate(s.sections):
                skip = ()
                if w == 0 and i >= 1 and moving in ("sweeping", "heaving"):
                    skip = ("x_le", "y_le", "z_le", "leading_edge", "trailing_edge")
                if w == 0 and i == 1 and moving == "pitching":
                    skip = ("twist", "unit_chordwise_vector", "unit_up_vector", "trailing_edge")
                compare(env, at + "section %d: " % i, x.wing_cross_sections[i], y, SECTION, skip)
                env.true(at + "section %d: airfoil" % i, x.wing_cross_sections[i].airfoil is y.airfoil)
            if moving is None or moving in ("x_ref", "y_ref", "z_ref"):
                env.true(at + "panel grid", tuple(x.panels.shape) == tuple(s.wing.panels.shape))
                for i in range(x.panels.shape[0]):
                    for j in range(x.panels.shape[1]):
                        for c in CORNERS:
                            env.eq(at + "panel %d %d %s" % (i, j, c), getattr(x.panels[i, j], c), getattr(s.wing.panels[i, j], c))
    # independent snapshots
    every = [base] + list(snaps)
    env.true("airplanes are separate", len({id(p) for p in every}) == steps + 1)
    for w in range(len(secs)):
        ws = [p.wings[w] for p in every]
        env.true("wings are separate", len({id(x) for x in ws}) == steps + 1)
        env.true("panel arrays are separate", len({id(x.panels) for x in ws}) == steps + 1)
        env.true("panels are separate", len({id(q) for x in ws for q in x.panels.ravel()}) == sum(x.panels.size for x in ws))
        env.true("wakes are separate", len({id(x.wake_ring_vortices) for x in ws}) == steps + 1 and len({id(x.wake_ring_vortex_vertices) for x in ws}) == steps + 1)
        for i in range(len(secs[w].sections)):
            env.true("sections are separate", len({id(x.wing_cross_sections[i]) for x in ws}) == steps + 1)
    # the base is as it was
    unchanged(env, "base airplane ", base, rec_p)
    env.true("base wings", len(base.wings) == len(secs) and all(a is s.wing for a, s in zip(base.wings, secs)))
    for w, s in enumerate(secs):
        unchanged(env, "base wing %d " % w, s.wing, rec_w[w])
        env.true("base sections", all(a is b for a, b in zip(s.wing.wing_cross_sections, s.sections)))
        for i, x in enumerate(s.sections):
            unchanged(env, "base section %d.%d " % (w, i), x, rec_s[w][i])


def no_panels(env, wing):
    import numpy

    g = env.module("panel").Panel
    P = numpy.empty((wing.num_chordwise_panels, wing.num_spanwise_panels), dtype=object)
    for i in range(P.shape[0]):
        for j in range(P.shape[1]):
            at = lambda a, b: env.array([a, b, 0])
            P[i, j] = g(front_right_vertex=at(i, j + 1), front_left_vertex=at(i, j), back_left_vertex=at(i + 1, j), back_right_vertex=at(i + 1, j + 1),
                        is_leading_edge=i == 0, is_trailing_edge=i == P.shape[0] - 1)
    wing.panels = P


def points(env, moving):
    mv = env.ps.movement
    v = dict(density=env.real("rho", 1, 2), velocity=env.real("V", 1, 99), alpha=env.real("alpha", -90, 90), beta=env.real("beta", -90, 90),
             external_thrust=env.real("T", -9, 9), nu=env.real("nu", 0, 1))
    base = env.ps.operating_point.OperatingPoint(**v)
    kw = Osc(env, "o", env.choice("spacing", ("sine", "uniform"))).kw("velocity") if moving else {}
    ops = mv.OperatingPointMovement(base_operating_point=base, **kw).generate_operating_points(num_steps=3, delta_time=env.real("dt", env.const("0.01"), 2))
    for t, o in enumerate(ops):
        compare(env, "step %d: " % t, o, base, POINT, ("velocity",) if moving else ())
    env.true("operating points are separate", len({id(o) for o in [base] + list(ops)}) == 4)
    unchanged(env, "base ", base, v)


def movement(env):
    """A whole static movement, and the problem made of it."""
    mv = env.ps.movement
    planes = [plane(env, t, ((1,),), False, "uniform", "uniform", ("symmetric",) * 2, True, True) for t in ("a", "b")]
    ams = []
    for secs, base in planes:
        wms = [mv.WingMovement(base_wing=s.wing, wing_cross_sections_movements=[mv.WingCrossSectionMovement(base_wing_cross_section=x) for x in s.sections]) for s in secs]
        ams.append(mv.AirplaneMovement(base_airplane=base, wing_movements=wms))
    v = dict(density=env.real("rho", 1, 2), velocity=env.real("V", 1, 99), alpha=env.real("alpha", -90, 90), beta=env.real("beta", -90, 90),
             external_thrust=env.real("T", -9, 9), nu=env.real("nu", 0, 1))
    bop = env.ps.operating_point.OperatingPoint(**v)
    m = mv.Movement(airplane_movements=ams, operating_point_movement=mv.OperatingPointMovement(base_operating_point=bop), num_steps=2, delta_time=env.real("dt", env.const("0.01"), 2))
    pb = env.ps.problems.UnsteadyProblem(movement=m)
    env.true("steps", len(pb.steady_problems) == 2 and pb.num_steps == 2)
    env.eq("time step", pb.delta_time, env.real("dt", env.const("0.01"), 2))
    for t, sp in enumerate(pb.steady_problems):
        compare(env, "step %d: " % t, sp.operating_point, bop, POINT)
        env.true("step %d: airplanes" % t, len(sp.airplanes) == 2 and all(sp.airplanes[k] is m.airplanes[k][t] for k in (0, 1)) and sp.operating_point is m.operating_points[t])
        for k, (secs, base) in enumerate(planes):
            compare(env, "step %d, airplane %d: " % (t, k), sp.airplanes[k], base, PLANE)


M = ("movement", "geometry", "operating_point", "problems")
B = "any section positions, chords, twists, planes, control surfaces; "


def part(name, tiers=("quick", "thorough"), **kw):
    return Part(name, airplanes, B + ", ".join("%s=%s" % x for x in sorted(kw.items())), tiers=tiers, modules=M, params=kw)


PARTS = [
    part("static"),
    part("static, cosine, symmetric", symmetric=True, chordwise="cosine", spanwise="cosine"),
    part("static, three sections", shapes=((1, 2),), types=("asymmetric", "symmetric"), flat=True),
    part("static, two wings", shapes=((1,), (2,))),
    part("static, own references", given=False, flat=True),
    part("static, vertical", vertical=True),
    part("static, vertical after another", vertical=True, shapes=((1, 1),), flat=True),
    part("static, chordwise direction along z", shapes=((2,), (1,)), frame="z"),
    part("static, tilted chordwise direction", shapes=((1, 1),), frame="tilted", flat=True, symmetric=True),
    Part("operating point", points, "any values, 3 steps", modules=M, params=dict(moving=False)),
    Part("operating point, moving", points, "any values, 3 steps", modules=M, params=dict(moving=True)),
    Part("movement", movement, B + "two airplanes, 2 steps", modules=M),
]
PARTS += [part("moving " + k, moving=k, shapes=((1, 1), (1,)) if k == "sweeping" else ((1,), (1,))) for k in KINDS + ("x_le", "y_le", "z_le", "x_ref", "y_ref", "z_ref")]
PARTS += [part("static, three sections in any planes", tiers=("thorough",), shapes=((1, 2),)), part("static, many steps", tiers=("thorough",), steps=5), part("static, three wings", tiers=("thorough",), shapes=((1, 1), (2, 1), (1,)), symmetric=True)]
PARTS += [
    Part("two static movements at once", two(airplanes, "pr", "p[sc]_ref|pb_ref|pW", ".*le", ".*chord", ".*twist", ".*af", ".*defl", ".*hinge", "dt"), B + "two unrelated airplanes", modules=M, params=dict(flat=True)),
    Part("two operating point movements at once", two(points, "rho", "V", "alpha", "beta", "T", "nu", "oA", "oP", "dt"), "any values, 3 steps", modules=M, params=dict(moving=True)),
]
