"""Flapping kinematics."""
from common import *
from engine.parts import Part
from p24 import wave, custom

KINDS = ("sweeping", "pitching", "heaving")
SHORT = dict(sweeping="sweep", pitching="pitch", heaving="heave")


def unmeshed(env):
    """Wings without panels: the mesh of a wing is P06's."""
    f = env.module("meshing").mesh_wing
    env.patch_everywhere(f, lambda wing: None)


class Osc:
    """A symbolic oscillation: keyword arguments for the package, and samples by the oracle."""

    def __init__(self, env, tag, spacing, moving=True):
        self.env, self.spacing, self.moving = env, spacing, moving
        self.A = env.real(tag + "A", 1, 40) if moving else 0
        self.P = env.real(tag + "P", env.const("0.1"), 9) if moving else 0
        self.f = custom(env, tag) if spacing == "custom" else None

    def kw(self, name, short=None):
        d = {name + "_amplitude": self.A, name + "_period": self.P, name + "_spacing": self.spacing}
        if self.f:
            d["custom_%s_function" % short] = self.f
        return d

    def at(self, base, t):
        if not self.moving:
            return base
        return base + self.A * wave(self.env, self.spacing, 2 * self.env.pi * t / self.P, self.f)


def tip_motions(env, tag, spacings, moving):
    return {k: Osc(env, tag + k[0], s, k in moving) for k, s in zip(KINDS, spacings)}


def sections(env, spacings, steps, moving, vertical=()):
    """One section after another: positions and twist of every section at every step."""
    env_np = env.np
    unmeshed(env)
    m = len(spacings)
    s = Sections(env, 1, (1,) * m, deflect=False, vertical=vertical)
    mv = env.ps.movement
    dt = env.real("dt", env.const("0.01"), 2)
    osc = [{"pitching": Osc(env, "r", spacings[0][1], "root" in moving)}] + [tip_motions(env, "t%d" % i, spacings[i], moving) for i in range(m)]
    for i in range(1, m + 1):
        if i not in vertical:
            env.assume(env.lnot(s.le[i][1] == s.le[i - 1][1]))
    ms = []
    for i, x in enumerate(s.sections):
        kw = {}
        for k, o in osc[i].items():
            kw.update(o.kw(k, SHORT[k]))
        ms.append(mv.WingCrossSectionMovement(base_wing_cross_section=x, **kw))
    wings = mv.WingMovement(base_wing=s.wing, wing_cross_sections_movements=ms).generate_wings(num_steps=steps, delta_time=dt)
    env.true("number of snapshots", len(wings) == steps and all(len(w.wing_cross_sections) == m + 1 for w in wings))
    rad = env.pi / 180
    for t in range(steps):
        prev = [0, 0, 0]
        for i in range(m + 1):
            x = wings[t].wing_cross_sections[i]
            at = "section %d, step %d: " % (i, t)
            if i in vertical:
                env.eq(at + "twist of a section without lateral offset", x.twist, s.twist[i])
                env.eq(at + "place of a section without lateral offset", x.leading_edge, s.le[i])
                env.eq(at + "place of a section without lateral offset, by component", [x.x_le, x.y_le, x.z_le], s.le[i])
                prev = s.le[i]
                continue
            env.eq(at + "twist", x.twist, osc[i]["pitching"].at(s.twist[i], t * dt))
            if i == 0:
                env.eq(at + "root", x.leading_edge, prev)
                continue
            d = sub(s.le[i], s.le[i - 1])
            h = env_np.sqrt(d[0] * d[0] + d[1] * d[1])
            up = osc[i]["sweeping"].at(env_np.arctan2(d[2], h) * 180 / env.pi, t * dt) * rad
            back = osc[i]["heaving"].at(env_np.arctan2(d[0], d[1]) * 180 / env.pi, t * dt) * rad
            c = env_np.cos(up)
            want = add(prev, mul(norm(env, d), [c * env_np.sin(back), c * env_np.cos(back), env_np.sin(up)]))
            got = wings[t].wing_cross_sections[i].leading_edge
            env.eq(at + "leading edge", got, want)
            env.eq(at + "leading edge, by component", [x.x_le, x.y_le, x.z_le], want)
            e = sub(list(got), list(wings[t].wing_cross_sections[i - 1].leading_edge))
            env.eq(at + "distance from the previous section", dot(e, e), dot(d, d))
            prev = want


def wing_origin(env, spacings, steps):
    unmeshed(env)
    s = Sections(env, 1, (1,), deflect=False)
    env.assume(env.lnot(s.le[1][1] == 0))
    mv = env.ps.movement
    dt = env.real("dt", env.const("0.01"), 2)
    osc = [Osc(env, c, sp) for c, sp in zip("xyz", spacings)]
    kw = {}
    for c, o in zip("xyz", osc):
        kw.update(o.kw(c + "_le"))
    ms = [mv.WingCrossSectionMovement(base_wing_cross_section=x) for x in s.sections]
    wings = mv.WingMovement(base_wing=s.wing, wing_cross_sections_movements=ms, **kw).generate_wings(num_steps=steps, delta_time=dt)
    for t, w in enumerate(wings):
        want = [o.at(b, t * dt) for o, b in zip(osc, s.origin)]
        env.eq("wing leading edge, step %d" % t, w.leading_edge, want)
        env.eq("wing leading edge by component, step %d" % t, [w.x_le, w.y_le, w.z_le], want)


def airplane_origin(env, spacings, steps):
    mv = env.ps.movement
    w = make_wing(env, 1, 1)
    r = [env.real("r" + c, -5, 5) for c in "xyz"]
    base = env.ps.geometry.Airplane(wings=[w], x_ref=r[0], y_ref=r[1], z_ref=r[2])
    dt = env.real("dt", env.const("0.01"), 2)
    osc = [Osc(env, c, sp) for c, sp in zip("xyz", spacings)]
    kw = {}
    for c, o in zip("xyz", osc):
        kw.update(o.kw(c + "_ref"))
    wm = mv.WingMovement(base_wing=w, wing_cross_sections_movements=[mv.WingCrossSectionMovement(base_wing_cross_section=x) for x in w.wing_cross_sections])
    ps = mv.AirplaneMovement(base_airplane=base, wing_movements=[wm], **kw).generate_airplanes(num_steps=steps, delta_time=dt)
    env.true("number of snapshots", len(ps) == steps)
    for t, p in enumerate(ps):
        want = [o.at(b, t * dt) for o, b in zip(osc, r)]
        env.eq("reference point, step %d" % t, p.xyz_ref, want)
        env.eq("reference point by component, step %d" % t, [p.x_ref, p.y_ref, p.z_ref], want)


def speed(env, spacing, steps):
    mv = env.ps.movement
    V, dt = env.real("V", 1, 9), env.real("dt", env.const("0.01"), 2)
    o = Osc(env, "v", spacing)
    ops = mv.OperatingPointMovement(base_operating_point=env.ps.operating_point.OperatingPoint(velocity=V), **o.kw("velocity")).generate_operating_points(
        num_steps=steps, delta_time=dt)
    env.true("number of snapshots", len(ops) == steps)
    for t, x in enumerate(ops):
        env.eq("speed, step %d" % t, x.velocity, o.at(V, t * dt))


M = ("movement", "geometry", "operating_point")
B = "any section positions, planes, chords and twists, amplitudes in [1, 40], periods in [0.1, 9], time step in [0.01, 2]; "
ALL = KINDS + ("root",)
S3 = ("sine",) * 3
PARTS = [Part("two sections, " + sp, sections, B + "3 steps", modules=M, params=dict(spacings=((sp,) * 3,), steps=3, moving=ALL)) for sp in ("sine", "uniform", "custom")]
PARTS += [Part("two sections, only " + k, sections, B + "3 steps", modules=M, params=dict(spacings=(S3,), steps=3, moving=(k,))) for k in ALL]
PARTS += [
    Part("three sections", sections, B + "2 steps", modules=M, params=dict(spacings=(("sine", "uniform", "custom"), ("uniform", "custom", "sine")), steps=2, moving=ALL)),
    Part("winglet", sections, B + "2 steps; the last section is not laterally offset", modules=M,
         params=dict(spacings=(("sine", "uniform", "custom"), S3), steps=2, moving=ALL, vertical=(2,))),
    Part("upright first strip", sections, B + "2 steps; the second section is not laterally offset", modules=M,
         params=dict(spacings=(S3, ("uniform", "custom", "sine")), steps=2, moving=ALL, vertical=(1,))),
    Part("wing origin", wing_origin, B + "4 steps", modules=M, params=dict(spacings=("sine", "uniform", "sine"), steps=4)),
    Part("wing origin, uniform", wing_origin, B + "4 steps", modules=M, params=dict(spacings=("uniform", "sine", "uniform"), steps=4)),
    Part("reference point", airplane_origin, B + "4 steps", modules=M, params=dict(spacings=("sine", "uniform", "sine"), steps=4)),
    Part("reference point, uniform", airplane_origin, B + "4 steps", modules=M, params=dict(spacings=("uniform", "sine", "uniform"), steps=4)),
    Part("speed, sine", speed, B + "5 steps", modules=M, params=dict(spacing="sine", steps=5)),
    Part("speed, uniform", speed, B + "5 steps", modules=M, params=dict(spacing="uniform", steps=5)),
    Part("four sections", sections, B + "2 steps", tiers=("thorough",), modules=M, params=dict(spacings=(S3, ("uniform",) * 3, S3), steps=2, moving=ALL)),
    Part("two sections, many steps", sections, B + "8 steps", tiers=("thorough",), modules=M, params=dict(spacings=(("sine", "uniform", "custom"),), steps=8, moving=ALL)),
]
PARTS += [
    Part("two wings at once", two(sections, "le", "chord", "twist", ".*A$", ".*P$", "dt"), B + "two unrelated wings, 2 steps", modules=M, params=dict(spacings=(S3,), steps=2, moving=ALL)),
    Part("two wing origins at once", two(wing_origin, "le", "wle", ".*A$", ".*P$", "dt"), B + "two unrelated wings, 3 steps", modules=M, params=dict(spacings=("sine", "uniform", "sine"), steps=3)),
    Part("two speeds at once", two(speed, "V", "vA", "vP", "dt"), B + "3 steps", modules=M, params=dict(spacing="uniform", steps=3)),
]
