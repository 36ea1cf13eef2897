"""Movement timing."""
from common import *
from engine.parts import Part

PLACES = []
for a in (0, 1):
    PLACES += [("ref", a, c) for c in "xyz"]
    for w in range(2 - a):
        PLACES += [("le", a, w, c) for c in "xyz"]
        for s in (0, 1):
            PLACES += [("section", a, w, s, k) for k in ("sweeping", "pitching", "heaving") if s or k == "pitching"]
PLACES.append(("velocity",))


def build(env, planes=2, period=None, default=0, z_amplitude=0, v_amplitude=0, c_refs=(None, None), V=None, nc=((1, 1), (1,)), **kw):
    """A Movement with period[place] (else default) at every place."""
    mv, period = env.ps.movement, period or {}
    per = lambda *k: period.get(k, default)
    ams = []
    for a in range(planes):
        wings = [make_wing(env, n, 1, span=2 + w, name="wing %d.%d" % (a, w)) for w, n in enumerate(nc[a])]
        base = env.ps.geometry.Airplane(wings=wings, name="plane %d" % a, **(dict(c_ref=c_refs[a]) if c_refs[a] is not None else {}))
        wms = []
        for w, wing in enumerate(wings):
            sm = []
            for s, x in enumerate(wing.wing_cross_sections):
                sm.append(mv.WingCrossSectionMovement(base_wing_cross_section=x, **{
                    k + "_period": per("section", a, w, s, k) if s or k == "pitching" else 0 for k in ("sweeping", "pitching", "heaving")}))
            wms.append(mv.WingMovement(base_wing=wing, wing_cross_sections_movements=sm, **{c + "_le_period": per("le", a, w, c) for c in "xyz"}))
        ams.append(mv.AirplaneMovement(base_airplane=base, wing_movements=wms, z_ref_amplitude=z_amplitude if a == 0 else 0,
                                       **{c + "_ref_period": per("ref", a, c) for c in "xyz"}))
    op = env.ps.operating_point.OperatingPoint(velocity=V) if V is not None else env.ps.operating_point.OperatingPoint()
    om = mv.OperatingPointMovement(base_operating_point=op, velocity_amplitude=v_amplitude, velocity_period=per("velocity"))
    return mv.Movement(airplane_movements=ams, operating_point_movement=om, **kw)


def longest(env, lo, hi):
    place = PLACES[env.int_("place", lo, hi)]
    P, Q = env.real("P", 0, 9), env.real("Q", 0, 9)
    env.assume(Q <= P)
    m = build(env, period={place: P}, default=Q, num_steps=1, delta_time=1)
    env.eq("largest period", m.get_max_period(), P)
    pb = env.ps.problems.UnsteadyProblem(movement=m)
    env.eq("largest period of the problem", pb.max_period, P)


def counts(env, m, n):
    env.true("snapshots", len(m.airplanes) == len(m.airplane_movements) and all(len(a) == n for a in m.airplanes) and len(m.operating_points) == n)


def times(env, m, n, dt, P, zA, vA, V):
    """The oscillations are sampled with the movement's own time step."""
    for k in range(n):
        s = env.np.sin(2 * env.pi * (k * dt) / P)
        env.eq("reference point at step %d" % k, m.airplanes[0][k].z_ref, zA * s)
        env.eq("speed at step %d" % k, m.operating_points[k].velocity, V + vA * s)


def moving(env):
    return dict(z_amplitude=env.real("zA", 1, 2), v_amplitude=env.real("vA", 1, 2), V=env.real("V", 3, 9))


def explicit(env, planes):
    n, static = env.int_("n", 1, 3), env.flag("static")
    dt, P = env.real("dt", env.const("0.1"), 3), env.real("P", 1, 9)
    m = build(env, planes=planes, default=0 if static else P, num_steps=n, delta_time=dt, **moving(env))
    env.eq("time step", m.delta_time, dt)
    env.true("number of steps", m.num_steps == n)
    env.true("cycles and chords unset", m.num_cycles is None and m.num_chords is None)
    counts(env, m, n)
    if not static:
        times(env, m, n, dt, P, env.real("zA", 1, 2), env.real("vA", 1, 2), env.real("V", 3, 9))


def mean_step(c, nc, V):
    return sum([x / n[0] / V for x, n in zip(c, nc)], 0) / len(c)


def default_step(env, nc):
    planes = len(nc)
    c = [env.real("c%d" % i, env.const("0.5"), 5) for i in range(planes)]
    V, P = env.real("V", 3, 9), env.real("P", 1, 9)
    m = build(env, planes=planes, nc=nc, c_refs=c + [None], default=P, num_steps=2, **moving(env))
    dt = mean_step(c, nc, V)
    env.eq("time step", m.delta_time, dt)
    env.true("number of steps", m.num_steps == 2)
    counts(env, m, 2)
    times(env, m, 2, dt, P, env.real("zA", 1, 2), env.real("vA", 1, 2), V)


def steps(env, periodic, given, planes):
    """Default number of steps; given counts of cycles or chords."""
    c = [env.real("c%d" % i, env.const("0.5"), 5) for i in range(planes)]
    V, dt = env.real("V", 3, 9), env.real("dt", env.const("0.01"), 9)
    N = env.real("N", env.const("0.5"), 4) if given else (3 if periodic else 10)
    kw = {"num_cycles" if periodic else "num_chords": N} if given else {}
    hi = 4 if given else 5
    P = env.real("P", env.const("0.1"), 9)
    big = c[0]
    if planes > 1:
        if env.flag("second longer"):
            env.assume(c[1] >= c[0])
            big = c[1]
        else:
            env.assume(c[1] <= c[0])
    r = N * P / dt if periodic else N * big / (dt * V)
    env.assume(r > env.const("0.01"))
    env.assume(r < hi)
    mv = moving(env)
    if not periodic:
        mv.pop("z_amplitude"), mv.pop("v_amplitude")
    m = build(env, planes=planes, c_refs=c + [None], default=P if periodic else 0, delta_time=dt, **mv, **kw)
    n = m.num_steps
    env.true("enough steps", n >= r)
    env.true("no step more", n - 1 < r)
    env.eq("time step", m.delta_time, dt)
    env.eq("cycles or chords", m.num_cycles if periodic else m.num_chords, N)
    env.true("the other unset", (m.num_chords if periodic else m.num_cycles) is None)
    counts(env, m, int(n))
    if periodic:
        times(env, m, int(n), dt, P, env.real("zA", 1, 2), env.real("vA", 1, 2), V)


def all_default(env, periodic):
    """Nothing given: the default step and the default length combine."""
    c = [env.real("c0", env.const("0.5"), 5), env.real("c1", env.const("0.5"), 5)]
    V, P = env.real("V", 3, 9), env.real("P", env.const("0.01"), 9)
    nc = ((1,), (1,))
    dt = mean_step(c, nc, V)
    env.assume(c[0] >= c[1])
    r = 3 * P / dt if periodic else 10 * c[0] / (dt * V)
    env.assume(r < (4 if periodic else 13))
    m = build(env, c_refs=c, nc=nc, V=V, default=P if periodic else 0)
    env.eq("time step", m.delta_time, dt)
    env.true("number of steps", env.land(m.num_steps >= r, m.num_steps - 1 < r))
    counts(env, m, int(m.num_steps))


M = ("movement", "problems", "geometry", "operating_point")
half = len(PLACES) // 3
PARTS = [Part("longest period %d" % k, longest, "two airplanes, three wings of two sections; periods P at one place and Q <= P elsewhere, places %d to %d of %d" % (lo, hi, len(PLACES)),
              modules=M, params=dict(lo=lo, hi=hi)) for k, (lo, hi) in enumerate(((0, half), (half + 1, 2 * half), (2 * half + 1, len(PLACES) - 1)))]
PARTS += [
    Part("explicit", explicit, "1 to 3 steps, any time step in [0.1, 3], periods in [1, 9], static or not", modules=M, params=dict(planes=1)),
    Part("explicit, two airplanes", explicit, "1 to 3 steps, any time step in [0.1, 3], periods in [1, 9], static or not", modules=M, params=dict(planes=2)),
    Part("default time step", default_step, "one airplane of 2 and 3 chordwise panels; any chord and speed", modules=M, params=dict(nc=((2, 3),))),
    Part("default time step, two airplanes", default_step, "two airplanes; any chords and speed", modules=M, params=dict(nc=((1, 3), (2,)))),
    Part("default cycles", steps, "up to 5 steps", modules=M, params=dict(periodic=True, given=False, planes=1)),
    Part("cycles", steps, "any number of cycles in [0.5, 4], up to 4 steps", modules=M, params=dict(periodic=True, given=True, planes=1)),
    Part("default chords", steps, "two airplanes, up to 5 steps", modules=M, params=dict(periodic=False, given=False, planes=2)),
    Part("chords", steps, "two airplanes, any number of chords in [0.5, 4], up to 4 steps", modules=M, params=dict(periodic=False, given=True, planes=2)),
    Part("all defaults, periodic", all_default, "two airplanes, up to 4 steps", modules=M, params=dict(periodic=True)),
    Part("all defaults, static", all_default, "two airplanes, up to 13 steps", modules=M, params=dict(periodic=False)),
]
PARTS += [
    Part("two explicit movements", two(explicit, "n", "dt", "P", "zA", "vA", "V", "static"), "1 to 3 steps each, any time steps in [0.1, 3], periods in [1, 9], static or not", modules=M, params=dict(planes=1)),
    Part("two default time steps", two(default_step, "c", "V", "P", "zA", "vA"), "two unrelated movements of an airplane; any chords and speeds", modules=M, params=dict(nc=((2,),))),
    Part("two default lengths", two(steps, "c", "V", "P", "dt", "zA", "vA"), "two unrelated movements of an airplane, up to 5 steps each", modules=M, params=dict(periodic=True, given=False, planes=1)),
]
