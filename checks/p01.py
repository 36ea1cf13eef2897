"""Operating point: wind axes, freestream direction and velocity, dynamic pressure."""
from common import two
from engine.parts import Part


def wind(env):
    op = env.module("operating_point").OperatingPoint
    v = values(env, "")
    judge(env, op(density=v[0], velocity=v[1], alpha=v[2], beta=v[3]), *v)


def altered(env):
    """An operating point used, then given other values, as a trim study does."""
    op = env.module("operating_point").OperatingPoint
    v, w = values(env, "old "), values(env, "")
    o = op(density=v[0], velocity=v[1], alpha=v[2], beta=v[3])
    o.calculate_dynamic_pressure(), o.calculate_rotation_matrix_wind_to_geometry()
    o.calculate_freestream_direction_geometry_axes(), o.calculate_freestream_velocity_geometry_axes()
    which = env.int_("changed", 0, 4)
    w = [b if which in (k, 4) else a for k, (a, b) in enumerate(zip(v, w))]
    o.density, o.velocity, o.alpha, o.beta = w
    judge(env, o, *w)


def values(env, n):
    return [env.real(n + "rho", 0.1, 5), env.real(n + "V", 0.1, 100), env.real(n + "alpha", -180, 180), env.real(n + "beta", -180, 180)]


def judge(env, o, rho, V, al, be):
    np = env.np
    a, b = al * env.pi / 180, be * env.pi / 180
    sa, ca, sb, cb = np.sin(a), np.cos(a), np.sin(b), np.cos(b)
    d = [ca * cb, -sb, sa * cb]
    env.eq("dynamic pressure", o.calculate_dynamic_pressure(), rho * V * V / 2)
    env.eq("freestream direction", o.calculate_freestream_direction_geometry_axes(), d)
    v = o.calculate_freestream_velocity_geometry_axes()
    env.eq("freestream velocity", v, [V * x for x in d])
    env.eq("speed", v[0] * v[0] + v[1] * v[1] + v[2] * v[2], V * V)
    R = np.array(o.calculate_rotation_matrix_wind_to_geometry())
    env.eq("orthonormal", R.T @ R, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    det = (R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
           + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]))
    env.eq("right handed", det, 1)
    # wind x points against the stream, wind z is down, normal to the stream, in the symmetry plane
    env.eq("wind x axis", R @ np.array([1, 0, 0]), [-x for x in d])
    env.eq("wind z axis", R @ np.array([0, 0, 1]), [sa, 0, -ca])
    env.eq("wind y axis", R @ np.array([0, 1, 0]), [ca * sb, cb, sa * sb])


PARTS = [
    Part("wind-axes", wind, "alpha, beta in [-180, 180] deg, speed in [0.1, 100], density in [0.1, 5]", modules=("operating_point",)),
    Part("altered values", altered, "any first and second values, all or one of them changed between the uses", modules=("operating_point",)),
]
PARTS.append(Part("two operating points at once", two(wind, "rho|d", "V|v", "al", "be", "nu"), "any values of both", modules=("operating_point",)))
