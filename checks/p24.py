"""Oscillation samples."""
from common import *
from engine.parts import Part


def triangle(env, x):
    """Triangle wave with the extrema and zeros of sin(x)."""
    if env.symbolic:
        from engine import shim

        return shim.sawtooth(x + env.pi / 2, env.const("0.5"))
    f = (x / (2 * math.pi) + 0.25) % 1.0
    return 4 * f - 1 if f < 0.5 else 3 - 4 * f


def wave(env, spacing, x, poly=None):
    if spacing == "sine":
        return env.np.sin(x)
    if spacing == "uniform":
        return triangle(env, x)
    return poly(x)


def custom(env, tag=""):
    c = [env.real("%sc%d" % (tag, i), -2, 2) for i in range(3)]
    return lambda x: c[0] + c[1] * x + c[2] * x * x


def call(env, spacing, **kw):
    m = env.module("movement")
    name = dict(sine="oscillating_sinspace", uniform="oscillating_linspace", custom="oscillating_customspace")[spacing]
    return getattr(m, name)(**kw)


def harness(env, n, spacing, mode):
    f = custom(env) if spacing == "custom" else None
    A, B = env.real("A", -9, 9), env.real("B", -9, 9)
    if mode == "zero":
        kind = env.int_("zero", 0, 2)
        A = A if kind == 0 else 0
        P = env.real("P", env.const("0.1"), 9) if kind == 1 else 0
        dt = env.real("dt", env.const("0.01"), 1)
    elif mode == "any":
        env.assume(env.lnot(A == 0))
        P, dt = env.real("P", env.const("0.1"), 9), env.real("dt", env.const("0.01"), 1)
    else:  # the period is m eighths of ... steps: every sample lands on an exact phase
        env.assume(env.lnot(A == 0))
        dt = env.const("0.25")
        m = env.int_("m", 1, 2)
        P = dt * env.choice("steps per period", (4, 8, 12)) / m
    kw = dict(custom_function=f) if f else {}
    got = call(env, spacing, amplitude=A, period=P, base_value=B, num_steps=n, delta_time=dt, **kw)
    env.true("count", tuple(got.shape) == (n,))
    if mode == "zero":
        env.eq("constant", got, [B] * n)
        return
    env.eq("samples", got, [B + A * wave(env, spacing, 2 * env.pi * (k * dt) / P, f) for k in range(n)])
    if spacing != "custom":
        env.eq("starts at the base", got[0], B)
    if mode == "exact" and spacing == "uniform":
        per = P / dt
        for k in range(n):
            x = (k / per) % 1 if not env.symbolic else (env.const(k) / per) % 1
            y = 4 * x if x <= 0.25 else (2 - 4 * x if x <= 0.75 else 4 * x - 4)
            env.eq("triangle sample %d" % k, got[k], B + A * y)


M = ("movement",)
PARTS = []
for _s in ("sine", "uniform", "custom"):
    PARTS.append(Part(_s, harness, "any amplitude, base, period and time step, 6 samples", modules=M, params=dict(n=6, spacing=_s, mode="any")))
    PARTS.append(Part(_s + ", many samples", harness, "any amplitude, base, period and time step, 40 samples", modules=M, params=dict(n=40, spacing=_s, mode="any")))
    PARTS.append(Part(_s + ", static", harness, "zero amplitude, zero period or both, 4 samples", modules=M, params=dict(n=4, spacing=_s, mode="zero")))
    PARTS.append(Part(_s + ", exact phases", harness, "any amplitude and base, 2 to 12 steps per period, 9 samples", modules=M, params=dict(n=9, spacing=_s, mode="exact")))
for _s in ("sine", "uniform", "custom"):
    PARTS.append(Part(_s + ", two motions at once", two(harness, "A", "B", "P", "dt"), "any two amplitudes, bases, periods and time steps, 4 samples", modules=M, params=dict(n=4, spacing=_s, mode="any")))
