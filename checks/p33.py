"""Printed results."""
import re

from common import *
from engine.parts import Part

GROUPS = (("force", "", ("Induced Drag", "Side Force", "Lift")), ("moment", "", ("Rolling Moment", "Pitching Moment", "Yawing Moment")),
          ("force", "coefficients", ("CDi", "CY", "CL")), ("moment", "coefficients", ("Cl", "Cm", "Cn")))
LABELS = [l for g in GROUPS for l in g[2]]
LINE = re.compile(r"^\s*(%s)\s*[:=]\s*(\S+)" % "|".join(LABELS))


def read(env, names, start):
    """[(airplane, label, number)] of the printed text, in order."""
    out, plane = [], None
    for line in env.printed_text()[start:].split("\n"):
        m = LINE.match(line)
        if m:
            t = m.group(2)
            if t.startswith("\u27e8"):
                v = env.ctx.tokens[int(t[1:t.index("\u27e9")])]
            else:
                v = env.const(t)
            out.append((plane, m.group(1), v))
            continue
        for n in names:
            if n in line:
                plane = n
    return out


def compare(env, names, values, start):
    """values[name][label]"""
    got = read(env, names, start)
    env.true("every result once, under its airplane", sorted(str(g[:2]) for g in got) == sorted(str((n, l)) for n in names for l in LABELS))
    env.true("airplanes in order", [g[0] for g in got] == [n for n in names for _ in LABELS])
    tol = env.const("0.000501")
    for n, l, v in got:
        if n is None:
            continue
        env.true("%s %s" % (n, l), env.land(v - values[n][l] <= tol, values[n][l] - v <= tol))


def load(env, tag):
    """{label: value} and {(force|moment, ''|coefficients): vector}"""
    vals, vecs = {}, {}
    for what, kind, labels in GROUPS:
        v = [env.real("%s_%s%s%d" % (tag, what, kind, i), -90, 90) for i in range(3)]
        vecs[what, kind] = env.array(v)
        vals.update(zip(labels, v))
    return vals, vecs


def steady(env, planes, which):
    mod, cls = which
    pls = [Plane(env, k, [(1, 1)]) for k in range(planes)]
    names = ["Alpha %d" % k for k in range(planes)]
    values = {}
    op = operating_point(env)
    pb = env.ps.problems.SteadyProblem(airplanes=[p.airplane for p in pls], operating_point=op)
    s = getattr(env.module(mod), cls)(pb)
    for n, p in zip(names, pls):
        p.airplane.name = n
        values[n], vecs = load(env, n)
        for (what, kind), v in vecs.items():
            setattr(p.airplane, "total_near_field_%s_%swind_axes" % (what, kind + "_" if kind else ""), v)
    start = len(env.printed_text())
    env.module("output").print_steady_results(s)
    compare(env, names, values, start)


def unsteady(env, planes, periodic):
    m = static_movement(env, [[(1, 1)]] * planes, 2, env.const("0.5"), [env.const("0.5")] * planes if periodic else ())
    pb = env.ps.problems.UnsteadyProblem(movement=m)
    s = env.module("unsteady_ring_vortex_lattice_method").UnsteadyRingVortexLatticeMethodSolver(pb)
    names = ["Alpha %d" % k for k in range(planes)]
    values = {}
    lists = {}
    for k, n in enumerate(names):
        for t in range(2):
            m.airplanes[k][t].name = n
        for kind in ("", "mean_", "rms_") if periodic else ("",):
            vals, vecs = load(env, n + kind)
            if kind == ("mean_" if periodic else ""):
                values[n] = vals
            for (what, c), v in vecs.items():
                key = "final_%snear_field_%s%s_wind_axes" % (kind, what, "_coefficients" if c else "s")
                lists.setdefault(key, []).append(v)
    for key, v in lists.items():
        env.true("the problem keeps " + key, isinstance(getattr(pb, key), list))
        if periodic and "final_near" in key:
            continue  # empty for periodic problems
        setattr(pb, key, v)
    start = len(env.printed_text())
    env.module("output").print_unsteady_results(s)
    compare(env, names, values, start)


M = ("output", "steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method", "unsteady_ring_vortex_lattice_method")
H, R = (("steady_%s_vortex_lattice_method" % a, "Steady%sVortexLatticeMethodSolver" % a.title()) for a in ("horseshoe", "ring"))
B = "any loads and coefficients within 90; "
PARTS = [
    Part("horseshoe", steady, B + "one airplane", modules=M, params=dict(planes=1, which=H)),
    Part("ring, three airplanes", steady, B + "three airplanes", modules=M, params=dict(planes=3, which=R)),
    Part("static", unsteady, B + "one airplane", modules=M, params=dict(planes=1, periodic=False)),
    Part("static, two airplanes", unsteady, B + "two airplanes", modules=M, params=dict(planes=2, periodic=False)),
    Part("periodic", unsteady, B + "one airplane", modules=M, params=dict(planes=1, periodic=True)),
    Part("periodic, three airplanes", unsteady, B + "three airplanes", modules=M, params=dict(planes=3, periodic=True)),
]
PARTS += [
    Part("horseshoe, two problems at once", two(steady), B + "two problems of an airplane of the same name", modules=M, params=dict(planes=1, which=H)),
    Part("ring, two problems at once", two(steady), B + "two problems of an airplane of the same name", modules=M, params=dict(planes=1, which=R)),
    Part("static, two problems at once", two(unsteady), B + "two problems of an airplane of the same name", modules=M, params=dict(planes=1, periodic=False)),
    Part("periodic, two problems at once", two(unsteady), B + "two problems of an airplane of the same name", modules=M, params=dict(planes=1, periodic=True)),
]
