"""Invalid definitions are rejected, valid ones accepted."""
from common import *
from engine.parts import Part

SPACINGS = ("cosine", "uniform", "Cosine", "uniform ", "sine", "", "cos", None)
WORDS = ("symmetric", "asymmetric", "Symmetric", "none", "", "sym", None)


def section(env, **kw):
    a = dict(airfoil=simple_airfoil(env), chord=1, num_spanwise_panels=1, spanwise_spacing="uniform", unit_normal_vector=env.array([0, 1, 0]))
    a.update(kw)
    return env.ps.geometry.WingCrossSection(**a)


def wing(env, sections, **kw):
    a = dict(wing_cross_sections=sections, num_chordwise_panels=1, chordwise_spacing="uniform", unit_normal_vector=env.array([0, 1, 0]),
             unit_chordwise_vector=env.array([1, 0, 0]))
    a.update(kw)
    return env.ps.geometry.Wing(**a)


def sections(env, rule):
    c = env.real("chord", -5, 5) if rule == "chord" else 1
    t = env.choice("type", WORDS) if rule == "control surface type" else "symmetric"
    s = env.choice("spacing", SPACINGS) if rule == "spacing" else "uniform"
    ok = env.land(c > 0, t in WORDS[:2], s in SPACINGS[:2])
    x = env.accepts(rule, lambda: section(env, chord=c, control_surface_type=t, spanwise_spacing=s), ok)
    if x is not None:
        env.eq("chord kept", x.chord, c)
        env.true("words kept", (x.control_surface_type, x.spanwise_spacing) == (t, s))


def wings(env, rule):
    np = env.np
    a, b = env.real("normal angle", -3, 3), env.real("other angle", -3, 3)
    n = [0, np.cos(a), np.sin(a)]
    kw, root, tip, count, ok = {}, dict(unit_normal_vector=env.array(n)), dict(unit_normal_vector=env.array(n), y_le=1), 2, True
    kw["unit_normal_vector"] = env.array(n)
    if rule == "sections":
        count = env.int_("sections", 0, 3)
        ok = count >= 2
    elif rule == "spacing":
        kw["chordwise_spacing"] = env.choice("spacing", SPACINGS)
        ok = kw["chordwise_spacing"] in SPACINGS[:2]
    elif rule == "root plane":
        m = [0, np.cos(b), np.sin(b)]
        kw["unit_normal_vector"] = env.array(m)
        ok = env.land(n[1] == m[1], n[2] == m[2])
    elif rule == "root leading edge":
        p = env.pt("root")
        root.update(x_le=p[0], y_le=p[1], z_le=p[2])
        ok = env.land(p[0] == 0, p[1] == 0, p[2] == 0)
    elif rule == "chordwise direction":
        # any direction in the plane of x and the normal
        kw["unit_chordwise_vector"] = env.array([np.cos(b), np.sin(b) * n[1], np.sin(b) * n[2]])
        ok = np.sin(b) == 0
    elif rule == "section planes":
        which = env.int_("which", 1, 2)
        k = [env.real("k" + c, -1, 1) for c in "xyz"]
        count, ok = 3, k[0] == 0
    ss = []
    for i in range(count):
        d = dict(root if i == 0 else tip)
        if i:
            d["y_le"] = i
        if rule == "section planes" and i == which:
            d["unit_normal_vector"] = env.array(k)
        ss.append(section(env, **d))
    env.accepts(rule, lambda: wing(env, ss, **kw), ok)


def airplanes(env):
    n = env.int_("wings", 0, 2)
    ws = [wing(env, [section(env), section(env, y_le=1)]) for i in range(n)]
    env.accepts("wings", lambda: env.ps.geometry.Airplane(wings=ws), n > 0)


def flaps(env):
    d = env.real("deflection", -200, 200)
    af = env.ps.geometry.Airfoil(name="af", coordinates=env.array([[1, 0], [env.const("0.5"), env.const("0.1")], [0, 0], [env.const("0.5"), env.const("-0.1")], [1, 0]]),
                                 repanel=False)
    env.accepts("deflection", lambda: af.add_control_surface(deflection=d, hinge_point=env.const("0.4")), env.land(d >= -90, d <= 90))


def airfoil_names(env):
    name = env.choice("name", ("no such airfoil", "naca99", "naca00123", "naca24xx", "", "NACA-2412"))
    env.raises("unknown airfoil", lambda: env.ps.geometry.Airfoil(name=name))


def levels(env):
    import logging

    f = env.module("functions").convert_logging_level_name_to_value
    name = env.choice("level", ("Debug", "Info", "Warning", "Error", "Critical", "debug", "INFO", "", None, "Fatal"))
    want = dict(Debug=logging.DEBUG, Info=logging.INFO, Warning=logging.WARNING, Error=logging.ERROR, Critical=logging.CRITICAL)
    got = env.accepts("level", lambda: f(name), name in want)
    if name in want:
        env.true("value", got == want[name])


def movements(env, kind):
    mv = env.ps.movement
    word = env.choice("spacing", ("sine", "uniform", "custom", "Sine", "", None, "cosine"))
    moving = env.flag("moving")
    A, P = (env.real("A", 1, 5), env.real("P", 1, 5)) if moving else (0, 0)
    if kind == "operating point":
        m = mv.OperatingPointMovement(env.ps.operating_point.OperatingPoint(), velocity_amplitude=A, velocity_period=P, velocity_spacing=word)
        env.accepts("spacing", lambda: m.generate_operating_points(num_steps=1, delta_time=env.const("0.5")), word in ("sine", "uniform"))
        return
    s = [section(env), section(env, y_le=1)]
    if kind == "section":
        what = env.choice("what", ("sweeping", "pitching", "heaving"))
        f = env.flag("function")
        kw = {what + "_amplitude": A, what + "_period": P, what + "_spacing": word}
        if f:
            kw["custom_%s_function" % {"sweeping": "sweep", "pitching": "pitch", "heaving": "heave"}[what]] = lambda x: x
        m = mv.WingCrossSectionMovement(s[1], **kw)
        z = env.array([0])
        env.accepts("spacing", lambda: m.generate_wing_cross_sections(num_steps=1, delta_time=env.const("0.5"), last_x_les=z, last_y_les=z, last_z_les=z, cross_section_span=1),
                    word in ("sine", "uniform") or word == "custom" and f)
        return
    axis = env.choice("axis", ("x", "y", "z"))
    w = wing(env, s)
    cs = [mv.WingCrossSectionMovement(x) for x in s]
    kw = lambda t: {axis + t + "_amplitude": A, axis + t + "_period": P, axis + t + "_spacing": word}
    if kind == "wing":
        m = mv.WingMovement(w, cs, **kw("_le"))
        env.accepts("spacing", lambda: m.generate_wings(num_steps=1, delta_time=env.const("0.5")), word in ("sine", "uniform"))
    else:
        p = env.ps.geometry.Airplane(wings=[w])
        m = mv.AirplaneMovement(p, [mv.WingMovement(w, cs)], **kw("_ref"))
        env.accepts("spacing", lambda: m.generate_airplanes(num_steps=1, delta_time=env.const("0.5")), word in ("sine", "uniform"))


def roots(env):
    """The root section of a wing may pitch, not sweep or heave."""
    mv = env.ps.movement
    s = [section(env), section(env, y_le=1)]
    w = wing(env, s)
    v = {}
    for k in ("sweeping_amplitude", "sweeping_period", "heaving_amplitude", "heaving_period"):
        v[k] = env.real(k, 0, 5)
    cs = [mv.WingCrossSectionMovement(s[0], **v), mv.WingCrossSectionMovement(s[1])]
    m = mv.WingMovement(w, cs)
    env.accepts("root section movement", lambda: m.generate_wings(num_steps=1, delta_time=env.const("0.5")), env.land(*[x == 0 for x in v.values()]))


def timing(env):
    """Cycles are for periodic movements and chords for static ones; neither goes with explicit steps."""
    mv = env.ps.movement
    s = [section(env), section(env, y_le=1)]
    w = wing(env, s)
    p = env.ps.geometry.Airplane(wings=[w])
    am = mv.AirplaneMovement(p, [mv.WingMovement(w, [mv.WingCrossSectionMovement(x) for x in s])])
    P = env.real("P", 0, 1)
    om = mv.OperatingPointMovement(env.ps.operating_point.OperatingPoint(velocity=1), velocity_amplitude=0, velocity_period=P)
    steps, cycles, chords = env.flag("steps"), env.flag("cycles"), env.flag("chords")
    kw = {}
    if steps:
        kw["num_steps"] = 1
    if cycles:
        kw["num_cycles"] = 1
    if chords:
        kw["num_chords"] = 1
    ok = True
    if cycles:
        ok = env.land(ok, not steps, P > 0)
    if chords:
        ok = env.land(ok, not steps, P == 0)
    env.accepts("timing arguments", lambda: mv.Movement([am], om, delta_time=1, **kw), ok)


def solver_types(env):
    """The kind of solver a steady convergence study is to use."""
    from p28 import fake_solvers, flat_mesh, simple_airfoil, STEADY
    flat_mesh(env)
    ran = []

    def on_run(name, pb, k):
        ran.append(name)
        for p in pb.airplanes:
            p.total_near_field_force_coefficients_wind_axes = env.array([1, 1, 1])
            p.total_near_field_moment_coefficients_wind_axes = env.array([1, 1, 1])

    fake_solvers(env, STEADY, on_run)
    g = env.ps.geometry
    w = g.Wing(wing_cross_sections=[g.WingCrossSection(airfoil=simple_airfoil(env), y_le=y, num_spanwise_panels=1) for y in (0, 1)], num_chordwise_panels=1)
    pb = env.ps.problems.SteadyProblem(airplanes=[g.Airplane(wings=[w])], operating_point=env.ps.operating_point.OperatingPoint())
    words = sorted(STEADY) + ["steady", "", "Steady Ring Vortex Lattice Method", "unsteady ring vortex lattice method", None]
    word = env.choice("solver", words)
    env.accepts("solver type", lambda: env.module("convergence").analyze_steady_convergence(
        ref_problem=pb, solver_type=word, panel_aspect_ratio_bounds=(1, 1), num_chordwise_panels_bounds=(1, 1)), word in STEADY)
    env.true("only the asked solver runs", all(n == word for n in ran))


M = ("geometry", "movement", "meshing", "functions")
PARTS = [Part("section: " + r, sections, "one section; any chord in [-5, 5]; listed words", modules=M, params=dict(rule=r)) for r in ("chord", "control surface type", "spacing")]
PARTS += [Part("wing: " + r, wings, b, modules=M, params=dict(rule=r)) for r, b in (
    ("sections", "0 to 3 sections"), ("spacing", "listed words"), ("root plane", "any two planes containing x"), ("root leading edge", "any offset"),
    ("chordwise direction", "any direction in the plane of x and the normal"), ("section planes", "3 sections, any normal of the second or third"))]
PARTS += [
    Part("airplane", airplanes, "0 to 2 wings", modules=M),
    Part("flap deflection", flaps, "any deflection in [-200, 200]", modules=M),
    Part("airfoil names", airfoil_names, "listed names", modules=M),
    Part("logging levels", levels, "listed names", modules=M),
    Part("convergence solver types", solver_types, "listed words", modules=M + ("convergence", "problems")),
    Part("root section movement", roots, "any amplitudes and periods in [0, 5]", modules=M),
    Part("timing arguments", timing, "any period in [0, 1], every combination of arguments", modules=M, max_paths=64),
]
PARTS += [Part(k + " movement spacing", movements, "listed words, moving or not", modules=M, params=dict(kind=k)) for k in ("operating point", "section", "wing", "airplane")]
