"""Drawings, animations and time plots: the data handed to the viewer and to the plots."""
import types

from common import *
from engine.parts import Part
from p21 import ATTRS

SCALARS = {"induced drag": "induced_drag_coefficient", "side force": "side_force_coefficient", "lift": "lift_coefficient"}


class Inert:
    """Takes any call."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = Inert()
        setattr(self, n, v)
        return v

    def __call__(self, *a, **k):
        return Inert()


class InertModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = Inert()
        setattr(self, n, v)
        return v


class Viewer:
    """Stand-ins for PyVista and webp: frames[i] is what was on the screen when it was shown or captured."""

    def __init__(self, env):
        self.env, self.frames, self.saved, self.scene = env, [], [], None
        self.fps, self.figures, self.files = [], [], []
        root = getattr(env, "_env", env)
        if hasattr(root, "viewers"):  # another harness has put the stand-ins in place
            root.viewers[0] = self
            return
        at = root.viewers = [self]

        class PolyData:
            def __init__(self, vertices, faces, *a, **k):
                f, self.quads, i = [int(x) for x in list(env.np.ravel(faces))], [], 0
                while i < len(f):
                    self.quads.append([list(vertices[j]) for j in f[i + 1:i + 1 + f[i]]])
                    i += 1 + f[i]

        class Line:
            def __init__(self, pointa, pointb, *a, **k):
                self.ends = [list(pointa), list(pointb)]

        class Plotter(Inert):
            def __init__(self, *a, **k):
                at[0].scene = dict(meshes=[], texts=[])

            def clear(self, *a, **k):
                at[0].scene = dict(meshes=[], texts=[])

            def add_mesh(self, mesh, *a, **k):
                at[0].scene["meshes"].append((mesh, k.get("scalars"), k.get("color"), k.get("scalar_bar_args"), k.get("clim")))

            def add_text(self, text, *a, **k):
                at[0].scene["texts"].append(text)

            def show(self, *a, **k):
                at[0].frames.append(("shown", at[0].scene))

            def screenshot(self, *a, **k):
                at[0].frames.append(("captured", at[0].scene))
                return len(at[0].frames) - 1

        pv, webp, mpl, plt = (InertModule(n) for n in ("pyvista", "webp", "matplotlib", "matplotlib.pyplot"))
        pv.PolyData, pv.Line, pv.Plotter = PolyData, Line, Plotter
        webp.Image = types.SimpleNamespace(fromarray=lambda x: x)
        webp.save_image = lambda img, *a, **k: at[0].saved.append([img])

        def save_images(imgs, *a, **k):
            at[0].saved.append(list(imgs))
            at[0].fps.append(k.get("fps", a[1] if len(a) > 1 else None))

        webp.save_images = save_images

        class Axes(Inert):
            def __init__(self):
                self.title, self.lines = None, []

            def plot(self, x, y, *a, **k):
                self.lines.append((k.get("label"), list(x), list(y)))

            def set_title(self, t, *a, **k):
                self.title = t

        def subplots(*a, **k):
            f = Inert()
            at[0].figures.append(Axes())
            ax = at[0].figures[-1]
            ax.shown = 0

            def show(*a, **k):
                ax.shown += 1

            f.savefig = lambda name, *a, **k: at[0].files.append((ax, str(name)))
            f.show = show
            return f, ax

        plt.subplots = subplots
        mpl.pyplot = plt
        mpl.__path__ = []
        root.extra_modules = {"pyvista": pv, "webp": webp, "matplotlib": mpl, "matplotlib.pyplot": plt}


def panels_of(planes):
    return [p for a in planes for w in a.wings for p in list(w.panels.reshape(-1))]


def quad(p):
    return [p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex]


def wake_of(planes):
    """Corners of the wake's rings, from the wake vertices kept by each step's wings."""
    out = []
    for a in planes:
        for w in a.wings:
            v = w.wake_ring_vortex_vertices
            out += [[v[i, j], v[i, j + 1], v[i + 1, j + 1], v[i + 1, j]] for i in range(v.shape[0] - 1) for j in range(v.shape[1] - 1)]
    return out


def check_scene(env, tag, scene, planes, scalar, wake, lines=()):
    """planes: the airplanes to be seen; scalar: the panel coefficient shown, or None; wake: wake ring corners or None."""
    surfaces = [m for m in scene["meshes"] if hasattr(m[0], "quads")]
    env.true(tag + "surfaces", len(surfaces) == 1 + (wake is not None))
    if len(surfaces) != 1 + (wake is not None):
        return
    ps = panels_of(planes)
    body = [m for m in surfaces if len(m[0].quads) == len(ps)][-1:]
    trail = [m for m in surfaces if not body or m is not body[0]]
    env.true(tag + "one face per panel", len(body) == 1)
    if len(body) != 1:
        return
    env.eq(tag + "panel corners", body[0][0].quads, [[list(x) for x in quad(p)] for p in ps])
    if scalar:
        env.true(tag + "scalars shown", body[0][1] is not None)
        env.eq(tag + "scalars", list(body[0][1]), [getattr(p, SCALARS[scalar]) for p in ps])
        env.true(tag + "scalar bar title", scalar.title() in (body[0][3] or {}).get("title", ""))
    else:
        env.true(tag + "no scalars", body[0][1] is None)
    if wake is not None:
        env.eq(tag + "wake corners", trail[0][0].quads, [[list(x) for x in q] for q in wake])
    got = [m[0].ends for m in scene["meshes"] if hasattr(m[0], "ends")]
    env.true(tag + "number of streamline segments", len(got) == len(lines))
    if len(got) == len(lines):
        env.eq(tag + "streamline segments", got, [[list(a), list(b)] for a, b in lines])


def extreme_texts(env, tag, scene, values):
    """The texts naming the largest and smallest value, to two decimals."""
    q = env.const("0.00501")
    for word, sign in (("Max", 1), ("Min", -1)):
        ts = [t for t in scene["texts"] if t.startswith(word + ":")]
        env.true(tag + "one text for " + word, len(ts) == 1)
        if len(ts) != 1:
            continue
        t = ts[0].split(":")[1].strip()
        v = env.ctx.tokens[int(t[1:t.index("\u27e9")])] if t.startswith("\u27e8") else env.const(t)
        for x in values:
            env.true(tag + word + " bounds every value", sign * (x - v) <= q)
        env.true(tag + word + " is a value", env.lor(*[env.land(x - v <= q, v - x <= q) for x in values]))


def put_scalars(env, planes, tag=""):
    for n, p in enumerate(panels_of(planes)):
        for s, a in SCALARS.items():
            setattr(p, a, env.real("%s%s%d" % (tag, a, n), -5, 5))


def check_shown(env, V, save):
    env.true("shown" + (", captured and saved" if save else ""), [f[0] for f in V.frames] == ["shown"] + ["captured"] * save)
    env.true("saved image", V.saved == ([[1]] if save else []))


def steady(env, which, shapes, scalar=None, streamlines=False, save=False):
    V = Viewer(env)
    mod, cls = which
    pls = [Plane(env, k, sh) for k, sh in enumerate(shapes)]
    planes = [p.airplane for p in pls]
    pb = env.ps.problems.SteadyProblem(airplanes=planes, operating_point=operating_point(env))
    s = getattr(env.module(mod), cls)(pb)
    put_scalars(env, planes)
    lines = []
    if streamlines:
        P = [[env.pt("s%d_%d" % (i, j)) for j in range(2)] for i in range(3)]
        s.streamline_points = env.array(P)
        lines = [(P[i][j], P[i + 1][j]) for j in range(2) for i in range(2)]
    env.module("output").draw(s, scalar_type=scalar, show_streamlines=streamlines, **(dict(save=True) if save else {}))
    check_shown(env, V, save)
    check_scene(env, "", V.frames[-1][1], planes, scalar, None, lines)
    if scalar:
        extreme_texts(env, "", V.frames[0][1], [getattr(p, SCALARS[scalar]) for p in panels_of(planes)])


def colour_limits(scene):
    return next(list(m[4]) for m in scene["meshes"] if m[1] is not None and m[4] is not None)


def unsteady(env, shapes, steps, scalar=None, wake=True, animate=False, only_final=False, periodic=0, fixed=False, streamlines=False, save=False,
             dt="0.5"):
    V = Viewer(env)
    dt = env.const(dt)
    periods = [periodic * dt] * len(shapes) if periodic else ()
    u = Unsteady(env, shapes, steps, dt=dt, loads=False, only_final_results=only_final, periods=periods, fixed=fixed)
    planes = [[p.airplane for p in u.planes[t]] for t in range(steps)]
    first = steps - max(periodic, 1) if only_final else 0
    for t in range(first, steps):
        put_scalars(env, planes[t], "t%d_" % t)
    out = env.module("output")
    if not animate:
        lines = []
        if streamlines:
            P = [[env.pt("s%d_%d" % (i, j)) for j in range(2)] for i in range(3)]
            u.solver.streamline_points = env.array(P)
            lines = [(P[i][j], P[i + 1][j]) for j in range(2) for i in range(2)]
        out.draw(u.solver, scalar_type=scalar, show_wake_vortices=wake, show_streamlines=streamlines, **(dict(save=True) if save else {}))
        check_shown(env, V, save)
        check_scene(env, "", V.frames[-1][1], planes[-1], scalar, wake_of(planes[-1]) if wake else None, lines)
        if scalar:
            extreme_texts(env, "", V.frames[0][1], [getattr(p, SCALARS[scalar]) for p in panels_of(planes[-1])])
        return
    out.animate(u.solver, scalar_type=scalar, show_wake_vortices=wake, save=True)
    env.true("saved once", len(V.saved) == 1)
    frames = [V.frames[i][1] for i in V.saved[0]]
    env.true("one frame per step", len(frames) == steps)
    real = 1 / float(dt)
    fps = min(real, 50)
    env.true("frame rate", abs(float(V.fps[0]) - fps) < 1)
    for t, f in enumerate(frames):
        said = [x for x in f["texts"] if x.startswith("Speed:")]
        env.true("speed named, frame %d" % t, len(said) == 1 and abs(float(said[0].split(":")[1].strip(" %")) - 100 * fps / real) <= 1)
    every = [getattr(p, SCALARS[scalar]) for t in range(first, steps) for p in panels_of(planes[t])] if scalar else []
    limits = []
    for t, f in enumerate(frames):
        shown = scalar if t >= first else None
        check_scene(env, "frame %d " % t, f, planes[t], shown, wake_of(planes[t]) if wake and t else None)
        if shown:
            extreme_texts(env, "frame %d " % t, f, every)
            limits.append(colour_limits(f))
    for t in range(1, len(limits)):
        env.eq("one colour scale, frame %d" % t, limits[t], limits[0])


SERIES = (("Forces", "forces", ("Induced Drag", "Side Force", "Lift")), ("Force Coefficients", "force_coefficients", ("Induced Drag", "Side Force", "Lift")),
          ("Moments", "moments", ("Roll", "Pitch", "Yaw")), ("Moment Coefficients", "moment_coefficients", ("Roll", "Pitch", "Yaw")))


def plots(env, planes, steps, only_final, periodic, show=False, save=False):
    V = Viewer(env)
    dt = env.real("dt", env.const("0.1"), 1)
    m = static_movement(env, [[(1, 1)]] * planes, steps, dt, [periodic * dt] * planes if periodic else ())
    pb = env.ps.problems.UnsteadyProblem(movement=m, only_final_results=only_final)
    s = env.module("unsteady_ring_vortex_lattice_method").UnsteadyRingVortexLatticeMethodSolver(pb)
    first = steps - max(periodic, 1) if only_final else 0
    vals = {}
    for k in range(planes):
        for t in range(steps):
            a = m.airplanes[k][t]
            a.name = "Alpha %d" % k
            for kind, attr in ATTRS.items():
                vals[k, t, kind] = v = env.vec("%s_%d_%d" % (kind, k, t), 3, -9, 9)
                if t >= first:
                    setattr(a, attr, v)
    env.module("output").plot_results_versus_time(s, **dict([("show", False)] * (not show) + [("save", True)] * save))
    found = {f.title: f for f in V.figures}
    want = {"Alpha %d %s vs. Time" % (k, t): (k, kind, labels) for k in range(planes) for t, kind, labels in SERIES}
    env.true("one figure of each kind per airplane", sorted(map(str, found)) == sorted(want) and len(V.figures) == 4 * planes)
    env.true("figures shown", all(f.shown == (1 if show else 0) for f in V.figures))
    env.true("every figure saved once, in a file of its own", sorted(map(id, (f for f, _ in V.files))) == sorted(map(id, V.figures if save else []))
             and len({n for _, n in V.files}) == len(V.files))
    for f, n in V.files:
        env.true("file name of %s" % f.title, n.startswith(str(f.title).replace(" vs. Time", "")))
    for title, (k, kind, labels) in want.items():
        if title not in found:
            continue
        f = found[title]
        env.true(title + ": lines", [l[0] for l in f.lines] == list(labels))
        for c, l in enumerate(f.lines):
            env.eq("%s: times of %s" % (title, l[0]), l[1], [t * dt for t in range(first, steps)])
            env.eq("%s: %s" % (title, l[0]), l[2], [vals[k, t, kind][c] for t in range(first, steps)])


M = ("output", "steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method", "unsteady_ring_vortex_lattice_method")
H, R = (("steady_%s_vortex_lattice_method" % a, "Steady%sVortexLatticeMethodSolver" % a.title()) for a in ("horseshoe", "ring"))
B = "any vertices within 0.4 of a unit grid, any coefficients; "


def D(name, fn, bounds, **kw):
    return Part(name, fn, B + bounds, modules=M, params=kw, max_paths=2000)


PARTS = [
    D("horseshoe, bare", steady, "airplane of wings 2x1 and 1x1 and one of 1x2", which=H, shapes=[[(2, 1), (1, 1)], [(1, 2)]]),
    D("ring, lift and streamlines", steady, "airplane of a wing 2x1", which=R, shapes=[[(2, 1)]], scalar="lift", streamlines=True),
    D("horseshoe, drag", steady, "two airplanes of one panel", which=H, shapes=[[(1, 1)], [(1, 1)]], scalar="induced drag"),
    D("ring, side force", steady, "airplane of wings 1x1 and 1x1", which=R, shapes=[[(1, 1), (1, 1)]], scalar="side force"),
    D("unsteady, wake", unsteady, "airplanes of wings 1x2 and 1x1, 3 steps", shapes=[[(1, 2)], [(1, 1)]], steps=3),
    D("unsteady, lift, no wake", unsteady, "airplane of a wing 1x1, 2 steps", shapes=[[(1, 1)]], steps=2, scalar="lift", wake=False),
    D("unsteady, side force, wake and streamlines", unsteady, "two airplanes of one panel, 2 steps", shapes=[[(1, 1)], [(1, 1)]], steps=2, scalar="side force", streamlines=True),
    D("animation", unsteady, "airplane of wings 2x1 and 1x1, 3 steps", shapes=[[(2, 1), (1, 1)]], steps=3, animate=True),
    D("animation of lift", unsteady, "airplane of one panel, 2 steps", shapes=[[(1, 1)]], steps=2, animate=True, scalar="lift", wake=False),
    D("animation of drag, final results only", unsteady, "airplane of one panel, 3 steps of which the last has results", shapes=[[(1, 1)]], steps=3, animate=True, scalar="induced drag", only_final=True),
    D("animation of side force, final cycle only", unsteady, "airplane of one panel, 3 steps of which the last two have results", shapes=[[(1, 1)]], steps=3, animate=True, scalar="side force", only_final=True, periodic=2),
    D("animation, seven steps, fixed shape", unsteady, "fixed vertices; airplane of wings 2x1 and 1x2, 7 steps", shapes=[[(2, 1), (1, 2)]],
      steps=7, animate=True, fixed=True),
    D("unsteady, wake, fixed shape", unsteady, "fixed vertices; airplane of wings 3x2 and 1x3 and one of a wing 2x2, 4 steps", shapes=[[(3, 2), (1, 3)], [(2, 2)]],
      steps=4, fixed=True),
    D("plots", plots, "one airplane, 3 steps", planes=1, steps=3, only_final=False, periodic=0),
    D("plots, two airplanes", plots, "two airplanes, 2 steps", planes=2, steps=2, only_final=False, periodic=0),
    D("plots, final cycle", plots, "two airplanes, 4 steps of which the last 2 have results", planes=2, steps=4, only_final=True, periodic=2),
    D("drawing saved", steady, "airplane of wings 1x2 and 1x1", which=H, shapes=[[(1, 2), (1, 1)]], scalar="lift", save=True),
    D("unsteady drawing saved", unsteady, "airplane of wings 1x1 and 1x1, 2 steps", shapes=[[(1, 1), (1, 1)]], steps=2, scalar="induced drag", save=True),
    D("fast animation", unsteady, "airplane of one panel, 2 steps of 0.008 s", shapes=[[(1, 1)]], steps=2, animate=True, scalar="lift", dt="0.008"),
    D("plots shown and saved", plots, "two airplanes, 2 steps", planes=2, steps=2, only_final=False, periodic=0, show=True, save=True),
]
PARTS += [
    D("two drawings", two(steady, "g", "induced|side|lift", "s\\d"), "two unrelated airplanes of one panel", which=R, shapes=[[(1, 1)]], scalar="lift", streamlines=True),
    D("two animations", two(unsteady), "two unrelated airplanes of one panel, 1 step", shapes=[[(1, 1)]], steps=1, animate=True, scalar="induced drag"),
    D("two unsteady drawings", two(unsteady), "two unrelated airplanes of one panel, 2 steps", shapes=[[(1, 1)]], steps=2),
    D("two sets of plots", two(plots, "dt", "f", "m"), "two unrelated problems of an airplane of the same name, 2 steps", planes=1, steps=2, only_final=False, periodic=0, save=True),
]
