"""Airfoils: camber line, resampling, control surfaces, repanelling, NACA outlines."""
from common import *
from engine.parts import Part


def outline(env, n, same_x=False):
    """An airfoil outline of 2n-1 points; -> coordinates, upper and lower points from leading to trailing edge."""
    lo, hi = env.const("0.05"), env.const("0.4")
    U, L = [[0, env.real("yle", -1, 1)]], None
    L = [list(U[0])]
    for i in range(1, n):
        dx = env.real("du%d" % i, lo, hi)
        U.append([U[-1][0] + dx, env.real("yu%d" % i, -1, 1)])
        L.append([U[-1][0] if same_x else L[-1][0] + env.real("dl%d" % i, lo, hi), env.real("yl%d" % i, -1, 1)])
    return env.array(U[::-1] + L[1:]), U, L


def make(env, n, **kw):
    C, U, L = outline(env, n, **kw)
    af = env.ps.geometry.Airfoil(name="any", coordinates=C, repanel=False)
    h = env.const("0.5")
    mcl = [mul(h, add(a, b)) for a, b in zip(U, L)]
    return af, C, U, L, mcl


def same(env, label, af, U, L):
    h = env.const("0.5")
    mcl = [mul(h, add(a, b)) for a, b in zip(U, L)]
    half = [sub(u, m) for u, m in zip(U, mcl)]
    env.eq(label + " outline", af.coordinates, list(U[::-1]) + list(L[1:]))
    env.eq(label + " camber line", af.mcl_coordinates, mcl)
    env.eq(label + " upper side", af.upper_coordinates(), list(U[::-1]))
    env.eq(label + " lower side", af.lower_coordinates(), list(L))
    env.eq(label + " half thickness", af.upper_minus_mcl, half)
    env.eq(label + " thickness", af.thickness, [[m[0], 2 * env.math.sqrt(v[0] * v[0] + v[1] * v[1])] for m, v in zip(mcl, half)])


def camber(env, n):
    af, C, U, L, mcl = make(env, n)
    same(env, "airfoil", af, U, L)


def resample(env, n):
    """At a fraction of the camber line's length."""
    af, C, U, L, mcl = make(env, n)
    d = [env.math.sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])) for a, b in zip(mcl[1:], mcl[:-1])]
    total = sum(d, 0)
    i = env.int_("segment", 0, n - 2)
    t = env.real("t", env.const("0.01"), env.const("0.99"))
    f = (sum(d[:i], 0) + t * d[i]) / total
    got = af.get_downsampled_mcl(env.array([0, f, 1]))
    env.eq("ends", [got[0], got[2]], [mcl[0], mcl[-1]])
    env.eq("point", got[1], add(mul(1 - t, mcl[i]), mul(t, mcl[i + 1])))


def at_chord(env, n):
    af, C, U, L, mcl = make(env, n, same_x=True)
    i = env.int_("segment", 0, n - 2)
    t = env.real("t", env.const("0.01"), env.const("0.99"))
    x = mcl[i][0] + t * (mcl[i + 1][0] - mcl[i][0])
    env.eq("camber", af.get_camber_at_chord_fraction(x), mcl[i][1] + t * (mcl[i + 1][1] - mcl[i][1]))


def flap(env, n, zero=False):
    af, C, U, L, mcl = make(env, n)
    for k in range(1, n):  # an ordered camber line
        env.assume(mcl[k][0] > mcl[k - 1][0])
    i = env.int_("hinge segment", 0, n - 2)
    t = env.real("t", env.const("0.05"), env.const("0.95"))
    hx, hz = add(mul(1 - t, mcl[i]), mul(t, mcl[i + 1]))
    defl = 0 if zero else env.real("deflection", -90, 90)
    a = -defl * env.pi / 180
    s, c = env.np.sin(a), env.np.cos(a)

    def turn(p):
        x, z = p[0] - hx, p[1] - hz
        return [hx + c * x - s * z, hz + s * x + c * z]

    U2 = [p if k <= i else turn(p) for k, p in enumerate(U)]
    L2 = [p if k <= i else turn(p) for k, p in enumerate(L)]
    for p in U2[1:] + L2[1:]:  # the leading edge stays the foremost point
        env.assume(p[0] > env.const("0.001"))
    new = af.add_control_surface(deflection=defl, hinge_point=hx)
    same(env, "flapped", new, U2, L2)
    same(env, "original", af, U, L)
    env.true("a new airfoil", new is not af)


def flaps(env, n):
    """Several control surfaces on one airfoil: another hinge, another deflection, the first again, one on the deflected airfoil."""
    af, C, U, L, mcl = make(env, n, same_x=True)
    q = env.const
    h1, h2 = [m[0] - q("0.02") for m in mcl[1:3]]
    d = [env.real("d%d" % k, -20, 20) for k in range(2)]
    for p in U[1:] + L[1:]:
        env.assume(env.land(p[1] > -q("0.1"), p[1] < q("0.1")))
    env.assume(env.land(U[0][1] > -q("0.1"), U[0][1] < q("0.1")))

    def expect(d, h):
        i = 0 if h is h1 else 1
        t = (h - mcl[i][0]) / (mcl[i + 1][0] - mcl[i][0])
        hx, hz = add(mul(1 - t, mcl[i]), mul(t, mcl[i + 1]))
        a = -d * env.pi / 180
        s, c = env.np.sin(a), env.np.cos(a)
        out = []
        for P in (U, L):
            out.append([p if k <= i else [hx + c * (p[0] - hx) - s * (p[1] - hz), hz + s * (p[0] - hx) + c * (p[1] - hz)] for k, p in enumerate(P)])
        for P in out:
            for p in P[1:]:
                env.assume(p[0] > q("0.001"))
        return out

    calls = [(d[0], h1), (d[0], h2), (d[1], h2), (d[0], h1)]
    want = [expect(*c) for c in calls]
    got = [af.add_control_surface(deflection=x, hinge_point=y) for x, y in calls]
    for k, (g, (U2, L2)) in enumerate(zip(got, want)):
        same(env, "call %d" % k, g, U2, L2)
    same(env, "original", af, U, L)


def limits(env):
    af, C, U, L, mcl = make(env, 3, same_x=True)
    d = env.real("deflection", -400, 400)
    bad = env.flag("bad")
    hinge = mcl[1][0] / 2
    if bad:
        env.assume(env.lor(d > 90, d < -90))
        env.raises("rejected", lambda: af.add_control_surface(deflection=d, hinge_point=hinge))
    else:
        env.assume(env.land(d <= 90, d >= -90))
        h = env.ps.geometry
        real = h.Airfoil
        made = []
        env.patch_everywhere(real, lambda *a, **k: made.append(k) or "made")
        try:
            af.add_control_surface(deflection=d, hinge_point=hinge)
        finally:
            env.patch_everywhere(h.Airfoil, real)
        env.true("accepted", len(made) == 1)


def repanel(env, n):
    C, U, L = outline(env, n)
    g, f = env.ps.geometry, env.module("functions")
    xs = [0, env.real("q1", env.const("0.01"), env.const("0.04")), env.real("q2", env.const("0.05"), env.const("0.1"))]
    asked = []
    env.patch_everywhere(f.cosspace, lambda lo, hi, n_points=50, endpoint=True: asked.append((lo, hi, n_points, endpoint)) or env.array(xs))
    af = g.Airfoil(name="any", coordinates=C, repanel=True, n_points_per_side=17)
    env.true("spacing asked for", len(asked) == 1 and [float(v) for v in asked[0]] == [0, 1, 17, 1])
    if env.symbolic:
        from engine import shim as tool
        P = tool._Pchip
    else:
        from scipy.interpolate import PchipInterpolator as P
    up = P([p[0] for p in U], [p[1] for p in U])
    low = P([p[0] for p in L], [p[1] for p in L])
    U2 = [[x, up(env.array([x]))[0]] for x in xs]
    L2 = [[x, low(env.array([x]))[0]] for x in xs]
    same(env, "repanelled", af, U2, L2)


def naca(env, digits):
    g, f = env.ps.geometry, env.module("functions")
    x = [0, env.real("x1", env.const("0.01"), env.const("0.99")), env.real("x2", env.const("0.01"), env.const("0.99")), 1]
    env.assume(x[1] < x[2])
    env.patch_everywhere(f.cosspace, lambda lo, hi, n_points=50, endpoint=True: env.array(x))
    af = make(env, 2)[0]
    af.name = digits[1]
    af.populate_coordinates()
    m, p, t = [env.const(int(v)) / 100 for v in (digits[0][0], int(digits[0][1]) * 10, digits[0][2:])]
    U, L = [], []
    k = [env.const(c) for c in ("0.2969", "0.126", "0.3516", "0.2843", "0.1015")]
    for v in x:
        if p == 0:
            zc, dz = 0, 0
        elif v <= p:
            zc, dz = m / (p * p) * (2 * p * v - v * v), 2 * m / (p * p) * (p - v)
        else:
            zc, dz = m / ((1 - p) * (1 - p)) * (1 - 2 * p + 2 * p * v - v * v), 2 * m / ((1 - p) * (1 - p)) * (p - v)
        zt = 5 * t * (k[0] * env.math.sqrt(v) - k[1] * v - k[2] * v * v + k[3] * v * v * v - k[4] * v * v * v * v)
        c = 1 / env.math.sqrt(1 + dz * dz)
        U.append([v - zt * dz * c, zc + zt * c])
        L.append([v + zt * dz * c, zc - zt * c])
    env.eq("outline", af.coordinates, U[::-1] + L[1:])


def airfoil_files(env):
    """Let the symbolically loaded package find its own database of outlines."""
    import importlib.util
    import os
    import sys
    import types
    d = os.path.join(os.path.dirname(os.path.abspath(env.module("geometry").__file__)), "airfoils")
    if env.symbolic:
        for n, path in (("pterasoftware", None), ("pterasoftware.airfoils", d)):
            m = types.ModuleType(n)
            m.__path__ = [os.path.dirname(d) if path is None else d]
            if path:
                m.__spec__ = importlib.util.spec_from_file_location(n, os.path.join(d, "__init__.py"), submodule_search_locations=[d])
                m.__file__ = m.__spec__.origin
            sys.modules[n] = m
    return d


def database(env, name, repanel):
    """The outline of a file: a header line, then the points' coordinates."""
    import os
    d = airfoil_files(env)
    f = next(x for x in os.listdir(d) if x.lower() == name.lower().strip() + ".dat")
    with open(os.path.join(d, f), "rb") as fh:
        rows = [l.split() for l in fh.read().split(b"\n")[1:]]
    C = [[env.const(x.decode()) for x in r] for r in rows if r]
    le = min(range(len(C)), key=lambda i: C[i][0])
    U, L = C[le::-1], C[le:]
    g = env.ps.geometry
    if not repanel:
        af = g.Airfoil(name=name, repanel=False)
        env.eq("points", af.coordinates, C)
        h = env.const("0.5")
        mcl = [mul(h, add(a, b)) for a, b in zip(U, L)]
        i = env.int_("segment", 0, len(mcl) - 2)
        x = mcl[i][0] + env.real("t", env.const("0.01"), env.const("0.99")) * (mcl[i + 1][0] - mcl[i][0])
        env.eq("camber", af.get_camber_at_chord_fraction(x), mcl[i][1] + (x - mcl[i][0]) / (mcl[i + 1][0] - mcl[i][0]) * (mcl[i + 1][1] - mcl[i][1]))
        return
    q, k = env.const, env.choice("station", range(4))
    x = env.real("x", [q("0.01"), q("0.3"), q("0.6"), q("0.9")][k], [q("0.02"), q("0.31"), q("0.61"), q("0.91")][k])
    xs = [0, x, 1]
    env.patch_everywhere(env.module("functions").cosspace, lambda lo, hi, n_points=50, endpoint=True: env.array(xs))
    af = g.Airfoil(name=name)
    if env.symbolic:
        from engine import shim as tool
        P = tool._Pchip
    else:
        from scipy.interpolate import PchipInterpolator as P
    up, low = [P([p[0] for p in S], [p[1] for p in S]) for S in (U, L)]
    same(env, "repanelled", af, [[v, up(env.array([v]))[0]] for v in xs], [[v, low(env.array([v]))[0]] for v in xs])


def unrepanelled(env):
    g, f = env.ps.geometry, env.module("functions")
    x = [0, env.real("x1", env.const("0.00001"), env.const("0.0002")), env.real("x2", env.const("0.5"), env.const("0.9")), 1]
    env.patch_everywhere(f.cosspace, lambda lo, hi, n_points=50, endpoint=True: env.array(x))
    raised = False
    try:
        g.Airfoil(name="naca2412", repanel=False)
    except ValueError:
        raised = True
    env.true("cambered NACA airfoil without repanelling", not raised)


M = ("geometry",)
B = "any points, x increasing on either side"
PARTS = [
    Part("camber line", camber, "outline of 9 points; " + B, modules=M, params=dict(n=5)),
    Part("resampling", resample, "outline of 7 points, any fraction; " + B, modules=M, params=dict(n=4)),
    Part("camber at a chord fraction", at_chord, "outline of 7 points, any abscissa; " + B, modules=M, params=dict(n=4)),
    Part("control surface", flap, "outline of 7 points, any hinge, deflection up to 90 degrees; " + B, modules=M, params=dict(n=4)),
    Part("no deflection", flap, "outline of 7 points, any hinge, no deflection; " + B, modules=M, params=dict(n=4, zero=True)),
    Part("several control surfaces", flaps, "outline of 5 points with thickness and camber up to 0.1, two deflections up to 20 degrees, two hinges", modules=M, params=dict(n=3)),
    Part("deflection limits", limits, "any deflection in [-400, 400] degrees", modules=M),
    Part("repanelling", repanel, "outline of 7 points repanelled to 5; " + B, modules=M, params=dict(n=4)),
]
for _d in (("2412", "naca2412"), ("0012", "NACA0012 "), ("6730", "naca6730"), ("1406", " Naca1406"), ("9915", "naca9915")):
    PARTS.append(Part("naca " + _d[0], naca, "any two abscissae and both ends", modules=M, params=dict(digits=_d)))
PARTS.append(Part("naca without repanelling", unrepanelled, "naca2412, any two abscissae, one near the leading edge", modules=M))
for _n, _r in (("raf6", False), (" Clarkk ", False), ("usa98", True), ("goe187", True), ("ah81k144wfKlappe", True)):
    PARTS.append(Part("database " + _n.strip(), database, ("any abscissa" if not _r else "repanelled at an abscissa in any of four intervals of 0.01") + ", outline of the file", modules=M,
                      params=dict(name=_n, repanel=_r), max_paths=2000))
PARTS += [
    Part("two airfoils at once", two(camber, "yle", "d[ul]", "y[ul]\\d", "t$"), "two unrelated outlines of 7 points, the same name; " + B, modules=M, params=dict(n=4)),
    Part("resampling of two airfoils at once", two(resample), "two unrelated outlines of 5 points, the same name, any fractions; " + B, modules=M, params=dict(n=3)),
    Part("control surfaces of two airfoils at once", two(flap, "yle", "d[ul]", "y[ul]\\d", "t$", "deflection", "hinge"), "two unrelated outlines of 5 points, the same name, any hinges and deflections up to 90 degrees; " + B, modules=M, params=dict(n=3)),
    Part("repanelling of two airfoils at once", two(repanel, "yle", "d[ul]", "y[ul]\\d", "q\\d"), "two unrelated outlines of 7 points, the same name; " + B, modules=M, params=dict(n=4)),
    Part("naca 2412 twice at once", two(naca), "two unrelated pairs of abscissae and both ends", modules=M, params=dict(digits=("2412", "naca2412"))),
]
