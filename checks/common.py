"""Shared pieces of the harnesses: vector helpers, the abstract Biot-Savart kernel, symbolic wings and problems."""
import math
import re


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def add(*vs):
    out = list(vs[0])
    for v in vs[1:]:
        out = [x + y for x, y in zip(out, v)]
    return out


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mul(k, v):
    return [k * x for x in v]


def norm(env, v):
    return env.math.sqrt(dot(v, v))


def matvec(m, v):
    return [sum((m[i][j] * v[j] for j in range(len(v))), 0) for i in range(len(m))]


# ------------------------------------------------------------------ kernel

LAMB, SQUIRE = "1.25643", "0.0001"


def law_float(p, o, t, core):
    """Reference velocity per unit strength; core = (nu + squire |strength|) age."""
    r1 = [a - b for a, b in zip(p, o)]
    r2 = [a - b for a, b in zip(p, t)]
    r0 = [a - b for a, b in zip(t, o)]
    x = cross(r1, r2)
    n1, n2, n3 = math.sqrt(dot(r1, r1)), math.sqrt(dot(r2, r2)), dot(x, x)
    eps = 2.220446049250313e-16
    if n1 < eps or n2 < eps or n3 < eps:
        return [0.0, 0.0, 0.0]
    k = dot(r0, [a / n1 - b / n2 for a, b in zip(r1, r2)])
    return [k * c / (4 * math.pi * (n3 + dot(r0, r0) * 4 * float(LAMB) * core)) for c in x]


class Kernel:
    """K(p, o, t, strength, age, nu): the velocity of one straight vortex.

    Symbolic mode: an uninterpreted function of the point, the end points and
    the core parameters (age, viscosity, |strength|), odd in the direction of
    the filament and zero where the filament is degenerate or the point lies
    on its line; linear in the strength.  It replaces the code's two line
    kernels.  Concrete mode: the law itself, and the code runs unreplaced."""

    def __init__(self, env, mirror=False, zero=False):
        self.env, self.mirror, self.zero = env, mirror, zero
        if not env.symbolic:
            return
        a = env.module("aerodynamics")
        env.patch_everywhere(a.collapsed_velocities_from_line_vortices, self.collapsed)
        env.patch_everywhere(a.expanded_velocities_from_line_vortices, self.expanded)
        env.note("Biot-Savart line kernel abstracted to an uninterpreted function, linear in the strength, odd in direction, "
                 "zero at points on the filament's line; P02 decides the kernel itself")
        self._probe = None

    def __call__(self, p, o, t, strength, age=0, nu=0):
        if self.env.symbolic:
            return self._sym(p, o, t, strength, age, nu)
        core = (float(nu) + float(SQUIRE) * abs(float(strength))) * float(age)
        return [strength * v for v in law_float([float(x) for x in p], [float(x) for x in o], [float(x) for x in t], core)]

    # -- symbolic side
    def _sym(self, p, o, t, strength, age, nu):
        from engine import sym

        if self.zero:  # for properties that do not look at velocities
            return [0, 0, 0]
        P, O, T = [tuple(self._key(x) for x in v) for v in (p, o, t)]
        if isinstance(age, (int, float)) and age == 0 or age is None:
            core = None
        else:
            pa = sym.topoly(age)
            core = None if not pa else (sym.pkey(pa), sym.pkey(sym.topoly(nu)), self._abskey(strength))
        if O == T or P == O or P == T or self._on_line(p, o, t):
            return [0, 0, 0]
        if self.mirror:
            return self._mirrored(p, o, t, strength, age, nu, core)
        sgn = 1
        ka, kb = repr(sorted(map(_srt, O))), repr(sorted(map(_srt, T)))
        if (ka, repr([_srt(x) for x in O])) > (kb, repr([_srt(x) for x in T])):
            O, T, o, t, sgn = T, O, t, o, -1
        pp = [sym.topoly(x) for v in (p, o, t) for x in v]
        g = sym.topoly(strength)
        ag, nn = (sym.topoly(age), sym.topoly(nu)) if core is not None else ({}, {})
        memo = {}

        def evalf(val, i):
            if memo.get("v") is not val:
                q = [sym.peval(x, val) for x in pp]
                c = (sym.peval(nn, val) + float(SQUIRE) * abs(sym.peval(g, val))) * sym.peval(ag, val) if ag else 0.0
                memo["r"] = law_float(q[0:3], q[3:6], q[6:9], c)
                memo["v"] = val
            return memo["r"][i]

        k = sym.stub_value("K", (P, O, T, core), 3, evalf)
        return [strength * sgn * x for x in k]

    def _mirrored(self, p, o, t, strength, age, nu, core):
        """The same, knowing that mirroring everything in y = 0 mirrors the velocity and reverses it."""
        from engine import sym

        def form(p, o, t):
            P, O, T = [tuple(self._key(x) for x in v) for v in (p, o, t)]
            a, b, c = [repr([_srt(x) for x in v]) for v in (P, O, T)]
            return (a, b, c, 1) if b <= c else (a, c, b, -1)

        flip = lambda v: [v[0], -v[1], v[2]]
        P, O, T = [flip(list(v)) for v in (p, o, t)]
        f, g = form(p, o, t), form(P, O, T)
        sgn, m = f[3], [1, 1, 1]
        if f[:3] == g[:3]:  # its own mirror image
            m = [0, 1, 0] if f[3] == g[3] else [1, 0, 1]
        elif g[:3] < f[:3]:
            p, o, t, sgn, m, f = P, O, T, g[3], [-1, 1, -1], g
        if f[3] < 0:
            o, t = t, o
        pp = [sym.topoly(x) for v in (p, o, t) for x in v]
        gs = sym.topoly(strength)
        ag, nn = (sym.topoly(age), sym.topoly(nu)) if core is not None else ({}, {})
        memo = {}

        def evalf(val, i):
            if memo.get("v") is not val:
                q = [sym.peval(x, val) for x in pp]
                c = (sym.peval(nn, val) + float(SQUIRE) * abs(sym.peval(gs, val))) * sym.peval(ag, val) if ag else 0.0
                memo["r"] = law_float(q[0:3], q[3:6], q[6:9], c)
                memo["v"] = val
            return memo["r"][i]

        k = sym.stub_value("K", (f[:3], core), 3, evalf)
        return [strength * sgn * a * x for a, x in zip(m, k)]

    def _key(self, x):
        from engine import sym

        return sym.pkey(sym.topoly(x))

    def _abskey(self, g):
        from engine import sym

        p = sym.topoly(g)
        return frozenset([sym.pkey(p), sym.pkey(sym.pscale(p, -1))])

    def _on_line(self, p, o, t):
        """p on the line through o and t, identically?"""
        from engine import sym

        table = sym.T
        if self._probe is None or self._probe[0] is not table:
            self._probe = (table, {})
        cache = self._probe[1]

        def num(x):
            q = sym.topoly(x)
            s = 0.0
            for m, c in q.items():
                v = float(c)
                for aid, e in m:
                    if aid not in cache:
                        cache[aid] = 0.5 + (hash(("probe", aid * 7919)) % 100003) / 100003.0
                    v *= cache[aid] ** e
                s += v
            return s

        P, O, T = [num(x) for x in p], [num(x) for x in o], [num(x) for x in t]
        r1, r2 = [a - b for a, b in zip(P, O)], [a - b for a, b in zip(P, T)]
        x = cross(r1, r2)
        if dot(x, x) > 1e-12 * (dot(r1, r1) * dot(r2, r2) + 1e-300):
            return False
        r1, r2 = sub(p, o), sub(p, t)
        return all((not sym.topoly(c)) for c in cross(r1, r2))

    def _args(self, points, origins, terminations, strengths, ages, nu):
        return points, origins, terminations, strengths, ages, nu

    def collapsed(self, points, origins, terminations, strengths, ages=None, nu=0):
        np = self.env.np
        out = np.zeros((points.shape[0], 3))
        for j in range(origins.shape[0]):
            for i in range(points.shape[0]):
                v = self._sym(points[i], origins[j], terminations[j], strengths[j], 0 if ages is None else ages[j], nu)
                for c in range(3):
                    out[i, c] = out[i, c] + v[c]
        return out

    def expanded(self, points, origins, terminations, strengths, ages=None, nu=0):
        np = self.env.np
        out = np.zeros((points.shape[0], origins.shape[0], 3))
        for j in range(origins.shape[0]):
            for i in range(points.shape[0]):
                v = self._sym(points[i], origins[j], terminations[j], strengths[j], 0 if ages is None else ages[j], nu)
                for c in range(3):
                    out[i, j, c] = v[c]
        return out

    # -- compound vortices, for the oracles
    def ring(self, p, fl, fr, bl, br, strength, age=0, nu=0):
        return add(self(p, fr, fl, strength, age, nu), self(p, fl, bl, strength, age, nu),
                   self(p, bl, br, strength, age, nu), self(p, br, fr, strength, age, nu))

    def horseshoe(self, p, fr, fl, br, bl, strength):
        """From far right (br) to fr, fl and far left (bl)."""
        return add(self(p, br, fr, strength), self(p, fr, fl, strength), self(p, fl, bl, strength))


def _srt(k):
    return sorted((m, str(c)) for m, c in k)


# ------------------------------------------------------------------ geometry


def simple_airfoil(env, name="plate"):
    z = env.array([[1, 0], [env.const("0.5"), env.const("0.1")], [0, 0], [env.const("0.5"), env.const("-0.1")], [1, 0]])
    return env.ps.geometry.Airfoil(name=name, coordinates=z, repanel=False)


def in_halves(k, w, nc, ns):
    """Is wing w of plane k defined as a symmetric one?  Solvers must not care."""
    return ns % 2 == 0 and (k + w + nc) % 2 == 0


def make_wing(env, nc, ns, span=2, symmetric=False, name="w"):
    g = env.ps.geometry
    if symmetric:
        ns, span = ns // 2, env.const(span) / 2
    af = simple_airfoil(env)
    roots = g.WingCrossSection(airfoil=af, chord=1, num_spanwise_panels=ns, spanwise_spacing="uniform")
    tips = g.WingCrossSection(airfoil=af, y_le=span, chord=1, num_spanwise_panels=1, spanwise_spacing="uniform")
    return g.Wing(wing_cross_sections=[roots, tips], name=name, num_chordwise_panels=nc, chordwise_spacing="uniform", symmetric=symmetric)


CELL = 80  # fixed shapes: cells of 80 units, all derived points whole numbers


def fixed_value(env, name):
    """A constant in [-32, 32] that depends on the name alone: different places get different, unrelated numbers."""
    n = 0
    for ch in getattr(env, "prefix", "") + name:
        n = (n * 131 + ord(ch) + 7) % 1000003
    return env.const(8 * (n * 7919 % 997 % 9 - 4))


def grid(env, name, nc, ns, fixed=False):
    """(nc+1) x (ns+1) symbolic vertices around a flat reference grid, or fixed unrelated ones."""
    out = []
    if fixed:
        for i in range(nc + 1):
            out.append([env.array([(i, j, 0)[k] * CELL + fixed_value(env, "%s_%d_%d_%s" % (name, i, j, "xyz"[k])) for k in range(3)])
                        for j in range(ns + 1)])
        return out
    for i in range(nc + 1):
        row = []
        for j in range(ns + 1):
            b = [i * 1, j * 1, 0]
            row.append(env.array([env.real("%s_%d_%d_%s" % (name, i, j, "xyz"[k]), b[k] - env.const("0.4"), b[k] + env.const("0.4"))
                                  for k in range(3)]))
        out.append(row)
    return out


def set_panels(env, wing, G, offset=None):
    """Rebuild the wing's panels on the vertex grid G."""
    Panel = env.module("panel").Panel
    nc, ns = wing.panels.shape
    for i in range(nc):
        for j in range(ns):
            old = wing.panels[i, j]
            p = Panel(front_right_vertex=G[i][j + 1], front_left_vertex=G[i][j], back_left_vertex=G[i + 1][j],
                      back_right_vertex=G[i + 1][j + 1], is_leading_edge=old.is_leading_edge, is_trailing_edge=old.is_trailing_edge)
            for k in ("is_right_edge", "is_left_edge", "local_chordwise_position", "local_spanwise_position"):
                setattr(p, k, getattr(old, k))
            wing.panels[i, j] = p


class PanelRef:
    """Oracle view of a panel: its vertices and derived points, from the grid alone."""

    def __init__(self, env, G, i, j, nc, ns):
        self.i, self.j = i, j
        self.fl, self.fr, self.bl, self.br = G[i][j], G[i][j + 1], G[i + 1][j], G[i + 1][j + 1]
        q = env.const("0.25")
        self.qfl, self.qfr = add(self.fl, mul(q, sub(self.bl, self.fl))), add(self.fr, mul(q, sub(self.br, self.fr)))
        t, h = env.const("0.75"), env.const("0.5")
        left, right = add(self.fl, mul(t, sub(self.bl, self.fl))), add(self.fr, mul(t, sub(self.br, self.fr)))
        self.cp = mul(h, add(left, right))
        self.n = cross(sub(self.fr, self.bl), sub(self.fl, self.br))
        self.le, self.te = i == 0, i == nc - 1
        self.left, self.right = j == 0, j == ns - 1

    def unit_normal(self, env):
        d = norm(env, self.n)
        return [x / d for x in self.n]

    def area(self, env):
        return norm(env, self.n) / 2


class Plane:
    """An airplane with symbolic panels, reference point and reference dimensions."""

    def __init__(self, env, k, shapes, refs=True, name=None, tag="", airplane=None, fixed=False):
        self.shapes = shapes
        self.k = k
        self.grids = []
        kw = {}
        if refs:
            r = [env.real("%sref%d_%s" % (tag, k, c), -2, 2) for c in "xyz"]
            kw = dict(x_ref=r[0], y_ref=r[1], z_ref=r[2], s_ref=env.real("%ss%d" % (tag, k), 1, 3), c_ref=env.real("%sc%d" % (tag, k), 1, 3),
                      b_ref=env.real("%sb%d" % (tag, k), 1, 3))
            self.ref, self.s, self.c, self.b = r, kw["s_ref"], kw["c_ref"], kw["b_ref"]
        if airplane is None:
            self.wings = [make_wing(env, nc, ns, span=2 + w, name="wing %d.%d" % (k, w), symmetric=in_halves(k, w, nc, ns)) for w, (nc, ns) in enumerate(shapes)]
            self.airplane = env.ps.geometry.Airplane(wings=self.wings, name=name or "plane %d" % k, **kw)
        else:  # one produced by a movement: give it this plane's data
            self.airplane, self.wings = airplane, list(airplane.wings)
            for a, v in kw.items():
                setattr(airplane, a, v)
            if refs:
                airplane.xyz_ref = env.array(r)
        for w, (nc, ns) in enumerate(shapes):
            G = grid(env, "%sg%d_%d" % (tag, k, w), nc, ns, fixed)
            off = mul(CELL if fixed else 1, [0, 3 * w, 5 * k])
            G = [[env.array(add(v, off)) for v in row] for row in G]
            set_panels(env, self.wings[w], G)
            self.grids.append(G)


def operating_point(env, nu=False, tag=""):
    """-> (operating point, freestream velocity by the oracle's formula, density, speed)"""
    np = env.np
    rho, V = env.real(tag + "rho", env.const("0.1"), 5), env.real(tag + "V", env.const("0.1"), 100)
    al, be = env.real(tag + "alpha", -180, 180), env.real(tag + "beta", -180, 180)
    kw = dict(nu=env.real(tag + "nu", 0, 1)) if nu else {}
    op = env.ps.operating_point.OperatingPoint(density=rho, velocity=V, alpha=al, beta=be, **kw)
    a, b = al * env.pi / 180, be * env.pi / 180
    d = [np.cos(a) * np.cos(b), -np.sin(b), np.sin(a) * np.cos(b)]
    op._oracle = dict(d=d, v=mul(V, d), rho=rho, V=V, a=a, b=b, nu=kw.get("nu", 0))
    return op


def steady_refs(env, planes):
    """[(plane index, wing index, wing, PanelRef, panel)] in solver order."""
    out = []
    for k, pl in enumerate(planes):
        for w, (nc, ns) in enumerate(pl.shapes):
            for i in range(nc):
                for j in range(ns):
                    out.append((k, w, PanelRef(env, pl.grids[w], i, j, nc, ns), pl.wings[w].panels[i, j]))
    return out


def no_streamlines(env, keep=None):
    """Streamlines are decided under P23; leave them out elsewhere."""
    f = env.module("functions")
    if keep == "default":
        return
    if keep:
        now = f.calculate_streamlines
        real = getattr(now, "real", now)

        def few(solver, *a, **k):
            return real(solver, num_steps=keep[0], delta_time=keep[1])

        few.real = real
        env.patch_everywhere(now, few)
        env.note("a run's streamlines are integrated for fewer steps than the default 25")
        return
    env.patch_everywhere(f.calculate_streamlines, lambda solver, *a, **k: None)
    env.note("the streamline integration after a run is left out here (P23 decides it)")


def no_load_bookkeeping(env, value=None):
    """Totals and coefficients are decided under P18; leave them out elsewhere."""
    f = env.module("functions")

    def skip(unsteady_solver, *a, **k):
        for p in unsteady_solver.current_airplanes:
            for n in ("force", "moment"):
                for a in ("total_near_field_%s_wind_axes" % n, "total_near_field_%s_coefficients_wind_axes" % n):
                    setattr(p, a, value(p, a) if value else env.np.zeros(3))

    if (env.symbolic or value) and hasattr(f, "process_unsteady_solver_forces"):
        env.patch_everywhere(f.process_unsteady_solver_forces, skip)
    env.note("totals and coefficients of the loads are left out here (P18 decides them)")


# ------------------------------------------------------------------ steady horseshoe solver


def run_horseshoe(env, shapes, streamlines=None, **kw):
    K = Kernel(env)
    no_streamlines(env, streamlines)
    planes = [Plane(env, k, s, **kw) for k, s in enumerate(shapes)]
    op = operating_point(env)
    pb = env.ps.problems.SteadyProblem(airplanes=[p.airplane for p in planes], operating_point=op)
    s = env.module("steady_horseshoe_vortex_lattice_method").SteadyHorseshoeVortexLatticeMethodSolver(pb)
    s.run()
    return K, planes, op, s


def horseshoes(env, planes, op):
    """(plane, wing, ref, panel, strength, fr, fl, br, bl) of every horseshoe, by the oracle."""
    out = []
    for k, w, r, p in steady_refs(env, planes):
        far = mul(20 * planes[k].wings[w].span, op._oracle["d"])
        out.append((k, w, r, p, p.horseshoe_vortex.strength, r.qfr, r.qfl, add(r.qfr, far), add(r.qfl, far)))
    return out


def horseshoe_velocity(K, vs, op, x):
    return add(op._oracle["v"], *[K.horseshoe(x, fr, fl, br, bl, g) for _, _, _, _, g, fr, fl, br, bl in vs])


# ------------------------------------------------------------------ steady ring solver


def run_ring(env, shapes, streamlines=None, **kw):
    K = Kernel(env)
    no_streamlines(env, streamlines)
    planes = [Plane(env, k, s, **kw) for k, s in enumerate(shapes)]
    op = operating_point(env)
    pb = env.ps.problems.SteadyProblem(airplanes=[p.airplane for p in planes], operating_point=op)
    s = env.module("steady_ring_vortex_lattice_method").SteadyRingVortexLatticeMethodSolver(pb)
    s.run()
    return K, planes, op, s


class RingRef:
    """One ring vortex (and its trailing horseshoe) by the oracle."""

    def __init__(self, env, k, w, r, panel, nxt, extra=(0, 0, 0)):
        self.k, self.w, self.r, self.panel = k, w, r, panel
        self.fl, self.fr = r.qfl, r.qfr
        if nxt is None:
            self.bl = add(r.qfl, sub(r.bl, r.fl), extra)
            self.br = add(r.qfr, sub(r.br, r.fr), extra)
        else:
            self.bl, self.br = nxt.qfl, nxt.qfr
        self.g = panel.ring_vortex.strength
        h = env.const("0.5")
        self.front = (add(self.fl, mul(-1, self.fr)), mul(h, add(self.fl, self.fr)))  # vector fr -> fl, centre
        self.left = (sub(self.bl, self.fl), mul(h, add(self.fl, self.bl)))
        self.right = (sub(self.fr, self.br), mul(h, add(self.fr, self.br)))


def rings(env, planes, extra=(0, 0, 0)):
    out = []
    for k, pl in enumerate(planes):
        for w, (nc, ns) in enumerate(pl.shapes):
            R = [[PanelRef(env, pl.grids[w], i, j, nc, ns) for j in range(ns)] for i in range(nc)]
            for i in range(nc):
                for j in range(ns):
                    out.append(RingRef(env, k, w, R[i][j], pl.wings[w].panels[i, j], R[i + 1][j] if i + 1 < nc else None, extra))
    return out


def ring_velocity(env, K, vs, planes, op, x, trailing=True):
    parts = [op._oracle["v"]]
    for v in vs:
        parts.append(K.ring(x, v.fl, v.fr, v.bl, v.br, v.g))
        if trailing and v.r.te:
            far = mul(20 * planes[v.k].wings[v.w].span, op._oracle["d"])
            parts.append(K.horseshoe(x, v.br, v.bl, add(v.br, far), add(v.bl, far), v.g))
    return add(*parts)


def check_ring_vortex(env, n, v, tag=""):
    rv = v.panel.ring_vortex
    env.eq("%sring vertices %d" % (tag, n), [rv.front_left_vertex, rv.front_right_vertex, rv.back_left_vertex, rv.back_right_vertex],
           [v.fl, v.fr, v.bl, v.br])
    env.eq("%sring legs %d" % (tag, n), [[l.origin, l.termination] for l in (rv.front_leg, rv.left_leg, rv.back_leg, rv.right_leg)],
           [[v.fr, v.fl], [v.fl, v.bl], [v.bl, v.br], [v.br, v.fr]])
    env.eq("%sleg strengths %d" % (tag, n), [l.strength for l in (rv.front_leg, rv.left_leg, rv.back_leg, rv.right_leg)], [rv.strength] * 4)


def neighbours(vs):
    """{(k, w, i, j): ring}"""
    return {(v.k, v.w, v.r.i, v.r.j): v for v in vs}


def leg_strengths(vs, v):
    """Effective strengths of the right, front and left legs."""
    n = neighbours(vs)
    i, j = v.r.i, v.r.j
    out = []
    for key in ((i, j + 1), (i - 1, j), (i, j - 1)):
        o = n.get((v.k, v.w) + key)
        out.append(v.g if o is None else v.g - o.g)
    return out


# ------------------------------------------------------------------ unsteady ring solver


def static_movement(env, shapes, steps, dt, periods=(), om_period=0):
    """A real Movement of static airplanes; the caller replaces panels and operating points."""
    mv = env.module("movement")
    ams = []
    for k, sh in enumerate(shapes):
        wings = [make_wing(env, nc, ns, span=2 + w, name="wing %d.%d" % (k, w), symmetric=in_halves(k, w, nc, ns)) for w, (nc, ns) in enumerate(sh)]
        base = env.ps.geometry.Airplane(wings=wings, name="plane %d" % k)
        ams.append(mv.AirplaneMovement(base_airplane=base, wing_movements=[
            mv.WingMovement(base_wing=w, wing_cross_sections_movements=[
                mv.WingCrossSectionMovement(base_wing_cross_section=x) for x in w.wing_cross_sections]) for w in wings],
            **(dict(z_ref_period=periods[k]) if periods else {})))
    om = mv.OperatingPointMovement(base_operating_point=env.ps.operating_point.OperatingPoint(), velocity_period=om_period)
    return mv.Movement(airplane_movements=ams, operating_point_movement=om, num_steps=steps, delta_time=dt)


class Unsteady:
    """A run of the unsteady solver with independent symbolic panels and wind at every step."""

    def __init__(self, env, shapes, steps, prescribed=True, run=True, same_op=False, streamlines=False, loads=True, dt=None, periods=(),
                 om_period=0, fixed=False, velocities=True, **kw):
        self.env, self.shapes, self.steps, self.prescribed, self.velocities = env, shapes, steps, prescribed, velocities
        self.K = Kernel(env, zero=not velocities)
        no_streamlines(env, streamlines)
        if not loads:
            no_load_bookkeeping(env)
            kw.setdefault("only_final_results", True)
        self.dt = env.real("dt", env.const("0.1"), 1) if dt is None else dt
        m = static_movement(env, shapes, steps, self.dt, periods, om_period)
        self.planes = [[Plane(env, k, sh, tag="t%d_" % t, airplane=m.airplanes[k][t], fixed=fixed) for k, sh in enumerate(shapes)] for t in range(steps)]
        m.operating_points = [operating_point(env, nu=True, tag="t%d_" % (0 if same_op else t)) for t in range(steps)]
        self.ops = m.operating_points
        self.problem = env.ps.problems.UnsteadyProblem(movement=m, **kw)
        self.solver = env.module("unsteady_ring_vortex_lattice_method").UnsteadyRingVortexLatticeMethodSolver(self.problem)
        self.streamlines = streamlines
        if run:
            self.run()

    def run(self):
        self.solver.run(prescribed_wake=self.prescribed, calculate_streamlines=bool(self.streamlines))
        env = self.env
        q = env.const("0.25")
        self.rings = [rings(env, self.planes[t], mul(q * self.dt, self.ops[t]._oracle["v"])) for t in range(self.steps)]
        if self.velocities:
            self.make_wake()

    def make_wake(self):
        """self.wake[t] = [(plane, wing, row, column, fl, fr, bl, br, strength, age)]; self.rows[t][(k, w)] = vertex rows (oracle)."""
        env = self.env
        self.wake, self.rows, self._vmemo = [[]], [{}], {}
        for t in range(1, self.steps):
            rows, wk = {}, []
            for k, sh in enumerate(self.shapes):
                for w, (nc, ns) in enumerate(sh):
                    te = [v for v in self.rings[t] if (v.k, v.w) == (k, w) and v.r.te]
                    first = [v.bl for v in te] + [te[-1].br]
                    if t == 1:
                        # the wake is shed as the row behind the new trailing edge
                        old = [first]
                    else:
                        old = self.rows[t - 1][(k, w)]
                    rows[(k, w)] = [first] + [[add(p, mul(self.dt, self.convection(t - 1, p))) for p in r] for r in old]
                    R = rows[(k, w)]
                    for i in range(t):
                        src = [v for v in self.rings[t - 1 - i] if (v.k, v.w) == (k, w) and v.r.te]
                        for j in range(ns):
                            wk.append((k, w, i, j, R[i][j], R[i][j + 1], R[i + 1][j], R[i + 1][j + 1], src[j].g, i * self.dt if i else 0))
            self.rows.append(rows)
            self.wake.append(wk)

    def convection(self, t, p):
        if self.prescribed:
            return self.ops[t]._oracle["v"]
        return self.velocity(t, p)

    def velocity(self, t, x):
        """Velocity of the solution at step t at the point x (geometry axes)."""
        o = self.ops[t]._oracle
        return add(o["v"], *([self.K.ring(x, v.fl, v.fr, v.bl, v.br, v.g, 0, o["nu"]) for v in self.rings[t]]
                             + [self.K.ring(x, fl, fr, bl, br, g, age, o["nu"]) for _, _, _, _, fl, fr, bl, br, g, age in self.wake[t]]))

    def still(self, t, now, before):
        """Apparent velocity of the air at a point of the wing due to the wing's own motion."""
        return [0, 0, 0] if t == 0 else mul(-1 / self.dt, sub(now, before))


# ------------------------------------------------------------------ wings of symbolic sections


class Camber:
    """An airfoil known only by the camber points it returns: any values, one pair per (deflection, hinge, fraction)."""

    def __init__(self, env, name, flap=None, memo=None):
        self.env, self.name, self.flap = env, name, flap
        self.memo = {} if memo is None else memo
        self.calls = []

    def add_control_surface(self, deflection=0.0, hinge_point=0.75):
        self.calls.append((deflection, hinge_point))
        return Camber(self.env, self.name, (deflection, hinge_point), self.memo)

    def get_downsampled_mcl(self, mcl_fractions):
        return self.env.array([self.point(f) for f in mcl_fractions])

    def point(self, f):
        key = (self.key(self.flap[0]), self.key(self.flap[1]), self.key(f)) if self.flap else (self.key(f),)
        if key not in self.memo:
            n = len(self.memo)
            self.memo[key] = [self.env.real("%s_%s%d" % (self.name, c, n), -1, 1) for c in "xz"]
        return self.memo[key]

    def key(self, v):
        if self.env.symbolic:
            from engine import sym

            return sym.pkey(sym.topoly(v))
        return round(float(v), 9)


def fractions(env, n, spacing):
    if spacing == "uniform":
        return [env.const(k) / n for k in range(n + 1)]
    h = env.const("0.5")
    return [h - h * env.np.cos(env.pi * k / n) for k in range(n + 1)]


class Sections:
    """A wing of symbolic sections over abstract airfoils, and its mesh by the oracle."""

    def __init__(self, env, nc, ns, chordwise="uniform", spanwise="uniform", symmetric=False, types=None, tag="", normals=True, deflect=True,
                 airfoil=Camber, build=True, origin=None, twisted=True, level_root=False, vertical=(), frame="x"):
        np = env.np
        self.env, self.nc, self.ns, self.symmetric = env, nc, ns, symmetric
        self.cs, self.ss = chordwise, spanwise
        m = len(ns) + 1
        phi = [env.real("%sphi%d" % (tag, i), -3, 3) for i in range(m)] if normals else None
        # the wing's chordwise direction: along an axis, or tilted (the code compares directions exactly, so only frames without rounding)
        turn = {"x": lambda v: v, "y": lambda v: [v[2], v[0], v[1]], "z": lambda v: [v[1], v[2], v[0]], "-x": lambda v: [-v[0], v[1], v[2]],
                "tilted": lambda v: [env.const("0.6") * v[0], v[1], env.const("0.8") * v[0]]}[frame]
        if frame == "tilted":
            assert not normals
        self.c = turn([1, 0, 0])
        self.n = [turn([0, np.cos(phi[i]), np.sin(phi[i])] if normals else [0, 1, 0]) for i in range(m)]
        if level_root:
            self.n[0] = turn([0, 1, 0])
        self.le = [[0, 0, 0]] + [env.pt("%sle%d" % (tag, i)) for i in range(1, m)]
        for i in vertical:  # straight above or below (or behind) the section before
            self.le[i] = [self.le[i][0], self.le[i - 1][1], self.le[i][2]]
        self.chord = [env.real("%schord%d" % (tag, i), env.const("0.1"), 5) for i in range(m)]
        self.twist = [env.real("%stwist%d" % (tag, i), -90, 90) if twisted else 0 for i in range(m)]
        self.airfoil = [airfoil(env, "%saf%d" % (tag, i)) for i in range(m)]
        self.defl = [env.real("%sdefl%d" % (tag, i), -90, 90) if deflect else 0 for i in range(m)]
        self.hinge = [env.real("%shinge%d" % (tag, i), env.const("0.1"), env.const("0.9")) if deflect else env.const("0.75") for i in range(m)]
        self.type = types or ["symmetric"] * m
        self.origin = origin or [env.real("%swle_%s" % (tag, c), -4, 4) for c in "xyz"]
        g = env.ps.geometry
        self.sections = [g.WingCrossSection(
            airfoil=self.airfoil[i], x_le=self.le[i][0], y_le=self.le[i][1], z_le=self.le[i][2], chord=self.chord[i], unit_normal_vector=env.array(self.n[i]),
            twist=self.twist[i], control_surface_type=self.type[i], control_surface_hinge_point=self.hinge[i],
            control_surface_deflection=self.defl[i], num_spanwise_panels=ns[i] if i < len(ns) else 1, spanwise_spacing=spanwise if isinstance(spanwise, str) else (list(spanwise) + ["cosine"])[i]) for i in range(m)]
        if build:
            self.wing = g.Wing(wing_cross_sections=self.sections, name=tag + "wing", x_le=self.origin[0], y_le=self.origin[1], z_le=self.origin[2],
                               unit_normal_vector=env.array(self.n[0]), symmetric=symmetric, unit_chordwise_vector=env.array(self.c),
                               num_chordwise_panels=nc, chordwise_spacing=chordwise)

    def axes(self, i):
        """Chordwise and up vectors of section i."""
        env, np = self.env, self.env.np
        t = self.twist[i] * env.pi / 180
        n, c = self.n[i], self.c
        back = add(mul(np.cos(t), c), mul(np.sin(t), cross(n, c)), mul((1 - np.cos(t)) * dot(n, c), n))
        return back, cross(back, n)

    def line(self, i, flap):
        """Camber points of section i, with the given control surface."""
        af = Camber(self.env, self.airfoil[i].name, flap, self.airfoil[i].memo)
        back, up = self.axes(i)
        out = []
        for f in fractions(self.env, self.nc, self.cs):
            x, z = af.point(f)
            out.append(add(self.origin, self.le[i], mul(self.chord[i] * x, back), mul(self.chord[i] * z, up)))
        return out

    def mirror(self, p):
        n = self.n[0]
        return sub(p, mul(2 * dot(sub(p, self.origin), n), n))

    def columns(self):
        """One (nc+1) x 4 description per spanwise column of panels, left to right: rows of left and right vertices."""
        env, right, left = self.env, [], []
        for i in range(len(self.ns)):
            s = fractions(env, self.ns[i], self.ss if isinstance(self.ss, str) else self.ss[i])
            for side in (0, 1):
                sign = -1 if side and self.type[i] == "asymmetric" else 1
                flap = (sign * self.defl[i], self.hinge[i])
                a, b = self.line(i, flap), self.line(i + 1, flap)
                at = lambda k: [add(mul(1 - s[k], p), mul(s[k], q)) for p, q in zip(a, b)]
                for k in range(self.ns[i]):
                    if side:
                        left.insert(0, ([self.mirror(p) for p in at(k + 1)], [self.mirror(p) for p in at(k)]))
                    else:
                        right.append((at(k), at(k + 1)))
        return left + right if self.symmetric else right


def check_mesh(env, sec, tag=""):
    P, cols = sec.wing.panels, sec.columns()
    nc = sec.nc
    env.true(tag + "shape", tuple(P.shape) == (nc, len(cols)))
    env.true(tag + "counts", sec.wing.num_panels == nc * len(cols) and sec.wing.num_spanwise_panels == len(cols))
    if tuple(P.shape) != (nc, len(cols)):
        return
    for j, (L, R) in enumerate(cols):
        for i in range(nc):
            p, l = P[i, j], "%spanel %d %d " % (tag, i, j)
            env.eq(l + "front left", p.front_left_vertex, L[i])
            env.eq(l + "front right", p.front_right_vertex, R[i])
            env.eq(l + "back left", p.back_left_vertex, L[i + 1])
            env.eq(l + "back right", p.back_right_vertex, R[i + 1])
            env.true(l + "edges", [bool(x) for x in (p.is_leading_edge, p.is_trailing_edge, p.is_left_edge, p.is_right_edge)]
                     == [i == 0, i == nc - 1, j == 0, j == len(cols) - 1])
            env.true(l + "place", (p.local_chordwise_position, p.local_spanwise_position) == (i, j))


# ------------------------------------------------------------------ two of a kind


class Other:
    """The same environment for another run of a harness: its inputs (all, or the named ones) and labels have names of their own."""

    def __init__(self, env, tag, first, only=None):
        self._env, self.label, self._first, self._only = env, tag, first, only
        self.prefix = tag if only in (None, "g") else ""

    def own(self, name):
        return name if self._only and not re.match(r"(t\d+_)?(%s)" % self._only, name) else self.label + name

    def __getattr__(self, name):
        return getattr(self._env, name)

    def real(self, name, *a):
        return self._env.real(self.own(name), *a)

    def int_(self, name, *a):
        return self._env.int_(self.own(name), *a)

    def vec(self, name, *a, **k):
        return self._env.vec(self.own(name), *a, **k)

    def pt(self, name, *a, **k):
        return self._env.pt(self.own(name), *a, **k)

    def flag(self, name):
        return self._env.flag(self.own(name))

    def choice(self, name, options):
        return self._env.choice(self.own(name), options)

    def eq(self, label, *a):
        self._first()
        return self._env.eq(self.label + label, *a)

    def true(self, label, *a):
        self._first()
        return self._env.true(self.label + label, *a)

    def raises(self, label, *a, **k):
        return self._env.raises(self.label + label, *a, **k)

    def accepts(self, label, *a, **k):
        return self._env.accepts(self.label + label, *a, **k)


def two(fn, *vary):
    """Two runs of a harness in one process: the other one gets as far as its first check, then the whole of this one happens,
    then the other one is looked at.  Nothing may be carried over either way.  Their inputs are unrelated, or (vary: patterns
    of input names) all alike but for one group."""
    import functools
    import sys
    import threading

    @functools.wraps(fn)
    def both(env, **kw):
        k = env.int_("what differs", 0, len(vary)) if vary else 0
        turn, state, profile = threading.Semaphore(0), {"paused": False, "error": None}, sys.getprofile()
        back = threading.Semaphore(0)

        def pause():
            if not state["paused"]:
                state["paused"] = True
                back.release()
                turn.acquire()
                if state["error"] is not None:
                    raise SystemExit

        def run():
            sys.setprofile(profile)
            try:
                fn(Other(env, "other ", pause, vary[k - 1] if k else None), **kw)
            except SystemExit:
                pass
            except BaseException as e:
                state["error"] = e
            sys.setprofile(None)
            state["paused"] = True
            back.release()

        old = threading.stack_size(256 << 20)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        threading.stack_size(old)
        back.acquire()
        if state["error"] is not None:
            raise state["error"]
        try:
            fn(env, **kw)
        except BaseException as e:
            state["error"] = e
            turn.release()
            t.join()
            raise
        turn.release()
        t.join()
        if state["error"] is not None:
            raise state["error"]

    return both
