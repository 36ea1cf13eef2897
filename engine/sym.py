"""Symbolic reals for executing Python/numpy code.

A value is a polynomial (with rational coefficients, and possibly negative
exponents) over *atoms*.  An atom is an input variable or an interned term the
executed code produced: sqrt(p), 1/p, sin(p), cos(p), |p|, atan(p), an entry of
the solution of a linear system, a value returned by an environment stub ...
Every atom carries the constraints that define it, and these are handed to the
SMT solver together with every query that mentions the atom.  Arithmetic is over
the exact reals: float literals of the source are read as the decimal number
they are written as, and rounding is outside every claim.
"""
import math
from fractions import Fraction

import z3
from z3 import z3core

POLY_CAP = 60000


class EngineLimit(Exception):
    """The symbolic executor cannot represent what the code does."""


class Discard(BaseException):
    """The current path violates an assumption."""


def rat(x):
    """A number as an int or a Fraction (floats by their decimal reading)."""
    t = type(x)
    if t is int or t is bool:
        return int(x)
    if t is Fraction:
        return x.numerator if x.denominator == 1 else x
    if t is float:
        if not math.isfinite(x):
            raise EngineLimit("non-finite number in symbolic arithmetic")
        f = Fraction(repr(x))
        return f.numerator if f.denominator == 1 else f
    import numpy as np

    if isinstance(x, np.bool_):
        return int(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return rat(float(x))
    raise TypeError(type(x))


# --------------------------------------------------------------------- atoms


class Atom:
    __slots__ = (
        "id", "name", "kind", "z", "zinv", "lo", "hi", "sq", "defs", "evalf",
        "key", "integer", "nonneg", "data", "linear", "parts", "prim",
    )


class Table:
    def __init__(self):
        self.atoms = []
        self.interned = {}
        self.inputs = {}
        self.stats = {"atoms": 0}
        self._z3cache = {}

    def new(self, name, kind, lo=None, hi=None, evalf=None, integer=False, key=None):
        a = Atom()
        a.id = len(self.atoms)
        a.name = name if kind == "input" else "%s!%d" % (name, a.id)
        a.kind = kind
        a.z = z3.Real(a.name)
        a.zinv = None
        a.linear = []
        a.lo = lo
        a.hi = hi
        a.sq = None
        a.defs = []  # list of (z3 expr thunk, tuple(atom ids))
        a.evalf = evalf
        a.key = key
        a.integer = integer
        a.nonneg = lo is not None and lo >= 0
        a.data = None
        self.atoms.append(a)
        return a

    def input(self, name, lo=None, hi=None, integer=False):
        a = self.inputs.get(name)
        if a is None:
            a = self.new(name, "input", lo, hi, integer=integer)
            self.inputs[name] = a
        return a


T = Table()


def reset_table():
    global T
    T = Table()
    return T


# --------------------------------------------------------------------- polys
# poly: dict {monomial: coefficient}; monomial: tuple of (atom id, exp), sorted

ONE = ()


def pconst(c):
    return {ONE: c} if c != 0 else {}


def patom(a):
    return {((a.id, 1),): 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    get = r.get
    for m, c in b.items():
        s = get(m)
        if s is None:
            r[m] = c
            continue
        s = s + c
        if not s:
            del r[m]
        else:
            r[m] = s
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _prod(c, k) for m, c in a.items()}


def psub(a, b):
    r = dict(a)
    get = r.get
    for m, c in b.items():
        s = get(m)
        if s is None:
            r[m] = -c
            continue
        s = s - c
        if not s:
            del r[m]
        else:
            r[m] = s
    return r


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    if x[-1][0] < y[0][0]:
        return x + y
    if y[-1][0] < x[0][0]:
        return y + x
    i = j = 0
    out = []
    nx, ny = len(x), len(y)
    while i < nx and j < ny:
        a, b = x[i], y[j]
        if a[0] < b[0]:
            out.append(a)
            i += 1
        elif a[0] > b[0]:
            out.append(b)
            j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
    out.extend(x[i:])
    out.extend(y[j:])
    return tuple(out)


def _needs_reduction(m):
    for aid, e in m:
        if e > 1 and T.atoms[aid].sq is not None:
            return aid, e
        if e < 0 and T.atoms[aid].kind == "inv":
            return aid, e
    return None


def _reduce_into(r, m, c):
    red = _needs_reduction(m)
    if red is None:
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
        return
    aid, e = red
    a = T.atoms[aid]
    rest = tuple(t for t in m if t[0] != aid)
    if e < 0:
        base, k, left = a.data, -e, rest
    else:
        base, k = a.sq, e // 2
        left = mmul(rest, ((aid, 1),)) if e % 2 else rest
    f = {left: c}
    for _ in range(k):
        f = pmul(f, base)
    for mm, cc in f.items():
        _reduce_into(r, mm, cc)


def _prod(a, b):
    c = a * b
    if type(c) is Fraction and c._denominator == 1:
        return c._numerator
    return c


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1 and ONE in a:
        k = a[ONE]
        return b if k == 1 else {m: _prod(c, k) for m, c in b.items()}
    if len(a) * len(b) > 4000000:
        raise EngineLimit("polynomial product too large")
    r = {}
    atoms = T.atoms
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            c = c2 if type(c1) is int and c1 == 1 else c1 if type(c2) is int and c2 == 1 else c1 * c2
            red = False
            for aid, e in m:
                if e != 1:
                    at = atoms[aid]
                    if (e > 1 and at.sq is not None) or (e < 0 and at.kind == "inv"):
                        red = True
                        break
            if red:
                _reduce_into(r, m, c)
            else:
                s = get(m)
                if s is None:
                    if c:
                        r[m] = c
                    continue
                s = s + c
                if not s:
                    del r[m]
                else:
                    r[m] = s
    if len(r) > POLY_CAP:
        raise EngineLimit("polynomial too large (%d terms)" % len(r))
    return norm_coeffs(r)


def norm_coeffs(p):
    for m, c in p.items():
        if type(c) is Fraction and c._denominator == 1:
            p[m] = c._numerator
    return p


def pkey(p):
    return frozenset((m, Fraction(c)) for m, c in p.items())


def patoms(p):
    s = set()
    for m in p:
        for aid, _ in m:
            s.add(aid)
    return s


def lead(p):
    return max(p)


def content(p):
    """(rational content, monomial content, primitive part), p nonzero.

    p == c * mono * primitive, the primitive part has coprime integer
    coefficients and a positive leading coefficient."""
    from math import gcd

    num, den = 0, 1
    for c in p.values():
        f = Fraction(c)
        num = gcd(num, f.numerator)
        den = den * f.denominator // gcd(den, f.denominator)
    c = Fraction(num, den)
    monos = list(p)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for k in list(common):
            if k in d:
                common[k] = min(common[k], d[k])
            elif common[k] > 0:
                del common[k]
        for k, e in d.items():
            if e < 0:
                if k not in common:
                    common[k] = e
                else:
                    common[k] = min(common[k], e)
    mono = tuple(sorted((k, e) for k, e in common.items() if e))
    minv = tuple((k, -e) for k, e in mono)
    prim = {mmul(m, minv): Fraction(v) / c for m, v in p.items()}
    if prim[lead(prim)] < 0:
        prim = pscale(prim, -1)
        c = -c
    norm_coeffs(prim)
    return c, mono, prim


def mono_poly(m, c=1):
    r = {}
    _reduce_into(r, m, c)
    return r


def pdiv_exact(a, b, limit=400):
    """a / b when b divides a exactly, else None."""
    if len(a) > limit or len(b) > limit or not b:
        return None
    lb = lead(b)
    lbm = {k: -e for k, e in lb}
    r = dict(a)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 2 * limit:
            return None
        lr = lead(r)
        m = mmul(lr, tuple(sorted(lbm.items())))
        if any(e < 0 for _, e in m):
            return None
        c = Fraction(r[lr]) / b[lb]
        q[m] = q.get(m, 0) + c
        t = pmul({m: c}, b)
        if lr not in t:
            return None
        r = psub(r, t)
        if r and lead(r) >= lr:
            return None
    return norm_coeffs(q)


# ------------------------------------------------------------------ to solver


def azinv(a):
    if a.zinv is None:
        a.zinv = z3.Real(a.name + "^-1")
    return a.zinv


_nums = {}


def q2z(c):
    r = _nums.get(c)
    if r is None:
        f = Fraction(c)
        if len(_nums) > 200000:
            _nums.clear()
        r = _nums[c] = z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    return r


_mk_mul, _mk_add, _inc, _dec = [f.__defaults__[-1].f for f in (z3core.Z3_mk_mul, z3core.Z3_mk_add, z3core.Z3_inc_ref, z3core.Z3_dec_ref)]

MONO = None  # when set: monomial -> z3 variable (linear abstraction)


def _wrap(n, asts, fn):
    """One n-ary term straight through the C interface (the Python wrappers cost more than the solver here)."""
    if n == 1:
        return z3.ArithRef(asts[0])
    a = (z3.Ast * n)(*asts)
    return z3.ArithRef(fn(z3.main_ctx().ref(), n, a))


def to_z3(p):
    if not p:
        return z3.RealVal(0)
    ctx = z3.main_ctx().ref()
    held, terms, keep = [], [], []

    def product(fs):
        if len(fs) == 1:
            return fs[0]
        t = _mk_mul(ctx, len(fs), (z3.Ast * len(fs))(*fs))
        _inc(ctx, t)
        held.append(t)
        return t

    one = MONO is not None
    for m in sorted(p):
        c = p[m]
        fs = []
        if m:
            if one:
                v = MONO.get(m)
                if v is None:
                    v = MONO[m] = T.atoms[m[0][0]].z if len(m) == 1 and m[0][1] == 1 else z3.Real("m!%d" % len(MONO))
                fs.append(v.ast)
            else:
                for aid, e in m:
                    a = T.atoms[aid]
                    v = a.z if e > 0 else azinv(a)
                    fs.extend([v.ast] * abs(e))
        if c != 1 or not fs:
            k = q2z(c)
            keep.append(k)
            fs.insert(0, k.ast)
        terms.append(product(fs))
    out = _wrap(len(terms), terms, _mk_add)
    for t in held:
        _dec(ctx, t)
    return out


def peval(p, val):
    t = 0.0
    for m, c in p.items():
        x = float(c)
        for aid, e in m:
            x *= val(aid) ** e
        t += x
    return t


class Valuation:
    """Numeric values of all atoms, from the values of the input atoms."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.memo = {}

    def __call__(self, aid):
        v = self.memo.get(aid)
        if v is None:
            a = T.atoms[aid]
            if a.kind == "input":
                if a.name not in self.inputs:
                    v = float(default_value(a))
                    self.inputs[a.name] = v
                v = float(self.inputs[a.name])
            else:
                v = float(a.evalf(self))
            self.memo[aid] = v
        return v


def default_value(a, salt=0):
    """A generic value within the atom's bounds (deterministic)."""
    import hashlib

    h = int(hashlib.sha256(("%s|%d" % (a.name, salt)).encode()).hexdigest()[:8], 16)
    u = Fraction(h % 997 + 1, 999)
    lo = a.lo if a.lo is not None else (a.hi - 4 if a.hi is not None else -2)
    hi = a.hi if a.hi is not None else lo + 4
    if a.integer:
        return int(lo) + h % (int(hi) - int(lo) + 1)
    v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * u
    v = Fraction(round(v * 10000), 10000)
    if v < lo or v > hi:
        v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) / 2
    return v


# ------------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    # leaves: ("lt", p): p < 0, ("le", p): p <= 0, ("eq", p): p == 0
    def z3(self):
        o = self.op
        if o == "const":
            return z3.BoolVal(self.args)
        if o == "eq2":
            return to_z3(self.args[0]) == to_z3(self.args[1])
        if o == "eq":
            return to_z3(self.args) == 0
        if o == "lt":
            return to_z3(self.args) < 0
        if o == "le":
            return to_z3(self.args) <= 0
        if o == "not":
            return z3.Not(self.args.z3())
        if o == "and":
            return z3.And(*[x.z3() for x in self.args])
        if o == "or":
            return z3.Or(*[x.z3() for x in self.args])
        raise AssertionError(o)

    def atoms(self):
        o = self.op
        if o == "const":
            return set()
        if o == "eq2":
            return patoms(self.args[0]) | patoms(self.args[1])
        if o in ("eq", "lt", "le"):
            return patoms(self.args)
        if o == "not":
            return self.args.atoms()
        r = set()
        for x in self.args:
            r |= x.atoms()
        return r

    def eval(self, val, tol=0.0):
        o = self.op
        if o == "const":
            return self.args
        if o == "eq2":
            a, b = peval(self.args[0], val), peval(self.args[1], val)
            return abs(a - b) <= tol * (1 + abs(a) + abs(b))
        if o == "eq":
            return abs(peval(self.args, val)) <= tol
        if o == "lt":
            return peval(self.args, val) < 0
        if o == "le":
            return peval(self.args, val) <= tol
        if o == "not":
            return not self.args.eval(val, tol)
        if o == "and":
            return all(x.eval(val, tol) for x in self.args)
        return any(x.eval(val, tol) for x in self.args)

    def key(self):
        o = self.op
        if o == "const":
            return ("const", self.args)
        if o == "eq2":
            return ("eq2", pkey(self.args[0]), pkey(self.args[1]))
        if o in ("eq", "lt", "le"):
            return (o, pkey(self.args))
        if o == "not":
            return ("not", self.args.key())
        return (o, frozenset(x.key() for x in self.args))

    def __bool__(self):
        if self.op == "const":
            return self.args
        return CTX.decide(self)

    def __and__(self, o):
        return sand([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return sor([self, o])

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        o = sbool(o)
        return (self & o) | (~self & ~o)

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = object.__hash__

    def __repr__(self):
        return "<SymBool %s>" % self.op


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def sbool(x):
    if isinstance(x, SymBool):
        return x
    return TRUE if x else FALSE


def snot(x):
    x = sbool(x)
    if x.op == "const":
        return FALSE if x.args else TRUE
    if x.op == "not":
        return x.args
    if x.op == "lt":
        return SymBool("le", pscale(x.args, -1))
    if x.op == "le":
        return SymBool("lt", pscale(x.args, -1))
    return SymBool("not", x)


def sand(xs):
    out = []
    for x in map(sbool, xs):
        if x.op == "const":
            if not x.args:
                return FALSE
        elif x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else SymBool("and", out)


def sor(xs):
    out = []
    for x in map(sbool, xs):
        if x.op == "const":
            if x.args:
                return TRUE
        elif x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else SymBool("or", out)


MERGE = False  # keep max() of symbolic values as one term instead of one path per winner


def max_(xs):
    """The largest of xs, as a term."""
    ps = []
    for x in xs:
        p = sval(x)
        if not any(pkey(p) == pkey(q) for q in ps):
            ps.append(p)
    if len(ps) == 1:
        return S(ps[0])

    def build():
        a = T.new("max", "max", evalf=lambda val: max(peval(q, val) for q in ps))
        rs = [prange(q) for q in ps]
        los = [r[0] for r in rs if r[0] is not None]
        if los:
            a.lo = max(los)
        if all(r[1] is not None for r in rs):
            a.hi = max(r[1] for r in rs)
        a.nonneg = a.lo is not None and a.lo >= 0
        a.parts = ps
        need = set()
        for q in ps:
            need |= patoms(q)
        a.defs.append((lambda: z3.And(*([a.z >= to_z3(q) for q in ps] + [z3.Or(*[a.z == to_z3(q) for q in ps])])), need))
        return a

    return S(patom(_mk("max", frozenset(pkey(q) for q in ps), "max", build)))


def _positive(m, k):
    """m / atom k is a product of non-negative atoms."""
    return all(T.atoms[a].nonneg or (T.atoms[a].lo is not None and T.atoms[a].lo >= 0) or e % 2 == 0 for a, e in m if a != k)


def _expand(op, p):
    """p op 0 with max and abs terms split by cases, and positive denominators cleared."""
    for m in p:
        for aid, e in m:
            a = T.atoms[aid]
            if a.kind not in ("max", "abs") or e != 1:
                continue
            with_, without = {}, {}
            for mm, c in p.items():
                (with_ if any(x == aid for x, _ in mm) else without)[mm] = c
            if not all(dict(mm)[aid] == 1 and _positive(mm, aid) for mm in with_):
                continue
            signs = {c > 0 for c in with_.values()}
            if len(signs) != 1:
                continue
            co = {tuple(x for x in mm if x[0] != aid): c for mm, c in with_.items()}
            parts = a.parts if a.kind == "max" else [a.prim, pscale(a.prim, -1)]
            rs = [rel(op, padd(without, pmul(co, q))) for q in parts]
            return sand(rs) if signs == {True} else sor(rs)
    neg = {}
    for m in p:
        for aid, e in m:
            a = T.atoms[aid]
            if e < 0 and a.lo is not None and a.lo > 0:
                neg[aid] = max(neg.get(aid, 0), -e)
    if not neg:
        return None
    f = mono_poly(tuple(sorted(neg.items())))
    return rel(op, pmul(p, f))


def rel(op, p):
    """p op 0, decided at once where bounds of the atoms suffice."""
    if not p:
        return TRUE if op in ("le", "eq") else FALSE
    lo, hi = prange(p)
    if op == "lt":
        if hi is not None and hi < 0:
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    elif op == "le":
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
    else:
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            return FALSE
    if MERGE and op != "eq":
        r = _expand(op, p)
        if r is not None:
            return r
    # canonical scaling
    from math import gcd

    num, den = 0, 1
    for c in p.values():
        f = Fraction(c)
        num = gcd(num, f.numerator)
        den = den * f.denominator // gcd(den, f.denominator)
    k = Fraction(den, num)
    q = norm_coeffs({m: c * k for m, c in p.items()})
    if op == "eq" and q[lead(q)] < 0:
        q = pscale(q, -1)
    return SymBool(op, q)


# ---------------------------------------------------------- interval reasoning

INF = float("inf")


def _arange(a, e):
    lo = -INF if a.lo is None else a.lo
    hi = INF if a.hi is None else a.hi
    if e == 1:
        return lo, hi
    if e == -1:
        if a.lo is not None and a.lo >= 0:
            return (0 if a.hi is None else Fraction(1) / Fraction(a.hi)) if a.hi != 0 else 0, (
                INF if a.lo == 0 else Fraction(1) / Fraction(a.lo)
            )
        if a.hi is not None and a.hi <= 0:
            return -INF, 0
        return -INF, INF
    if e > 0:
        if e % 2 == 0:
            c = [_pw(lo, e), _pw(hi, e)]
            mn = 0 if lo <= 0 <= hi else min(c)
            return mn, max(c)
        return _pw(lo, e), _pw(hi, e)
    l1, h1 = _arange(a, -1)
    e = -e
    if e % 2 == 0:
        c = [_pw(l1, e), _pw(h1, e)]
        return (0 if l1 <= 0 <= h1 else min(c)), max(c)
    return _pw(l1, e), _pw(h1, e)


def _pw(x, e):
    if x in (INF, -INF):
        return INF if (x > 0 or e % 2 == 0) else -INF
    return x ** e


def _mulr(a, b):
    if not a or not b:
        return 0
    if type(a) is float or type(b) is float:  # only the infinities are floats
        return INF if (a > 0) == (b > 0) else -INF
    return a * b


def prange(p):
    lo = hi = 0
    for m, c in p.items():
        l, h = c, c
        for aid, e in m:
            x, y = _arange(T.atoms[aid], e)
            c4 = [_mulr(l, x), _mulr(l, y), _mulr(h, x), _mulr(h, y)]
            l, h = min(c4), max(c4)
        lo = lo + l if l != -INF and lo != -INF else -INF
        hi = hi + h if h != INF and hi != INF else INF
        if lo == -INF and hi == INF:
            return None, None
    return (None if lo == -INF else lo), (None if hi == INF else hi)


# ------------------------------------------------------------------- numbers


def topoly(x):
    if isinstance(x, Sym):
        return x.p
    try:
        return pconst(rat(x))
    except TypeError:
        return None


def S(p):
    """Sym, or a plain exact number when p is constant."""
    if not p:
        return 0
    if len(p) == 1 and ONE in p:
        c = p[ONE]
        if type(c) is int:
            return c if not BOXED else Fraction(c)
        return c
    return Sym(p)


BOXED = True


class Sym:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __add__(self, o):
        q = topoly(o)
        return NotImplemented if q is None else S(padd(self.p, q))

    __radd__ = __add__

    def __sub__(self, o):
        q = topoly(o)
        return NotImplemented if q is None else S(psub(self.p, q))

    def __rsub__(self, o):
        q = topoly(o)
        return NotImplemented if q is None else S(psub(q, self.p))

    def __mul__(self, o):
        q = topoly(o)
        return NotImplemented if q is None else S(pmul(self.p, q))

    __rmul__ = __mul__

    def __truediv__(self, o):
        q = topoly(o)
        return NotImplemented if q is None else divide(self.p, q)

    def __rtruediv__(self, o):
        q = topoly(o)
        return NotImplemented if q is None else divide(q, self.p)

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        return self - o * floor_(self / o)

    def __rmod__(self, o):
        return o - self * floor_(o / self)

    def __neg__(self):
        return Sym(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __pow__(self, e):
        if isinstance(e, Sym):
            raise EngineLimit("symbolic exponent")
        try:
            e = Fraction(rat(e))
        except TypeError:
            return NotImplemented
        if e.denominator == 1:
            n = e.numerator
            if n == 0:
                return 1
            r = self.p
            for _ in range(abs(n) - 1):
                r = pmul(r, self.p)
            return S(r) if n > 0 else divide({ONE: 1}, r)
        if e.denominator == 2:
            return sqrt_(self) ** e.numerator
        raise EngineLimit("fractional power")

    def __rpow__(self, b):
        raise EngineLimit("symbolic exponent")

    def _cmp(self, o, f):
        if isinstance(o, float) and not math.isfinite(o):
            return f(None, o)
        q = topoly(o)
        if q is None:
            return NotImplemented
        return f(q, None)

    def __lt__(self, o):
        return self._cmp(o, lambda q, s: rel("lt", psub(self.p, q)) if s is None else (s > 0 if s == s else False))

    def __le__(self, o):
        return self._cmp(o, lambda q, s: rel("le", psub(self.p, q)) if s is None else (s > 0 if s == s else False))

    def __gt__(self, o):
        return self._cmp(o, lambda q, s: rel("lt", psub(q, self.p)) if s is None else (s < 0 if s == s else False))

    def __ge__(self, o):
        return self._cmp(o, lambda q, s: rel("le", psub(q, self.p)) if s is None else (s < 0 if s == s else False))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda q, s: rel("eq", psub(self.p, q)) if s is None else False)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r) if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(pkey(self.p))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise EngineLimit("a symbolic value reached code that needs a concrete float")

    def __int__(self):
        v = self.__trunc__()
        return CTX.concretise(v) if isinstance(v, Sym) else int(v)

    def __index__(self):
        return CTX.concretise(self)

    def __floor__(self):
        return as_int(floor_(self))

    def __ceil__(self):
        return as_int(ceil_(self))

    def __trunc__(self):
        return floor_(self) if bool(self >= 0) else ceil_(self)

    def __round__(self, n=None):
        return round_(self, n)

    def __str__(self):
        return CTX.token(self)

    def __format__(self, spec):
        return CTX.token(self)

    def __repr__(self):
        return CTX.token(self)

    # numpy calls these on elements of object arrays
    def sqrt(self):
        return sqrt_(self)

    def sin(self):
        return sin_(self)

    def cos(self):
        return cos_(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self


def is_const(x):
    return not isinstance(x, Sym)


def sval(x):
    q = topoly(x)
    if q is None:
        raise EngineLimit("not a number: %r" % type(x))
    return q


# --------------------------------------------------------- interned functions


def _mk(kind, key, name, build):
    k = (kind, key)
    a = T.interned.get(k)
    if a is None:
        a = build()
        a.key = key
        T.interned[k] = a
        T.stats["atoms"] += 1
    return a


def invert_mono(m):
    r = {ONE: 1}
    for aid, e in m:
        r = pmul(r, mono_poly(((aid, -e),)))
    return r


def pinv(p):
    """1/p as a polynomial; p == 0 is excluded by assumption."""
    if not p:
        raise ZeroDivisionError("division by zero")
    if len(p) == 1:
        (m, c), = p.items()
        for aid, _ in m:
            CTX.nonzero(aid)
        return pscale(invert_mono(m), Fraction(1) / c)
    c, mono, prim = content(p)

    def build():
        lo, hi = prange(prim)
        a = T.new("inv", "inv", evalf=lambda val, q=prim: 1.0 / peval(q, val))
        if lo is not None and lo > 0:
            a.lo = 0
            a.hi = Fraction(1) / lo
        elif hi is not None and hi < 0:
            a.hi = 0
        elif _is_sum_of_nonneg(prim):
            a.lo = 0
        a.data = prim
        a.defs.append((lambda: a.z * to_z3(prim) == 1, patoms(prim)))
        return a

    a = _mk("inv", pkey(prim), "inv", build)
    for aid, _ in mono:
        CTX.nonzero(aid)
    CTX.note_assumption("denominators are non-zero")
    return pmul(pscale(invert_mono(mono), Fraction(1) / c), patom(a))


def _is_sum_of_nonneg(p):
    lo, _ = prange(p)
    return lo is not None and lo >= 0


def divide(p, q):
    if not q:
        raise ZeroDivisionError("division by zero")
    if not p:
        return 0
    if len(q) == 1:
        return S(norm_coeffs(pmul(p, pinv(q))))
    if len(p) == len(q):
        m = lead(p)
        if m in q:
            k = Fraction(p[m]) / q[m]
            if all(mm in q and Fraction(c) == q[mm] * k for mm, c in p.items()):
                return S(pconst(k))
    r = pdiv_exact(p, q)
    if r is not None:
        return S(r)
    return S(norm_coeffs(pmul(p, pinv(q))))


def _square_part(c):
    """(k, f) with c == k^2 f, f a positive integer with no small square factor."""
    f = Fraction(c)
    if f < 0:
        raise EngineLimit("sqrt of a negative constant")
    n, d = f.numerator * f.denominator, f.denominator
    r = math.isqrt(n)
    if r * r == n:
        return Fraction(r, d), 1
    k, q = 1, 2
    while q < 1000 and q * q <= n:
        while n % (q * q) == 0:
            n //= q * q
            k *= q
        q += 1
    r = math.isqrt(n)
    if r * r == n:
        return Fraction(k * r, d), 1
    return Fraction(k, d), n


def rat_sqrt(c):
    """Square root of a constant, as a polynomial."""
    k, f = _square_part(c)
    if f == 1:
        return {ONE: k}

    def build():
        v = Fraction(math.isqrt(f * 10**60), 10**30)
        a = T.new("sqrt", "sqrt", lo=v - Fraction(1, 10**29), hi=v + Fraction(1, 10**29), evalf=lambda val: math.sqrt(f))
        a.nonneg = True
        a.sq = {ONE: f}
        a.defs.append((lambda: z3.And(a.z >= 0, a.z * a.z == f), set()))
        return a

    return pscale(patom(_mk("sqrt", ("const", f), "sqrt", build)), k)


def sqrt_(x):
    p = sval(x)
    if not p:
        return 0
    if len(p) == 1 and ONE in p:
        return S(norm_coeffs(rat_sqrt(p[ONE])))
    c, mono, prim = content(p)
    if c < 0:
        prim = pscale(prim, -1)
        c = -c
    # even part of the monomial content, and a perfect-square single term
    out = {ONE: 1}
    left = ()
    for aid, e in mono:
        k = e // 2 if e > 0 else -((-e) // 2)
        if k:
            base = sval(abs_(S(patom(T.atoms[aid])))) if not T.atoms[aid].nonneg else patom(T.atoms[aid])
            f = base if k > 0 else pinv(base)
            for _ in range(abs(k)):
                out = pmul(out, f)
        r = e - 2 * k
        if r:
            left = mmul(left, ((aid, r),))
    if left:
        prim = pmul(prim, mono_poly(left))
    if len(prim) == 1 and ONE in prim:
        return S(norm_coeffs(pmul(out, rat_sqrt(c * prim[ONE]))))
    k, f = _square_part(c)
    out = pscale(out, k)
    prim = norm_coeffs(pscale(prim, f))

    def build():
        lo, hi = prange(prim)
        a = T.new("sqrt", "sqrt", lo=0, evalf=lambda val, q=prim: math.sqrt(max(0.0, peval(q, val))))
        if hi is not None:
            a.hi = Fraction(repr(math.sqrt(float(hi)))) * Fraction(1000001, 1000000) + Fraction(1, 10**9)
        if lo is not None and lo > 0:
            a.lo = Fraction(repr(math.sqrt(float(lo)))) * Fraction(999999, 1000000)
        a.nonneg = True
        a.sq = prim
        a.defs.append((lambda: z3.And(a.z >= 0, a.z * a.z == to_z3(prim)), patoms(prim)))
        return a

    lo, hi = prange(prim)
    if hi is not None and hi < 0:
        raise EngineLimit("sqrt of a negative value")
    a = _mk("sqrt", pkey(prim), "sqrt", build)
    return S(norm_coeffs(pmul(out, patom(a))))


def abs_(x):
    if not isinstance(x, Sym):
        return abs(x)
    p = x.p
    lo, hi = prange(p)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return -x
    c, mono, prim = content(p)
    out = {ONE: abs(c)}
    full = prim
    # |product| = product of absolute values
    for aid, e in mono:
        a = T.atoms[aid]
        f = patom(a)
        if not a.nonneg and e % 2:
            f = _abs_atom(patom(a))
        elif e % 2 == 0:
            f = patom(a)
        ff = f if e > 0 else pinv(f)
        for _ in range(abs(e)):
            out = pmul(out, ff)
    if len(prim) == 1 and ONE in prim:
        return S(norm_coeffs(pscale(out, abs(prim[ONE]))))
    lo, hi = prange(prim)
    if lo is not None and lo >= 0:
        return S(norm_coeffs(pmul(out, prim)))
    if hi is not None and hi <= 0:
        return S(norm_coeffs(pmul(out, pscale(prim, -1))))
    return S(norm_coeffs(pmul(out, _abs_atom(prim))))


def _abs_atom(prim):
    if len(prim) == 1:
        (m, c), = prim.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1 and T.atoms[m[0][0]].nonneg:
            return prim
    # sqrt(p^2) and |p| are one atom, whichever is met first
    sq = norm_coeffs(pmul(prim, prim))
    sc, smono, sprim = content(sq)
    skey = None
    if not smono and sc > 0:
        k, f = _square_part(sc)
        if k == 1:
            skey = ("sqrt", pkey(norm_coeffs(pscale(sprim, f))))
            if skey in T.interned:
                return patom(T.interned[skey])

    def build():
        lo, hi = prange(prim)
        a = T.new("abs", "abs", lo=0, evalf=lambda val, q=prim: abs(peval(q, val)))
        if lo is not None and hi is not None:
            a.hi = max(abs(lo), abs(hi))
        a.nonneg = True
        a.prim = prim
        a.sq = pmul(prim, prim)
        a.defs.append((
            lambda: z3.And(
                a.z >= 0, z3.Or(a.z == to_z3(prim), a.z == -to_z3(prim)),
            ),
            patoms(prim),
        ))
        return a

    a = _mk("abs", pkey(prim), "abs", build)
    if skey is not None:
        T.interned.setdefault(skey, a)
    return patom(a)


def pi_atom():
    a = T.interned.get(("pi",))
    if a is None:
        a = T.new("pi", "pi", lo=Fraction(31415926535897932, 10**16), hi=Fraction(31415926535897933, 10**16),
                  evalf=lambda val: math.pi)
        T.interned[("pi",)] = a
    return a


class _PI(Sym):
    """pi: looks its atom up in the current table."""

    __slots__ = ()

    def __init__(self):
        pass

    @property
    def p(self):
        return patom(pi_atom())

    def __neg__(self):
        return Sym(pscale(self.p, -1))

    def __pos__(self):
        return Sym(self.p)


PI = _PI()

_SPECIAL = {0: Fraction(0), Fraction(1, 2): Fraction(1), Fraction(1, 6): Fraction(1, 2)}


def _sin_pi(q):
    """sin(q*pi) for rational q."""
    q = Fraction(q) % 2
    sgn = 1
    if q > 1:
        q, sgn = q - 1, -1
    if q > Fraction(1, 2):
        q = 1 - q
    if q in _SPECIAL:
        return sgn * _SPECIAL[q]
    return sgn * Fraction(repr(math.sin(math.pi * float(q))))


def _trig_pair(p):
    """(sin, cos) polys of the angle p."""
    pim = ((pi_atom().id, 1),)
    q = Fraction(p.get(pim, 0))
    rest = {m: c for m, c in p.items() if m != pim}
    if not rest:
        return pconst(_sin_pi(q)), pconst(_sin_pi(q + Fraction(1, 2)))
    # quarter turns out of the angle
    half = (q * 2).__floor__()
    frac = q - Fraction(half, 2)
    if frac:
        rest = padd(rest, {pim: frac})
    neg = rest[lead(rest)] < 0
    if neg:
        rest = pscale(rest, -1)
    # pull out atan atoms with coefficient 1 by angle addition
    at = None
    if len(rest) > 1 or (len(rest) == 1 and list(rest.values())[0] in (1, -1)):
        for m, c in rest.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and T.atoms[m[0][0]].kind in ("atan", "atan2"):
                at = (m, c)
                break
    if at is not None:
        m, c = at
        sa, ca = T.atoms[m[0][0]].data()
        if c == -1:
            sa = pscale(sa, -1)
        r2 = {k: v for k, v in rest.items() if k != m}
        if r2:
            sb, cb = _trig_pair(r2)
            s = padd(pmul(sa, cb), pmul(ca, sb))
            co = psub(pmul(ca, cb), pmul(sa, sb))
        else:
            s, co = sa, ca
    else:
        key = pkey(rest)
        pair = T.interned.get(("trig", key))
        if pair is None:
            sn = T.new("sin", "sin", lo=-1, hi=1, evalf=lambda val, r=rest: math.sin(peval(r, val)))
            cs = T.new("cos", "cos", lo=-1, hi=1, evalf=lambda val, r=rest: math.cos(peval(r, val)))
            # reduce s^2 -> 1 - c^2
            sn.sq = padd({ONE: 1}, {((cs.id, 2),): -1})
            d = (lambda: z3.And(sn.z * sn.z + cs.z * cs.z == 1), {sn.id, cs.id})
            sn.defs.append(d)
            cs.defs.append(d)
            T.interned[("trig", key)] = pair = (sn, cs)
            T.stats["atoms"] += 2
            CTX.note_assumption("sin/cos of an angle are any pair with s^2+c^2=1, the same pair for the same angle")
        s, co = patom(pair[0]), patom(pair[1])
    if neg:
        s = pscale(s, -1)
    half %= 4
    if half == 1:
        s, co = co, pscale(s, -1)
    elif half == 2:
        s, co = pscale(s, -1), pscale(co, -1)
    elif half == 3:
        s, co = pscale(co, -1), s
    return s, co


def sin_(x):
    p = sval(x)
    return S(_trig_pair(p)[0]) if p else 0


def cos_(x):
    p = sval(x)
    return S(_trig_pair(p)[1]) if p else 1


def tan_(x):
    return sin_(x) / cos_(x)


def atan_(x):
    p = sval(x)
    if not p:
        return 0
    if p[lead(p)] < 0:
        return -atan_(S(pscale(p, -1)))
    if len(p) == 1 and ONE in p and p[ONE] == 1:
        return PI / 4

    def build():
        a = T.new("atan", "atan", lo=Fraction(-158, 100), hi=Fraction(158, 100),
                  evalf=lambda val, q=p: math.atan(peval(q, val)))

        def data():
            d = sqrt_(S(padd({ONE: 1}, pmul(p, p))))
            return sval(S(p) / d), sval(1 / d)

        a.data = data
        return a

    return S(patom(_mk("atan", pkey(p), "atan", build)))


def atan2_(y, x):
    py, px = sval(y), sval(x)
    if not py and (px and prange(px)[0] is not None and prange(px)[0] >= 0):
        return 0

    def build():
        a = T.new("atan2", "atan2", lo=Fraction(-315, 100), hi=Fraction(315, 100),
                  evalf=lambda val: math.atan2(peval(py, val), peval(px, val)))

        def data():
            # arctan2(0, 0) is 0 in numpy
            if not bool(sor([rel("lt", px), rel("lt", pscale(px, -1)), snot(rel("eq", py))])):
                return {}, {ONE: 1}
            d = sqrt_(S(padd(pmul(px, px), pmul(py, py))))
            return sval(S(py) / d), sval(S(px) / d)

        a.data = data
        return a

    return S(patom(_mk("atan2", (pkey(py), pkey(px)), "atan2", build)))


def _int_atom(kind, p, con, evalf):
    def build():
        lo, hi = prange(p)
        a = T.new(kind, kind, evalf=evalf, integer=True)
        if lo is not None:
            a.lo = math.ceil(lo) if kind == "ceil" else math.floor(lo)
        if hi is not None:
            a.hi = math.floor(hi) if kind == "floor" else math.ceil(hi)
        iv = z3.Int(a.name + "#i")
        a.defs.append((lambda: z3.And(a.z == z3.ToReal(iv), con(a.z, to_z3(p))), patoms(p)))
        return a

    return S(patom(_mk(kind, pkey(p), kind, build)))


def floor_(x):
    p = sval(x)
    if not isinstance(x, Sym):
        return math.floor(rat(x))
    if _integral(p):
        return x
    return _int_atom("floor", p, lambda v, t: z3.And(v <= t, t < v + 1), lambda val: math.floor(peval(p, val)))


def as_int(v):
    """math.floor and math.ceil return integers: the small ones are split into paths."""
    if not isinstance(v, Sym) or CTX is None:
        return v
    if len(v.p) == 1 and ONE in v.p:
        return int(v.p[ONE])
    if bool(v < 0) or bool(v > 16):
        return v
    return CTX.concretise(v)


def ceil_(x):
    p = sval(x)
    if not isinstance(x, Sym):
        return math.ceil(rat(x))
    if _integral(p):
        return x
    return _int_atom("ceil", p, lambda v, t: z3.And(v >= t, t > v - 1), lambda val: math.ceil(peval(p, val) - 1e-12))


def _integral(p):
    return all(
        Fraction(c).denominator == 1 and all(T.atoms[i].integer and e > 0 for i, e in m) for m, c in p.items()
    )


def round_(x, n=None):
    if not isinstance(x, Sym):
        f = Fraction(rat(x))
        if n is None:
            return round(f)
        return Fraction(round(f * 10**int(n)), 10**int(n))
    if n is not None and n != 0:
        k = 10 ** int(n)
        return round_(x * k) / k
    p = x.p
    if _integral(p):
        return x
    return _int_atom(
        "round", p,
        lambda v, t: z3.And(t - v <= q2z(Fraction(1, 2)), v - t <= q2z(Fraction(1, 2)),
                            # ties go to the even neighbour
                            z3.Implies(z3.Or(t - v == q2z(Fraction(1, 2)), v - t == q2z(Fraction(1, 2))),
                                       z3.ToInt(v) % 2 == 0)),
        lambda val: round(peval(p, val)),
    )


def solve_system(A, b):
    """Unknowns x with A x == b, as atoms (A non-singular by assumption)."""
    n = len(b)
    AP = [[sval(A[i][j]) for j in range(n)] for i in range(n)]
    BP = [sval(x) for x in b]
    key = (tuple(tuple(pkey(p) for p in r) for r in AP), tuple(pkey(p) for p in BP))
    got = T.interned.get(("solve", key))
    if got is None:
        state = {}

        def numeric(val, i):
            import numpy as np

            k = id(val)
            if state.get("k") != k or state.get("v") is not val:
                M = np.array([[peval(p, val) for p in r] for r in AP])
                B = np.array([peval(p, val) for p in BP])
                state["k"], state["v"], state["x"] = k, val, np.linalg.solve(M, B)
            return state["x"][i]

        got = [T.new("gamma", "solve", evalf=lambda val, i=i: numeric(val, i)) for i in range(n)]
        for i in range(n):
            row = {}
            for j in range(n):
                row = padd(row, pmul(AP[i][j], patom(got[j])))
            ids = patoms(row) | patoms(BP[i])
            d = (lambda row=row, i=i: to_z3(row) == to_z3(BP[i]), ids)
            for a in got:
                a.defs.append(d)
                a.linear.append(d[0])
        T.interned[("solve", key)] = got
        T.stats["atoms"] += n
        CTX.note_assumption("the influence matrix is non-singular (linear systems have a solution)")
    return [S(patom(a)) for a in got]


def stub_value(kind, key, n, evalf, lo=None, hi=None):
    """n fresh values of an uninterpreted function at `key`."""
    got = T.interned.get((kind, key))
    if got is None:
        got = [T.new(kind, "stub", evalf=(lambda val, i=i: evalf(val, i)), lo=lo, hi=hi) for i in range(n)]
        T.interned[(kind, key)] = got
        T.stats["atoms"] += n
    return [S(patom(a)) for a in got]


CTX = None


def set_ctx(c):
    global CTX
    CTX = c
