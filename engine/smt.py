"""Discharging queries over sym atoms with z3 (and cvc5 as second opinion)."""
import subprocess
import threading
import time
from fractions import Fraction

import z3

from . import sym

STATS = {"queries": 0, "z3_time": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "cvc5_queries": 0, "cvc5_time": 0.0,
         "cvc5_disagreements": 0}


def closure(ids, depth):
    """Atoms reachable through definitions, up to `depth` levels (None: all)."""
    seen = set(ids)
    front = set(ids)
    level = 0
    defs = {}
    while front and (depth is None or level < depth):
        nxt = set()
        for i in front:
            for thunk, deps in sym.T.atoms[i].defs:
                if id(thunk) not in defs:
                    defs[id(thunk)] = thunk
                    nxt |= set(deps) - seen
        seen |= nxt
        front = nxt
        level += 1
    return seen, list(defs.values())


_defcache = {}


def _bounds(ids):
    out = []
    for i in sorted(ids):
        a = sym.T.atoms[i]
        if a.lo is not None:
            out.append(a.z >= sym.q2z(a.lo))
        if a.hi is not None:
            out.append(a.z <= sym.q2z(a.hi))
        if a.zinv is not None:
            out.append(a.z * a.zinv == 1)
        if a.integer and a.kind == "input":
            out.append(a.z == z3.ToReal(z3.Int(a.name + "#i")))
    return out


def assertions(bools, depth):
    ids = set()
    for b in bools:
        ids |= b.atoms()
    exprs = [b.z3() for b in bools]
    seen, defs = closure(ids, depth)
    d = []
    for th in defs:
        k = (id(sym.T), id(th))
        if k not in _defcache:
            _defcache[k] = (th, th())
        d.append(_defcache[k][1])
    return exprs + d + _bounds(seen), seen


def _run(solver, timeout_s):
    ctx = z3.main_ctx()
    solver.set("timeout", int(timeout_s * 1000))
    t = threading.Timer(timeout_s + 2.0, ctx.interrupt)
    t.start()
    t0 = time.time()
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    finally:
        t.cancel()
    STATS["z3_time"] += time.time() - t0
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return r


def check(bools, depth=None, timeout=10.0, tactic=None, extra=()):
    """-> (result, model or None)"""
    ex, _ = assertions(bools, depth)
    ex = ex + list(extra)
    if tactic is None:
        s = z3.Solver()
    else:
        s = z3.Tactic(tactic).solver()
    s.add(*ex)
    r = _run(s, timeout)
    m = None
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            r = z3.unknown
    return r, m


def check_linear(bools, timeout=20.0):
    """Every monomial its own real variable; linear definitions of the atoms involved.

    Only "unsat" means anything: it carries over to the exact query."""
    ids = set()
    for b in bools:
        ids |= b.atoms()
    defs = {}
    for i in ids:
        for th in sym.T.atoms[i].linear:
            defs[id(th)] = th
    sym.MONO = {}
    try:
        ex = [b.z3() for b in bools]
        s = z3.SimpleSolver()  # most equalities hold as identities: without bounds and definitions first
        s.add(*ex)
        if _run(s, timeout) == z3.unsat:
            return z3.unsat
        if defs:
            ex += [th() for th in defs.values()]
            s = z3.SimpleSolver()
            s.add(*ex)
            if _run(s, timeout) == z3.unsat:
                return z3.unsat
        for m, v in sym.MONO.items():
            lo, hi = sym.prange({m: 1})
            if lo is not None:
                ex.append(v >= sym.q2z(lo))
            if hi is not None:
                ex.append(v <= sym.q2z(hi))
    finally:
        sym.MONO = None
    s = z3.SimpleSolver()
    s.add(*ex)
    return _run(s, timeout)


def model_inputs(m):
    out = {}
    for name, a in sym.T.inputs.items():
        v = m.eval(a.z, model_completion=False)
        if z3.is_rational_value(v):
            out[name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            q = v.approx(20)
            out[name] = Fraction(q.numerator_as_long(), q.denominator_as_long())
        # variables the model leaves open get a generic value later
    return out


def cvc5_check(bools, depth=None, timeout=20.0):
    ex, _ = assertions(bools, depth)
    s = z3.Solver()
    s.add(*ex)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000)], input=txt,
                           capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout.strip().splitlines()
        r = o[0] if o else "unknown"
        if "(error" in p.stdout:
            r = "unknown"
    except subprocess.TimeoutExpired:
        r = "unknown"
    STATS["cvc5_queries"] += 1
    STATS["cvc5_time"] += time.time() - t0
    return r if r in ("sat", "unsat") else "unknown"


def prove(pc, goal, budget=20.0, pure_first=True):
    """Is goal true under pc?  -> ("unsat" | "sat" | "unknown", model)"""
    neg = sym.snot(goal)
    if neg.op == "const" and not neg.args:
        # still hand the (trivial) query to the solver
        r, _ = check([neg], 0, 1.0)
        return str(r), None
    # with few definitions first: unsat there is unsat with all of them
    plan = [([neg], 0, 2.0, None)]
    if pc:
        plan.append((list(pc) + [neg], 1, 4.0, None))
    else:
        plan.append(([neg], 1, 4.0, None))
    plan.append((list(pc) + [neg], None, budget / 2, None))
    plan.append((list(pc) + [neg], None, budget, "qfnra-nlsat"))
    if check_linear(list(pc) + [neg], 10.0) == z3.unsat:
        return "unsat", None
    model = None
    sat_seen = False
    for bools, depth, to, tac in plan:
        try:
            r, m = check(bools, depth, to, tac)
        except z3.Z3Exception:
            r, m = z3.unknown, None
        if r == z3.unsat:
            return "unsat", None
        if depth is None and r == z3.sat:
            return "sat", m
    return "unknown", None
