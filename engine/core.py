"""Path exploration: runs a harness over symbolic values, path by path."""
import os
import sys
import time
from fractions import Fraction

import numpy as _np
import z3

from . import loader, shim, smt, sym
from .facts import Facts
from .envbase import EnvBase, Ob, flatten_pair
from .sym import Discard, EngineLimit, Sym, SymBool


MAX_FAILURES = 3


class PathLimit(Exception):
    pass


class Ctx:
    """Decisions, path condition and obligations of one execution."""

    def __init__(self, prefix, stats, deadline):
        self.prefix = prefix
        self.trail = []  # list of [kind, taken, open alternatives]
        self.pc = []
        self.known = {}
        self.facts = Facts()
        self.notes = set()
        self.tokens = []
        self.choices = {}
        self.stats = stats
        self.deadline = deadline
        self.obs = []

    # -- branching
    def _record(self, taken, alts):
        self.trail.append((taken, alts))

    def decide(self, b):
        if time.time() > self.deadline:
            raise EngineLimit("time limit of the part reached")
        k = b.key()
        if k in self.known:
            return self.known[k]
        v = self.facts.entails(b)
        if v is not None:
            return v
        nb = sym.snot(b)
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
            self._record(v, None)
        else:
            self.stats["decisions"] += 1
            ft = self._feasible(b)
            ff = self._feasible(nb) if ft else True
            if ft and ff:
                v = True
                self._record(True, [False])
            else:
                v = ft
                self._record(v, None)
        self._learn(b if v else nb)
        self.known[k] = v
        self.known[nb.key()] = not v
        return v

    def _learn(self, b):
        self.pc.append(b)
        self.facts.learn(b)

    def _feasible(self, b):
        if b.op == "const":
            return b.args
        try:
            r, _ = smt.check(self.pc + [b], 1, 1.5)
            if r == z3.unknown:
                r, _ = smt.check(self.pc + [b], None, 1.5, "qfnra-nlsat")
        except z3.Z3Exception:
            return True
        return r != z3.unsat

    def choose(self, name, n):
        """A finite choice of the harness: all n options are explored."""
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
            self._record(v, None)
        else:
            v = 0
            self._record(0, list(range(1, n)))
        return v

    def concretise(self, s):
        """An integer-valued symbolic number as a Python int (forks)."""
        lo, hi = sym.prange(s.p)
        if lo is None or hi is None or hi - lo > 200:
            # no interval bound: walk up from zero, the path condition must stop it
            if bool(s < 0):
                raise EngineLimit("unbounded symbolic integer used as an index")
            for v in range(64):
                if bool(s == v):
                    return v
                if not bool(s > v):
                    raise Discard()
            raise EngineLimit("unbounded symbolic integer used as an index")
        for v in range(int(sym.math.ceil(lo)), int(sym.math.floor(hi)) + 1):
            if bool(s == v):
                return v
        raise Discard()

    def token(self, s):
        self.tokens.append(s)
        return "\u27e8%d\u27e9" % (len(self.tokens) - 1)

    def nonzero(self, aid):
        pass

    def note_assumption(self, s):
        self.notes.add(s)


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, ctx, part):
        self.ctx = ctx
        self.part = part
        self.np = shim.np
        self.math = shim.math
        self.pi = sym.PI
        self.printed = []
        self.pkg = None
        self.extra_modules = {}
        self.names = {}
        self.notes = ctx.notes
        self.observed = []

    # ---- package
    @property
    def ps(self):
        if self.pkg is None:
            self.pkg = loader.Package(self.extra_modules, self.printed.append)
            for n in self.part.modules:
                self.pkg.load("pterasoftware." + n)
        return self.pkg.package

    def module(self, name):
        self.ps
        return self.pkg.load("pterasoftware." + name)

    def patch_everywhere(self, old, new):
        self.ps
        return self.pkg.replace_everywhere(old, new)

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        lo = None if lo is None else Fraction(sym.rat(lo))
        hi = None if hi is None else Fraction(sym.rat(hi))
        self.names[name] = "real"
        return Sym(sym.patom(sym.T.input(name, lo, hi)))

    def const(self, s):
        """An exact decimal constant."""
        return Fraction(str(s))

    def int_(self, name, lo, hi):
        if name in self.ctx.choices:
            return self.ctx.choices[name]
        self.names[name] = "int"
        v = lo + self.ctx.choose(name, hi - lo + 1)
        self.ctx.choices[name] = v
        return v

    def array(self, x):
        return shim.array(x)

    def assume(self, c):
        c = sym.sbool(c)
        if c.op == "const":
            if not c.args:
                raise Discard()
            return
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        k = c.key()
        if k in self.ctx.known:
            if not self.ctx.known[k]:
                raise Discard()
            return
        v = self.ctx.facts.entails(c)
        if v is False:
            raise Discard()
        self.ctx.pc.append(c)
        self.ctx.facts.learn(c)
        self.ctx.known[k] = True
        self.ctx.known[sym.snot(c).key()] = False

    # ---- obligations
    def eq(self, label, a, b):
        pairs = flatten_pair(a, b)
        if pairs is None:
            self.ctx.obs.append(Ob(label, sym.FALSE, list(self.ctx.pc), None))
            return
        goals, vals = [], []
        for x, y in pairs:
            g = self._eq1(x, y)
            goals.append(g)
            vals.append((x, y))
        self.ctx.obs.append(Ob(label, sym.sand(goals), list(self.ctx.pc), vals))

    def _eq1(self, x, y):
        if x is y:
            if isinstance(x, Sym):
                return SymBool("eq2", (x.p, x.p))
            return sym.TRUE
        nx, ny = shim._num(x), shim._num(y)
        if isinstance(nx, SymBool) or isinstance(ny, SymBool):
            return sym.sbool(nx) == sym.sbool(ny)
        if isinstance(nx, (bool, _np.bool_)) or isinstance(ny, (bool, _np.bool_)):
            return sym.sbool(isinstance(nx, (bool, _np.bool_)) and isinstance(ny, (bool, _np.bool_)) and bool(nx) == bool(ny))
        px = sym.topoly(nx) if not (isinstance(nx, float)) else None
        py = sym.topoly(ny) if not (isinstance(ny, float)) else None
        if px is None or py is None:
            try:
                return sym.sbool(bool(nx == ny))
            except Exception:
                return sym.FALSE
        return SymBool("eq2", (px, py))

    def true(self, label, c):
        c = sym.sbool(c) if isinstance(c, SymBool) else sym.sbool(bool(c))
        self.ctx.obs.append(Ob(label, c, list(self.ctx.pc), None))

    def lnot(self, c):
        return sym.snot(c)

    def land(self, *cs):
        return sym.sand(cs)

    def lor(self, *cs):
        return sym.sor(cs)

    def implies(self, a, b):
        return sym.sor([sym.snot(a), b])

    def printed_text(self):
        return "".join(self.printed)


class Explorer:
    def __init__(self, part, tier, seed, deadline):
        self.part = part
        sym.MERGE = part.merge
        self.tier = tier
        self.seed = seed
        self.deadline = deadline
        self.stats = {"paths": 0, "decisions": 0, "discarded": 0, "obligations": 0, "discharged": 0,
                      "max_atoms": 0, "unreached_choices": 0}
        self.functions = set()
        self.notes = set()
        self.failures = []
        self.witnesses = []  # (candidate, {label: numeric values})
        self.limits = []
        self.sample_query = None

    def profile(self, frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(self._root) and frame.f_code.co_flags & 1:
                self.functions.add((fn[len(self._root) + 1:], frame.f_code.co_qualname, frame.f_code.co_firstlineno))

    def run(self):
        self._root = os.path.join(loader.REPO, loader.PKG)
        work = [[]]
        maxp = self.part.max_paths
        n_wit = self.part.witnesses
        while work:
            if self.stats["paths"] >= maxp:
                self.limits.append("path bound %d reached, %d prefixes unexplored" % (maxp, len(work)))
                break
            if time.time() > self.deadline:
                self.limits.append("time bound reached, %d prefixes unexplored" % len(work))
                break
            prefix = work.pop()
            sym.reset_table()
            smt._defcache.clear()
            ctx = Ctx(prefix, self.stats, self.deadline)
            sym.set_ctx(ctx)
            env = SymEnv(ctx, self.part)
            error = None
            sys.setprofile(self.profile)
            try:
                self.part.fn(env, **self.part.params)
            except Discard:
                self.stats["discarded"] += 1
                error = "discard"
            except EngineLimit as e:
                error = "engine: %s" % e
                import traceback

                self.last_tb = traceback.format_exc()
            except Exception as e:
                import traceback

                error = "raised %s: %s" % (type(e).__name__, e)
                self.last_tb = traceback.format_exc()
            finally:
                sys.setprofile(None)
            for i, (taken, alts) in enumerate(ctx.trail):
                if alts and i >= len(prefix):
                    base = [t for t, _ in ctx.trail[:i]]
                    for a in reversed(alts):
                        work.append(base + [a])
            self.notes |= ctx.notes
            self.stats["max_atoms"] = max(self.stats["max_atoms"], len(sym.T.atoms))
            if error == "discard":
                continue
            self.stats["paths"] += 1
            self.decide_path(ctx, env)
            if error is not None and any(f["kind"] == "error" and f["where"] == self.last_tb[-400:] for f in self.failures):
                pass
            elif error is not None:
                cands = self.candidates(ctx, None)
                self.failures.append({"label": "no-exception", "kind": "error", "detail": error + "\n" + self.last_tb[-1500:],
                                      "status": "error", "candidates": cands, "where": self.last_tb[-400:]})
            elif len(self.witnesses) < n_wit:
                self.witness(ctx)
            if len(self.failures) >= MAX_FAILURES:
                self.limits.append("stopped after %d failures" % len(self.failures))
                break

    # ------------------------------------------------------------ deciding
    def decide_path(self, ctx, env):
        obs = ctx.obs
        self.stats["obligations"] += len(obs)
        if not obs:
            return
        # one batched query first: unsat means every goal holds
        todo = list(obs)
        negs = [sym.snot(o.goal) for o in obs]
        for i in range(0, len(todo), 40):
            grp = todo[i:i + 40]
            bad = sym.sor([sym.snot(o.goal) for o in grp])
            if self.sample_query is None and bad.op != "const":
                self.sample_query = str(sym.snot(grp[0].goal).z3())[:600]
            r = smt.check_linear([bad], 20.0)
            if r == z3.unsat:
                self.stats["discharged"] += len(grp)
                continue
            for o in grp:
                left = max(1.0, self.deadline - time.time())
                bad = sym.snot(o.goal)
                if smt.check_linear([bad], 5.0) == z3.unsat:
                    self.stats["discharged"] += 1
                    continue
                pin = self.pinned(o, bad)
                if pin is not None:
                    self.failures.append({"label": o.label, "kind": "goal", "status": pin[0], "detail": "",
                                          "candidates": [self._cand(ctx, pin[1])] + self.candidates(ctx, None, o)})
                    if len(self.failures) >= MAX_FAILURES or time.time() > self.deadline:
                        return
                    continue
                r, m = smt.prove(o.pc, o.goal, min(self.part.budget, left))
                if r == "unsat":
                    self.stats["discharged"] += 1
                    continue
                # is the path itself possible?
                if r == "unknown":
                    c5 = smt.cvc5_check(list(o.pc) + [sym.snot(o.goal)], None, min(self.part.budget, left))
                    if c5 == "unsat":
                        self.stats["discharged"] += 1
                        continue
                self.failures.append({
                    "label": o.label, "kind": "goal", "status": r,
                    "detail": "",
                    "candidates": self.candidates(ctx, m, o),
                })
                if len(self.failures) >= MAX_FAILURES or time.time() > self.deadline:
                    return

    def pinned(self, o, bad):
        """A generic input of the path at which the goal is plainly false, and the solver's word on it."""
        for salt in range(25):
            s = self._sample(None, salt + 31 * self.seed)
            try:
                val = sym.Valuation(dict(s))
                if not all(b.eval(val) for b in o.pc) or o.goal.eval(val, 1e-6):
                    continue
            except (ArithmeticError, ValueError, EngineLimit, Discard, _np.linalg.LinAlgError):
                continue
            extra = [a.z == sym.q2z(s[k]) for k, a in sym.T.inputs.items()]
            try:
                r, _ = smt.check(list(o.pc) + [bad], None, 3.0, None, extra)
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                continue
            return "sat" if r == z3.sat else "numerically false", s
        return None

    def _cand(self, ctx, inputs):
        d = {}
        for k, v in ctx.choices.items():
            d[k] = v
        for k, a in sym.T.inputs.items():
            v = inputs.get(k)
            if v is not None:
                d[k] = str(Fraction(v)) if not isinstance(v, float) else repr(v)
        return d

    def _sample(self, ctx, salt, base=None):
        out = dict(base or {})
        for k, a in sym.T.inputs.items():
            if k not in out:
                out[k] = sym.default_value(a, salt)
        return out

    def candidates(self, ctx, model, ob=None):
        pc = ob.pc if ob is not None else ctx.pc
        out = []
        if model is not None:
            mi = smt.model_inputs(model)
            out.append(self._cand(ctx, self._sample(ctx, self.seed, mi)))
            out.append(self._cand(ctx, self._sample(ctx, self.seed + 1, mi)))
        # generic points on the same path
        got = 0
        for salt in range(60):
            s = self._sample(ctx, salt + 17 * self.seed)
            if self._on_path(pc, s):
                out.append(self._cand(ctx, s))
                got += 1
                if got >= 6:
                    break
        if got < 2:
            m = self.path_model(pc, ctx)
            if m is not None:
                out.append(self._cand(ctx, self._sample(ctx, self.seed, m)))
        return out

    def _on_path(self, pc, s):
        try:
            val = sym.Valuation(dict(s))
            return all(b.eval(val) for b in pc)
        except (ArithmeticError, ValueError, EngineLimit, Discard, _np.linalg.LinAlgError):
            return False

    def path_model(self, pc, ctx):
        """Inputs of this path: z3 model, pinned towards generic values."""
        try:
            # as many inputs as possible at their generic value
            s = z3.Optimize()
        except Exception:
            s = None
        for depth, tac in ((None, None), (None, "qfnra-nlsat"), (1, None)):
            try:
                r, m = smt.check(list(pc), depth, 4.0, tac)
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                base = smt.model_inputs(m)
                # move inputs to generic values while the path stays feasible
                ex, _ = smt.assertions(list(pc), depth)
                sol = z3.Solver()
                sol.add(*ex)
                sol.set("timeout", 500)
                fixed = dict(base)
                t0 = time.time()
                for k, a in sym.T.inputs.items():
                    if time.time() - t0 > 5:
                        break
                    v = sym.default_value(a, self.seed)
                    sol.push()
                    sol.add(a.z == sym.q2z(v))
                    if sol.check() == z3.sat:
                        fixed[k] = v
                        mm = sol.model()
                        fixed_rest = smt.model_inputs(mm)
                        for kk, vv in fixed_rest.items():
                            fixed[kk] = vv
                    else:
                        sol.pop()
                return fixed
        return None

    def witness(self, ctx):
        cand = None
        for salt in range(40):
            s = self._sample(ctx, salt + 17 * self.seed)
            if self._on_path(ctx.pc, s):
                cand = s
                break
        if cand is None:
            m = self.path_model(ctx.pc, ctx)
            if m is None:
                return
            cand = self._sample(ctx, self.seed, m)
            if not self._on_path(ctx.pc, cand):
                return
        val = sym.Valuation(dict(cand))
        out = []
        try:
            for o in ctx.obs:
                if o.vals is None:
                    out.append((o.label, None))
                    continue
                out.append((o.label, [self._num(x, val) for x, _ in o.vals]))
        except (ArithmeticError, ValueError, EngineLimit, _np.linalg.LinAlgError):
            return
        self.witnesses.append((self._cand(ctx, cand), out))

    def _num(self, x, val):
        if isinstance(x, Sym):
            return sym.peval(x.p, val)
        if isinstance(x, SymBool):
            return bool(x.eval(val))
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, (bool, _np.bool_)):
            return bool(x)
        if isinstance(x, (int, float, _np.integer, _np.floating)):
            return float(x)
        return str(x)
