"""Bounds already learned on a path: cheap entailment before asking the solver."""
from fractions import Fraction

from . import sym


def core(op, p):
    """p op 0 as (key, side, bound, strict): side -1: core < bound, +1: core > bound."""
    strict = op == "lt"
    c0 = p.get(sym.ONE, 0)
    q = {m: c for m, c in p.items() if m != sym.ONE}
    if not q:
        return None
    k = q[sym.lead(q)]
    b = -Fraction(c0) / Fraction(k)
    side = -1 if k > 0 else 1
    q = sym.norm_coeffs(sym.pscale(q, Fraction(1) / Fraction(k)))
    for _ in range(4):
        if len(q) != 1:
            break
        (m, c), = q.items()
        if len(m) != 1 or m[0][1] != 1:
            break
        a = sym.T.atoms[m[0][0]]
        if a.kind != "sqrt" or b < 0 or (b == 0 and side < 0):
            break
        p2 = a.sq
        c0 = p2.get(sym.ONE, 0)
        q2 = {mm: cc for mm, cc in p2.items() if mm != sym.ONE}
        if not q2:
            break
        k = q2[sym.lead(q2)]
        b = (b * b - Fraction(c0)) / Fraction(k)
        if k < 0:
            side = -side
        q = sym.norm_coeffs(sym.pscale(q2, Fraction(1) / Fraction(k)))
    return sym.pkey(q), side, b, strict


class Facts:
    def __init__(self):
        self.lo = {}
        self.hi = {}

    def learn(self, b):
        o = b.op
        if o == "and":
            for x in b.args:
                self.learn(x)
            return
        if o in ("eq", "eq2"):
            p = b.args if o == "eq" else sym.psub(*b.args)
            self._add("le", p)
            self._add("le", sym.pscale(p, -1))
        elif o in ("lt", "le"):
            self._add(o, b.args)
        elif o == "not" and b.args.op == "or":
            for x in b.args.args:
                self.learn(sym.snot(x))

    def _add(self, op, p):
        c = core(op, p)
        if c is None:
            return
        key, side, bound, strict = c
        if side < 0:
            old = self.hi.get(key)
            if old is None or bound < old[0] or (bound == old[0] and strict):
                self.hi[key] = (bound, strict)
        else:
            old = self.lo.get(key)
            if old is None or bound > old[0] or (bound == old[0] and strict):
                self.lo[key] = (bound, strict)

    def entails(self, b):
        """True, False or None."""
        o = b.op
        if o == "const":
            return b.args
        if o == "not":
            r = self.entails(b.args)
            return None if r is None else not r
        if o == "and":
            rs = [self.entails(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if o == "or":
            rs = [self.entails(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if o in ("eq", "eq2"):
            p = b.args if o == "eq" else sym.psub(*b.args)
            if not p:
                return True
            r1, r2 = self._ent("le", p), self._ent("le", sym.pscale(p, -1))
            if r1 is False or r2 is False:
                return False
            return True if r1 and r2 else None
        return self._ent(o, b.args)

    def _ent(self, op, p):
        c = core(op, p)
        if c is None:
            v = p.get(sym.ONE, 0)
            return v < 0 if op == "lt" else v <= 0
        key, side, bound, strict = c
        if side < 0:
            h, l = self.hi.get(key), self.lo.get(key)
            # wanted: core < bound (or <=)
            if h is not None and (h[0] < bound or (h[0] == bound and (h[1] or not strict))):
                return True
            if l is not None and (l[0] > bound or (l[0] == bound and (l[1] or strict))):
                return False
        else:
            h, l = self.hi.get(key), self.lo.get(key)
            if l is not None and (l[0] > bound or (l[0] == bound and (l[1] or not strict))):
                return True
            if h is not None and (h[0] < bound or (h[0] == bound and (h[1] or strict))):
                return False
        return None
