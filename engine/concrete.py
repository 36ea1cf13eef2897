"""Runs a harness on the real, unmodified package with concrete inputs."""
import contextlib
import importlib
import io
import math
import os
import sys
import types
from fractions import Fraction

import numpy as _np

from .envbase import EnvBase, flatten_pair

REPO = os.environ.get("VERIF_REPO", "/repo")


class Tie(BaseException):
    """Rounding decides this run: it shows nothing."""


class Skip(BaseException):
    """An assumption does not hold for this input."""


def default_value(name, lo, hi, salt=0):
    import hashlib

    h = int(hashlib.sha256(("%s|%d" % (name, salt)).encode()).hexdigest()[:8], 16)
    u = Fraction(h % 997 + 1, 999)
    lo = lo if lo is not None else (hi - 4 if hi is not None else -2)
    hi = hi if hi is not None else lo + 4
    v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * u
    return float(v)


class ConcreteEnv(EnvBase):
    symbolic = False

    def __init__(self, part, cand, rtol=1e-6):
        self.part = part
        self.cand = cand
        self.np = _np
        self.math = math
        self.pi = math.pi
        self.rtol = rtol
        self.failed = []
        self.values = []
        self.extra_modules = {}
        self._restore = []
        self._ps = None
        self.out = io.StringIO()
        self.notes = set()

    @property
    def ps(self):
        if self._ps is None:
            for k, m in self.extra_modules.items():
                self._restore.append(("mod", k, sys.modules.get(k)))
                sys.modules[k] = m
            if self.extra_modules:
                for k in [k for k in sys.modules if k.split(".")[0] == "pterasoftware"]:
                    del sys.modules[k]
            self._ps = importlib.import_module("pterasoftware")
            for n in self.part.modules:
                importlib.import_module("pterasoftware." + n)
        return self._ps

    def module(self, name):
        self.ps
        return importlib.import_module("pterasoftware." + name)

    def patch_everywhere(self, old, new):
        self.ps
        n = 0
        for mn, m in list(sys.modules.items()):
            if mn.split(".")[0] == "pterasoftware" and isinstance(m, types.ModuleType):
                for k, v in list(vars(m).items()):
                    if v is old:
                        self._restore.append(("attr", m, k, v))
                        setattr(m, k, new)
                        n += 1
        return n

    def cleanup(self):
        for r in reversed(self._restore):
            if r[0] == "attr":
                setattr(r[1], r[2], r[3])
            else:
                if r[2] is None:
                    sys.modules.pop(r[1], None)
                else:
                    sys.modules[r[1]] = r[2]
        if self.extra_modules:
            for k in [k for k in sys.modules if k.split(".")[0] == "pterasoftware"]:
                del sys.modules[k]
        self._restore = []

    def real(self, name, lo=None, hi=None):
        v = self.cand.get(name)
        if v is None:
            v = default_value(name, lo, hi)
        elif isinstance(v, str):
            v = float(Fraction(v)) if "/" in v or v.lstrip("-").isdigit() else float(v)
        if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)):
            raise Skip()
        return float(v)

    def const(self, s):
        return float(Fraction(str(s)))

    def int_(self, name, lo, hi):
        v = int(self.cand.get(name, lo))
        if v < lo or v > hi:
            raise Skip()
        return v

    def array(self, x):
        return _np.array(x, dtype=float)

    def assume(self, c):
        if not c:
            raise Skip()

    def tie(self, c):
        if c:
            raise Tie()

    def lnot(self, c):
        return not c

    def land(self, *cs):
        return all(bool(c) for c in cs)

    def lor(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    # ---- obligations
    def eq(self, label, a, b):
        pairs = flatten_pair(a, b)
        if pairs is None:
            self.failed.append((label, "shapes differ: %s / %s" % (_short(a), _short(b))))
            self.values.append((label, None))
            return
        scale = 0.0
        for x, y in pairs:
            for v in (x, y):
                if isinstance(v, (int, float, _np.number)) and not isinstance(v, bool) and math.isfinite(v):
                    scale = max(scale, abs(float(v)))
        bad = None
        for x, y in pairs:
            if not self._eq1(x, y, scale):
                bad = (x, y)
                break
        self.values.append((label, [_n(x) for x, _ in pairs]))
        if bad is not None:
            self.failed.append((label, "got %s, expected %s" % (_short(a), _short(b))))

    def _eq1(self, x, y, scale):
        num = (int, float, _np.number)
        bx, by = isinstance(x, (bool, _np.bool_)), isinstance(y, (bool, _np.bool_))
        if bx or by:
            return bx and by and bool(x) == bool(y)
        if isinstance(x, num) and isinstance(y, num):
            x, y = float(x), float(y)
            if not (math.isfinite(x) and math.isfinite(y)):
                return x == y
            return abs(x - y) <= self.rtol * scale + 1e-9
        try:
            return bool(x == y)
        except Exception:
            return False

    def true(self, label, c):
        self.values.append((label, None))
        if not bool(c):
            self.failed.append((label, "condition is false"))

    def printed_text(self):
        return self.out.getvalue()


def _n(x):
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, _np.number)):
        return float(x)
    return str(x)


def _short(x):
    with _np.printoptions(precision=10, threshold=30):
        s = str(x.tolist() if isinstance(x, _np.ndarray) and x.size < 40 else x)
    return s if len(s) < 500 else s[:500] + "..."


def run(part, cand, rtol=1e-6):
    """-> dict(status, failed=[(label, detail)], values=[(label, flat)])"""
    env = ConcreteEnv(part, cand, rtol)
    try:
        with contextlib.redirect_stdout(env.out):
            part.fn(env, **part.params)
    except Tie:
        return {"status": "tie", "failed": [], "values": []}
    except Skip:
        return {"status": "skip", "failed": [], "values": []}
    except Exception as e:
        import traceback

        tb = traceback.format_exc()[-2000:]
        pkg = os.path.join(REPO, "pterasoftware") + os.sep
        in_code = any(fr.filename.startswith(pkg) for fr in traceback.extract_tb(e.__traceback__))
        wrong_result = isinstance(e, (IndexError, ValueError, ArithmeticError)) or (
            isinstance(e, TypeError) and "argument" not in str(e))
        if not in_code and not wrong_result and not env.failed:
            # the harness itself failed (e.g. an internal it looks at was renamed): no verdict
            return {"status": "harness error %s: %s" % (type(e).__name__, e), "failed": [], "values": [], "tb": tb}
        return {"status": "raised", "failed": [("no-exception", "%s: %s" % (type(e).__name__, e))] + env.failed,
                "values": env.values, "tb": tb}
    finally:
        env.cleanup()
    return {"status": "ok", "failed": env.failed, "values": env.values}
