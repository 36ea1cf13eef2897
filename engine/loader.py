"""Load /repo's package from its current source for symbolic execution.

Every module is parsed afresh, float literals are made exact, int/int division
stays exact, and imports of numpy, math, scipy, numba ... are routed to
engine.shim.  Nothing else of the code is changed.
"""
import ast
import builtins
import importlib.util
import os
import sys
import types
from fractions import Fraction

from . import shim, sym

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pterasoftware"
_CODE = {}


class Exact(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(
                ast.Call(ast.Name("__exact__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        # leave format specs alone
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(
                ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(
                ast.Call(ast.Name("__pow__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target)
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name("__idiv__", ast.Load()), [load, n.value], [])), n)
        return n

    def visit_MatchValue(self, n):
        return n


def _exact(s):
    if s in ("inf", "nan"):
        return float(s)
    return Fraction(s)


def _isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def _div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Fraction(a, b)
    if isinstance(a, shim._np.ndarray) and a.dtype.kind in "iu":
        a = a.astype(object)
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = Fraction(int(f[i]))
    elif isinstance(a, shim._np.ndarray) and a.dtype == object and a.size:
        pass
    return a / b


def _idiv(a, b):
    if isinstance(a, shim._np.ndarray) and a.dtype == object:
        a /= b
        return a
    return _div(a, b)


def _pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return Fraction(a) ** b
    if isinstance(b, Fraction) and b.denominator != 1:
        if isinstance(a, shim._np.ndarray):
            return shim.power(a, b)
        return shim._pow(shim._num(a), b)
    if isinstance(b, Fraction):
        b = b.numerator
    return a ** b


class Package:
    def __init__(self, extra_modules=None, print_hook=None):
        self.root = os.path.join(REPO, PKG)
        self.mods = shim.make_modules()
        if extra_modules:
            self.mods.update(extra_modules)
            for k, v in extra_modules.items():
                top, _, leaf = k.rpartition(".")
                if top in self.mods:
                    setattr(self.mods[top], leaf, v)
        self.loaded = {}
        self.print_hook = print_hook
        self._real_import = builtins.__import__
        bi = dict(vars(builtins))
        bi["__import__"] = self._import
        bi["print"] = self._print
        bi["float"] = _Float
        bi["sum"] = sum
        bi["max"] = _max
        bi["round"] = _round
        bi["__exact__"] = _exact
        bi["__div__"] = _div
        bi["__idiv__"] = _idiv
        bi["__pow__"] = _pow
        self.builtins = bi
        for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
            del sys.modules[k]
        self.package = self.load(PKG)

    def _print(self, *a, **k):
        if self.print_hook is not None:
            k2 = dict(k)
            k2.pop("file", None)
            k2.pop("flush", None)
            self.print_hook(k.get("sep", " ").join(str(x) for x in a) + k.get("end", "\n"))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals.get("__package__") or PKG
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == PKG or full.startswith(PKG + "."):
            mod = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(mod, f):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError:
                            pass
                return mod
            return self.load(full.partition(".")[0])
        if full in self.mods:
            if fromlist:
                return self.mods[full]
            return self.mods[full.partition(".")[0]]
        top = full.partition(".")[0]
        if top in self.mods:
            m = self.mods[top]
            if full not in self.mods:
                if top in ("numpy", "math"):
                    return self._real_import(name, globals, locals, fromlist, level)
                sub = shim.StubModule(full)
                self.mods[full] = sub
                setattr(m, full.rpartition(".")[2], sub)
            return self.mods[full] if fromlist else m
        return self._real_import(name, globals, locals, fromlist, level)

    def load(self, full):
        if full in self.loaded:
            return self.loaded[full]
        rel = full.split(".")[1:]
        p = os.path.join(self.root, *rel)
        is_pkg = os.path.isdir(p)
        path = os.path.join(p, "__init__.py") if is_pkg else p + ".py"
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % full, name=full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if is_pkg else full.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [p]
        m.__spec__ = importlib.util.spec_from_file_location(full, path, submodule_search_locations=[p] if is_pkg else None)
        m.__dict__["__builtins__"] = self.builtins
        self.loaded[full] = m
        sys.modules[full] = m
        code = _CODE.get(path)
        if code is None:  # read once per process: every path of a run sees the same source
            with open(path, "rb") as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(Exact().visit(tree))
            code = _CODE[path] = compile(tree, path, "exec")
        if rel:
            parent = self.load(full.rpartition(".")[0])
        exec(code, m.__dict__)
        if rel:
            setattr(parent, rel[-1], m)
        return m

    def replace_everywhere(self, old, new):
        """Rebind every module-level reference to `old` in the package."""
        n = 0
        for m in list(self.loaded.values()):
            for k, v in list(vars(m).items()):
                if v is old:
                    setattr(m, k, new)
                    n += 1
        return n


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Fraction, sym.Sym))


class _Float(metaclass=_FloatMeta):
    """float(): the identity on exact numbers and symbolic values."""

    _is_exact_float = True

    def __new__(cls, x=0):
        if isinstance(x, (sym.Sym, Fraction)):
            return x
        if isinstance(x, int):
            return Fraction(x)
        if isinstance(x, shim._np.ndarray) and x.size == 1:
            return x.reshape(-1)[0]
        x = float(x)
        return shim._num(x)


def _max(*a, **k):
    xs = a[0] if len(a) == 1 else a
    if sym.MERGE and not k:
        xs = list(xs)
        if any(isinstance(x, sym.Sym) for x in xs) and not any(isinstance(x, float) and x == float("inf") for x in xs):
            return sym.max_([x for x in xs if not (isinstance(x, float) and x == float("-inf"))])
    return builtins.max(*a, **k) if len(a) > 1 or k else builtins.max(xs)


def _round(x, n=None):
    if isinstance(x, (sym.Sym, Fraction, float, shim._np.floating)):
        if isinstance(x, (float, shim._np.floating)) and not shim._math.isfinite(x):
            return x
        return sym.round_(shim._num(x), n)
    return round(x) if n is None else round(x, n)
