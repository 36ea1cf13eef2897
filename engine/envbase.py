"""What harnesses may use, in both backends (symbolic and concrete)."""
import numpy as _np


class Ob:
    __slots__ = ("label", "goal", "pc", "vals")

    def __init__(self, label, goal, pc, vals):
        self.label, self.goal, self.pc, self.vals = label, goal, pc, vals


class Mismatch(Exception):
    pass


def flatten(x):
    """Nested lists/tuples/arrays -> (shape-like structure, flat list)."""
    if isinstance(x, _np.ndarray):
        if x.dtype.kind in "US":
            return ("s", x.shape), x.reshape(-1).tolist()
        return tuple(x.shape), list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        try:
            subs = [flatten(v) for v in x]
        except RecursionError:
            raise Mismatch("structure")
        if subs and all(s[0] == subs[0][0] for s in subs):
            shape = (len(subs),) + tuple(subs[0][0])
        elif not subs:
            shape = (0,)
        else:
            shape = ("ragged",) + tuple(s[0] for s in subs)
        return shape, [v for s in subs for v in s[1]]
    return (), [x]


def flatten_pair(a, b):
    """Pairs to compare, or None when the shapes differ."""
    sa, fa = flatten(a)
    sb, fb = flatten(b)
    if sa != sb:
        return None
    return list(zip(fa, fb))


class EnvBase:
    def vec(self, name, n=3, lo=None, hi=None):
        return self.array([self.real("%s_%s" % (name, "xyzuvw"[i] if n <= 6 else i), lo, hi) for i in range(n)])

    def pt(self, name, lo=-4, hi=4):
        return self.vec(name, 3, lo, hi)

    def flag(self, name):
        return bool(self.int_(name, 0, 1))

    def choice(self, name, options):
        return options[self.int_(name, 0, len(options) - 1)]

    def raises(self, label, fn, exc=Exception):
        """fn() must raise exc."""
        try:
            fn()
        except exc as e:
            if type(e).__module__.startswith("engine"):
                raise
            self.true(label, True)
            return
        self.true(label, False)

    def accepts(self, label, fn, ok):
        """fn() must raise exactly when ok is false; returns its result."""
        try:
            r = fn()
        except Exception as e:
            if type(e).__module__.startswith("engine"):
                raise
            self.true(label, self.lnot(ok))
            return None
        self.true(label, ok)
        return r

    def note(self, s):
        self.notes.add(s)
