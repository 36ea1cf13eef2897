"""A part: one harness with its bounds."""
import importlib.util
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = os.path.join(os.path.dirname(HERE), "checks")


class Part:
    def __init__(self, name, fn, bounds="", tiers=("quick", "thorough"), max_paths=400, budget=20.0, timeout=400.0,
                 witnesses=2, modules=(), jit=False, rtol=1e-6, params=None, compare_raw=True, merge=False):
        self.name, self.fn, self.bounds, self.tiers = name, fn, bounds, tiers
        self.max_paths, self.budget, self.timeout = max_paths, budget, timeout
        self.witnesses, self.modules, self.jit, self.rtol = witnesses, modules, jit, rtol
        self.params = params or {}
        self.compare_raw = compare_raw
        self.merge = merge


def load(pid):
    import sys

    if CHECKS not in sys.path:
        sys.path.insert(0, CHECKS)
    path = os.path.join(CHECKS, pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def get(pid, name):
    m = load(pid)
    for p in m.PARTS:
        if p.name == name:
            return p
    raise KeyError(name)
