"""Which lines of the package do the encodings execute?   cover.py OUT.json  (python3-vt)

Runs every part under line monitoring and prints, per file, the lines of functions no part executes."""
import ast
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/pterasoftware"
sys.path[:0] = [ROOT, ROOT + "/checks"]


def one(pid, part, out):
    seen = {}
    mon = sys.monitoring
    mon.use_tool_id(4, "cover")

    def line(code, n):
        f = code.co_filename
        if "pterasoftware" in f and "/verif/" not in f:
            seen.setdefault(os.path.basename(f), set()).add(n)
        return mon.DISABLE

    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    sys.argv = ["run_part.py", pid, part, os.devnull]
    sys.path.insert(0, os.path.join(ROOT, "engine"))
    from engine import run_part
    try:
        run_part.main()
    except SystemExit:
        pass
    finally:
        with open(out, "w") as f:
            json.dump({k: sorted(v) for k, v in seen.items()}, f)


def main():
    if sys.argv[1] == "--one":
        return one(*sys.argv[2:])
    import importlib
    jobs = []
    for f in sorted(os.listdir(ROOT + "/checks")):
        if f[0] == "p" and f[1:3].isdigit() and f.endswith(".py"):
            m = importlib.import_module("checks." + f[:-3])
            for p in m.PARTS:
                if "quick" in p.tiers:
                    jobs.append((f[:3].upper(), p.name))
    os.makedirs("/tmp/cover", exist_ok=True)

    def run(j):
        o = "/tmp/cover/%s_%d.json" % (j[0], jobs.index(j))
        subprocess.run([sys.executable, os.path.abspath(__file__), "--one", j[0], j[1], o], capture_output=True, timeout=1200)
        return json.load(open(o)) if os.path.exists(o) else print("no result", j)

    cov = {}
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(run, jobs):
            for k, v in (r or {}).items():
                cov.setdefault(k, set()).update(v)
    json.dump({k: sorted(v) for k, v in cov.items()}, open(sys.argv[1], "w"))
    report(cov)


def report(cov):
    for f in sorted(os.listdir(PKG)):
        if not f.endswith(".py"):
            continue
        src = open(os.path.join(PKG, f)).read()
        want = {}
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.FunctionDef):
                for s in ast.walk(n):
                    if isinstance(s, ast.stmt) and s is not n and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        want[s.lineno] = n.name if s.lineno not in want else want[s.lineno]
        miss = sorted(set(want) - set(cov.get(f, ())))
        print(f, "%d of %d statement lines executed" % (len(want) - len(miss), len(want)))
        for l in miss:
            print("   %5d %-40s %s" % (l, want[l], src.splitlines()[l - 1].strip()[:80]))


if __name__ == "__main__":
    main()
