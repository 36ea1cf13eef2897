"""Decides one part: python3-vt run_part.py PID PART OUT.json"""
import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

REAL_PY = os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


def replay(pid, part, cands, scratch, timeout=300):
    i = os.path.join(scratch, "in.json")
    o = os.path.join(scratch, "out.json")
    with open(i, "w") as f:
        json.dump({"property": pid, "part": part.name, "candidates": cands}, f)
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen",
               NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), MPLCONFIGDIR=scratch, OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", XDG_CACHE_HOME=scratch)
    if not part.jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    p = subprocess.run([REAL_PY, os.path.join(os.path.dirname(os.path.abspath(__file__)), "replay_main.py"), i, o],
                       env=env, capture_output=True, text=True, timeout=timeout, cwd=scratch)
    if p.returncode != 0:
        raise RuntimeError("replay driver failed: " + p.stderr[-2000:])
    with open(o) as f:
        return json.load(f)


def compare(sym_vals, real_vals):
    """First difference between the encoding's values and the real ones."""
    a, b = [l for l, _ in sym_vals], [l for l, _ in real_vals]
    if a != b:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return "different obligations at %d: %s / %s (%d, %d)" % (k, a[k:k + 1], b[k:k + 1], len(a), len(b))
    n = 0
    for (l, x), (_, y) in zip(sym_vals, real_vals):
        if x is None or y is None:
            continue
        if len(x) != len(y):
            return "%s: lengths %d / %d" % (l, len(x), len(y))
        sc = max([abs(v) for v in x + y if isinstance(v, float)] + [0.0])
        for u, v in zip(x, y):
            if isinstance(u, float) and isinstance(v, float):
                if not abs(u - v) <= 1e-5 * sc + 1e-7:
                    return "%s: encoding %r, real code %r" % (l, u, v)
            elif isinstance(u, bool) or isinstance(v, bool):
                if u != v:
                    return "%s: encoding %r, real code %r" % (l, u, v)
    return None


def main():
    import logging

    logging.disable(logging.CRITICAL)
    pid, name, outp = sys.argv[1:4]
    t0 = time.time()
    from engine import core, parts, smt

    part = parts.get(pid, name)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = part.timeout * (4 if tier == "thorough" else 1)
    if tier == "quick":
        limit = min(limit, 700)
    ex = core.Explorer(part, tier, seed, time.time() + limit)
    ex.run()
    res = {"part": name, "bounds": part.bounds, "stats": ex.stats, "functions": sorted(ex.functions),
           "notes": sorted(ex.notes), "limits": ex.limits, "sample_query": ex.sample_query,
           "violations": [], "inconclusive": [], "validated": 0, "validation_errors": []}
    if os.environ.get("VERIF_DEBUG"):
        print("explored", ex.stats, "t=%.1f" % (time.time() - t0), smt.STATS, file=sys.stderr)
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        jobs, back = [], []
        for k, f in enumerate(ex.failures):
            for c in f["candidates"]:
                jobs.append(c)
                back.append(("f", k))
        for k, (c, vals) in enumerate(ex.witnesses):
            jobs.append(c)
            back.append(("w", k))
        outs = replay(pid, part, jobs, scratch) if jobs else []
        hit = {}
        for (kind, k), c, o in zip(back, jobs, outs):
            if kind == "f":
                if o["failed"] and k not in hit:
                    hit[k] = True
                    want = ex.failures[k]["label"]
                    lab = [x for x in o["failed"] if x[0] == want] or o["failed"]
                    res["violations"].append({"label": lab[0][0], "solver_label": want, "detail": lab[0][1], "inputs": c,
                                              "all": [x[0] for x in o["failed"]][:20], "solver": ex.failures[k]["status"]})
            else:
                if o["failed"]:
                    res["violations"].append({"label": o["failed"][0][0], "solver_label": None, "detail": o["failed"][0][1],
                                              "inputs": c, "all": [x[0] for x in o["failed"]][:20], "solver": "witness replay"})
                elif o["status"] == "ok":
                    d = compare(ex.witnesses[k][1], o["values"])
                    if d is None:
                        res["validated"] += 1
                    else:
                        res["validation_errors"].append({"inputs": c, "difference": d})
                elif o["status"] != "tie":
                    res["validation_errors"].append({"inputs": c, "difference": "real run ended with " + o["status"]})
        for k, f in enumerate(ex.failures):
            if k not in hit:
                res["inconclusive"].append({"label": f["label"], "status": f["status"], "detail": f["detail"],
                                            "replays": [o["status"] for (kd, kk), o in zip(back, outs) if kd == "f" and kk == k]})
    if ex.limits and not res["violations"]:
        for l in ex.limits:
            res["inconclusive"].append({"label": "exploration", "status": "limit", "detail": l})
    if ex.stats["paths"] == 0:
        res["inconclusive"].append({"label": "vacuity", "status": "no path", "detail": "no path satisfies the assumptions"})
    elif ex.stats["obligations"] == 0:
        res["inconclusive"].append({"label": "vacuity", "status": "no obligation", "detail": ""})
    elif res["validated"] == 0 and part.witnesses and not res["violations"]:
        res["inconclusive"].append({"label": "vacuity", "status": "no witness",
                                    "detail": "no concrete input was confirmed to reach the obligations"})
    res["samples"] = [c for c, _ in ex.witnesses[:2]]
    res["smt"] = smt.STATS
    res["wall_s"] = time.time() - t0
    with open(outp, "w") as f:
        json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
